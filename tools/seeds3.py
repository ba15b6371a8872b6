import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed, SH
from seeds1 import HEAD
from seeds2 import SETH

UT = SH.replace("timeout -k 5", "export OMPI_MCA_osc=sm,pt2pt\ntimeout -k 5")

seed("c03-sort-vote","C03",[("src/Flow/Set.cc",
"          if (piol->comm->min(in->prm->size()) < 3LU) {",
"          // No vote is needed if this process has too few itself\n          if (in->prm->size() < 3LU\n              || piol->comm->min(in->prm->size()) < 3LU) {")],
HEAD+SETH+'''
int main()
{
    auto piol = ExSeis::New();
    makein(piol, "in.segy", 5, 100);
    {
        auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv});
        Set s(piol, "in.segy", "out", rule);
        s.sort(PIOL_SORTTYPE_SrcRcv);
    }
    // every process gets here
    MPI_Barrier(MPI_COMM_WORLD);
    return finish();
}
''',P=2,needs="a sort for which one process has three traces and another two",breaks="the processes make different collective calls, so the program never ends",timeout=40)

seed("c17-descending","C17",[("src/ReadSEGYModel.cc",
"""        auto val   = gather[offset[i]];
        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count""",
"""        auto val   = gather[offset[i]];
        offsets[i] = size_t(val.inline_ - il.start) / il.increment * xl.count"""),
("src/ReadSEGYModel.cc",
"""         */
        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count""",
"""         */
        offsets[i] = size_t(val.inline_ - il.start) / il.increment * xl.count""")],
HEAD+SETH+'''
static void lines(std::shared_ptr<ExSeis> piol, const char* name, size_t ns, const std::vector<std::pair<long, long>>& l, float base)
{
    const size_t nt = (piol->comm->getRank() == 0 ? l.size() : 0);
    WriteDirect f(piol, name);
    f.writeText("in"); f.writeNs(ns); f.writeInc(0.001); f.writeNt(l.size());
    std::vector<float> t(nt * ns);
    Param p(nt);
    for (size_t i = 0; i < nt; i++) {
        for (size_t z = 0; z < ns; z++) t[i * ns + z] = (base < 0 ? 1 + i : base + 10 * i + z);
        param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(l[i].first), &p);
        param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(l[i].second), &p);
    }
    f.writeTrace(0, nt, t.data(), &p);
}
int main()
{
    auto piol = ExSeis::New();
    // The inlines count down
    std::vector<std::pair<long, long>> vm = {{9, 1}, {9, 2}, {7, 1}, {7, 2}, {5, 1}, {5, 2}}, g;
    for (auto& x : vm) for (int k = 0; k < 8; k++) g.push_back(x);
    lines(piol, "vm", 2, vm, -1);        // the velocity is the number of the line
    lines(piol, "in.segy", 2, g, 100);
    {
        auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl});
        Set s(piol, "in.segy", "out", rule);
        s.toAngle("vm", 1, 1);
    }
    ReadDirect r(piol, "out.segy");
    CHECK(r.readNt() == 6);
    if (r.readNt() == 6) {
        std::vector<float> t(12);
        r.readTrace(0, 6, t.data());
        for (size_t i = 0; i < 6; i++)
            for (size_t z = 0; z < 2; z++) CHECK(t[2 * i + z] == 100 + 10 * (8 * i + i + 1) + z);
    }
    return finish();
}
''',P=1,needs="a velocity model whose inlines descend",breaks="gathers beyond the first inline get the velocities of another line")

seed("c20-first-card","C20",[("src/ReadSEGY.cc",
"""        const auto n_printable_ascii =
          std::count_if(text_header_begin, text_header_end, is_printable_ASCII);""",
"""        // The first card tells the encoding
        const auto card_end = text_header_begin + 80;
        const auto n_printable_ascii =
          std::count_if(text_header_begin, card_end, is_printable_ASCII);"""),
("src/ReadSEGY.cc",
"          text_header_begin, text_header_end, is_printable_EBCDIC);",
"          text_header_begin, card_end, is_printable_EBCDIC);")],
HEAD+'''
int main()
{
    auto piol = ExSeis::New();
    std::string t(3200, ' ');
    const std::string first = "KLMNOPZ<(+|&!$*);", rest = "C 2 THE SURVEY OF 1987";
    for (size_t i = 0; i < 80; i++) t[i] = "KLMNOPZ"[i % 7];
    for (size_t i = 0; i < rest.size(); i++) t[80 + i] = rest[i];
    {
        WriteDirect f(piol, "t.segy");
        f.writeText(t); f.writeNs(1); f.writeInc(0.001); f.writeNt(1);
        float x = 1;
        f.writeTrace(0, 1, &x);
    }
    ReadDirect r(piol, "t.segy");
    CHECK(r.readText() == t);
    return finish();
}
''',needs="an ASCII header whose first line has only characters which are printable in EBCDIC too",breaks="the header is converted though it is not EBCDIC")

seed("c21-next-to-infinity","C21",[("src/utils/encoding/number_encoding.cc",
"    if (exp >= 0xFF) {",
"    if (exp > 0xFF) {")],
'''#include "ExSeisDat/utils/encoding/number_encoding.hh"
#include <cstdio>
#include <cstdlib>
#include <array>
#include <cmath>
using namespace exseis::utils::number_encoding;
int main()
{
    int bad = 0;
    for (unsigned e = 0x5e; e < 0x64; e++)
        for (unsigned f = 0x080000; f < 0x1000000; f += 0x12345) {
            std::array<unsigned char, 4> b = {{(unsigned char)e, (unsigned char)(f >> 16), (unsigned char)(f >> 8), (unsigned char)f}};
            const double w = std::ldexp((double)f, 4 * ((int)e - 64) - 24);
            const float x = from_IBM_to_float(b, true);
            if (w < std::ldexp(1., 128) ? x != (float)w : !(std::isinf(x) && x > 0)) bad = 1;
        }
    if (bad) fprintf(stderr, "another value\\n");
    return bad;
}
''',needs="an IBM number from 2^128 to 2^129",breaks="it becomes NaN instead of infinity")

seed("c26-reach","C26",[("util/4dcore.cc",
"        if ((xsmin[i] - dsrmax <= xslmax) && (xsmax[i] + dsrmax >= xslmin)) {",
"        if (xsmin[i] <= xslmax + dsrmax && xsmax[i] >= xslmin) {")],
HEAD+'''
static void survey(std::shared_ptr<ExSeis> piol, const char* name, const std::vector<double>& x)
{
    const size_t nt = (piol->comm->getRank() == 0 ? x.size() : 0);
    WriteDirect f(piol, name);
    f.writeText("in"); f.writeNs(1); f.writeInc(0.001); f.writeNt(x.size());
    std::vector<float> t(nt, 1);
    Param p(nt);
    for (size_t i = 0; i < nt; i++) {
        t[i] = i;
        for (Meta m : {PIOL_META_xSrc, PIOL_META_xRcv}) param_utils::setPrm(i, m, double(x[i]), &p);
        for (Meta m : {PIOL_META_ySrc, PIOL_META_yRcv}) param_utils::setPrm(i, m, 0., &p);
    }
    f.writeTrace(0, nt, t.data(), &p);
}
int main(int argc, char** argv)
{
    auto piol = ExSeis::New();
    if (argc > 1) {
        ReadDirect r(piol, "c.segy");
        CHECK(r.readNt() == 6);
        return finish();
    }
    // the last of the first process' traces in b is near the first of the second's in a
    survey(piol, "a.segy", {0, 10, 40, 42, 60, 80});
    survey(piol, "b.segy", {1, 11, 41, 62, 64, 81});
    return finish();
}
''',P=2,needs="a trace whose only match is on another process, further left than all the process' own traces",breaks="it is left out",
sh=(UT%("-lfftw3f -lfftw3",60,2)) + '''[ $? = 0 ] || exit 1
timeout -k 5 60 mpirun --oversubscribe -np 2 /repo/_build/util/exseis-fourdbin -a a.segy -b b.segy -c c.segy -d d.segy -t 5 || exit 1
timeout -k 5 60 mpirun --oversubscribe -np 2 ./demo x
''')

seed("c27-same-size","C27",[("util/makerep.cc",
"    // If there is one rank this is pointless\n    if (numRank != 1) {",
"    // If there is one rank, or nothing changes, this is pointless\n    if (numRank != 1 && newdec.local_size != dec.local_size) {")],
None,P=3,needs="three processes and a file of several blocks: the middle process' part moves but keeps its size",breaks="the data of the repetitions is misplaced, or the exchange never ends",
sh='''#!/bin/bash
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 98
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 98
python3 - <<'P'
import random
random.seed(3)
open("in.bin", "wb").write(random.randbytes(6 * 2097152 + 700000))
P
timeout -k 5 60 mpirun --oversubscribe -np 3 /repo/_build/util/exseis-makerep -i in.bin -o out.bin -r 3 || exit 1
python3 - <<'P'
a = open("in.bin", "rb").read()
raise SystemExit(open("out.bin", "rb").read() != a + a[3600:] + a[3600:])
P
''')

seed("c28-order","C28",[("src/temporalfilter.cc",
"""              std::max(
                filterOrder(corner[0] / fs, corner[1] / fs),
                filterOrder(corner[3] / fs, corner[2] / fs)));""",
"""              std::min(
                filterOrder(corner[0] / fs, corner[1] / fs),
                filterOrder(corner[3] / fs, corner[2] / fs)));""")],
'''#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include <cstdio>
#include <cmath>
#include <vector>
using namespace exseis::PIOL;
int main()
{
    const size_t ns = 64;
    std::vector<float> a(ns), b(ns);
    a[20] = b[20] = 1;
    const float fs = 120;
    // the lower side is steeper than the upper
    std::vector<float> c = {10, 12, 30, 50};
    const size_t lo = filterOrder(c[0] / fs, c[1] / fs), hi = filterOrder(c[3] / fs, c[2] / fs);
    if (lo == hi) return 2;
    temporalFilter(1, ns, a.data(), fs, FltrType::Bandstop, FltrDmn::Time, PadType::Zero, 0, 0, c);
    temporalFilter(1, ns, b.data(), fs, FltrType::Bandstop, FltrDmn::Time, PadType::Zero, 0, 0, {10, 50}, lo > hi ? lo : hi);
    int bad = 0;
    for (size_t i = 0; i < ns; i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) bad = 1;
    if (bad) fprintf(stderr, "another order\\n");
    return bad;
}
''',needs="a band whose sides are of different steepness",breaks="the order of the filter is that of the gentler side, so it does not meet the steeper one")
