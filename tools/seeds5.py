import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed, SH
from seeds1 import HEAD
from seeds2 import SETH

seed("c02-far-stride","C02",[("src/DataMPIIO.cc",
"file, MPI_Offset(offset + osz * i), &d[bsz * i], chunk,",
"file, MPI_Offset(offset) + int(osz * i), &d[bsz * i], chunk,")],
'''
#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include <cstdio>
#include <vector>
using namespace exseis::PIOL;
int main()
{
    auto piol = ExSeis::New();
    const size_t step = 500UL * 1000 * 1000, n = 7;
    int bad = 0;
    {
        DataMPIIO f(piol, "demo.dat", FileMode::ReadWrite);
        std::vector<unsigned char> b(4 * n);
        for (size_t i = 0; i < b.size(); i++) b[i] = 'a' + i;
        f.write(10, 4, step, n, b.data());      // a sparse file of 3 GB
        for (size_t k = 0; k < n; k++) {
            unsigned char c[4] = {0, 0, 0, 0};
            f.read(10 + k * step, 4, c);
            for (size_t i = 0; i < 4; i++) if (c[i] != 'a' + 4 * k + i) bad = 1;
        }
    }
    if (bad) fprintf(stderr, "blocks are not where they were written\\n");
    return bad;
}
''',needs="a strided request whose last blocks are more than 2^31 bytes from its first",breaks="these blocks are written elsewhere or not at all")

seed("c06-far-samples","C06",[("include/ExSeisDat/PIOL/segy_utils.hh",
"    return getFileSz<T>(i, ns) + getMDSz();\n",
"    return getHOSz() + getMDSz() + uint32_t(i * getDOSz<T>(ns));\n")],
HEAD + '''
int main()
{
    auto piol = ExSeis::New();
    const size_t ns = 32000, at = 40000;        // sparse: at * 128240 bytes
    std::vector<float> t(ns), u(ns, 0.f);
    for (size_t i = 0; i < ns; i++) t[i] = float(i) - 7.f;
    Param p(1);
    {
        WriteDirect w(piol, "far.segy");
        w.writeNs(ns); w.writeInc(0.004); w.writeNt(at + 1);
        param_utils::setPrm(0, PIOL_META_il, exseis::utils::Integer(5), &p);
        w.writeParam(at, 1, &p);
        w.writeTrace(at, 1, t.data());          // samples only
    }
    {
        ReadDirect r(piol, "far.segy");
        CHECK(r.readNt() == at + 1);
        Param q(1);
        r.readTrace(at, 1, u.data(), &q);       // header and samples
        CHECK(u == t);
        CHECK(param_utils::getPrm<exseis::utils::Integer>(0, PIOL_META_il, &q) == 5);
    }
    return finish();
}
''',needs="samples written alone to a trace more than 4 GB into the file",breaks="they go to another place")

seed("c11-line-difference","C11",[("src/sort.cc",
"""        if (e1xl < e2xl) {
            return true;
        }
        else if (e1xl == e2xl) {
            auto e1sx""",
"""        if (int32_t(e1xl - e2xl) < 0) {
            return true;
        }
        else if (e1xl == e2xl) {
            auto e1sx""")],
HEAD + '''
#include "ExSeisDat/PIOL/operations/sort.hh"
int main()
{
    auto piol = ExSeis::New();
    Param p(4);
    const exseis::utils::Integer xl[4] = {2000000000, -2000000000, 5, 2000000000};
    for (size_t i = 0; i < 4; i++) {
        param_utils::setPrm(i, PIOL_META_gtn, i, &p);
        param_utils::setPrm(i, PIOL_META_ltn, i, &p);
        param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(1), &p);
        param_utils::setPrm(i, PIOL_META_xl, xl[i], &p);
    }
    auto less = getComp(PIOL_SORTTYPE_LineOff);
    CHECK(less(&p, 1, 0));
    CHECK(!less(&p, 0, 1));
    CHECK(less(&p, 1, 2));
    CHECK(less(&p, 2, 3));
    return finish();
}
''',needs="crosslines more than 2^31 apart",breaks="the larger one sorts first")
