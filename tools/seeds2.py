import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed
from seeds1 import HEAD

seed("c08-scale-carried","C08",[("src/segy_utils.cc",
"""    for (size_t i = 0; i < sz; i++) {
        unsigned char* md = &buf[(r->extent() + stride) * i];

// Compiler defects
#if defined(__INTEL_COMPILER) || __GNUC__ < 6
        std::unordered_map<Tr, int16_t, EnumHash> scal;
#else
        std::unordered_map<Tr, int16_t> scal;
#endif

        std::vector<const SEGYFloatRuleEntry*> rule;
""",
"""    std::unordered_map<Tr, int16_t> scal;

    for (size_t i = 0; i < sz; i++) {
        unsigned char* md = &buf[(r->extent() + stride) * i];

        std::vector<const SEGYFloatRuleEntry*> rule;
""")],
HEAD+'''
#include "ExSeisDat/PIOL/segy_utils.hh"
int main()
{
    auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv});
    const double v[3][4] = {{10.5, 20.25, 30, 40}, {4e10, 2e10, 30, 0}, {-7.5, 1.75, 2.5, 12.5}};
    const Meta m[4] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv};
    Param a(rule, 3), b(rule, 3);
    for (int t = 0; t < 3; t++)
        for (int i = 0; i < 4; i++) param_utils::setPrm(t, m[i], v[t][i], &a);
    std::vector<unsigned char> buf(240 * 3);
    SEGY_utils::insertParam(3, &a, buf.data(), 240 - rule->extent(), 0);
    SEGY_utils::extractParam(3, buf.data(), &b, 240 - rule->extent(), 0);
    for (int t = 0; t < 3; t += 2)
        for (int i = 0; i < 4; i++) CHECK(param_utils::getPrm<double>(t, m[i], &b) == v[t][i]);
    return bad;
}
''',needs="several headers in one call, a coordinate with decimals after one too large for them",breaks="the decimals are lost")

PS='''
static const SortType kinds[] = {PIOL_SORTTYPE_SrcRcv, PIOL_SORTTYPE_SrcOff, PIOL_SORTTYPE_RcvOff, PIOL_SORTTYPE_LineOff, PIOL_SORTTYPE_OffLine};
'''
seed("c10-short-half","C10",[("src/sort.cc",
"""          rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,
          comm, &rrcv[2]);""",
"""          rprm.s.data(), rprm.s.size() * sizeof(*rprm.s.data()) / 2U + 1U,
          MPI_CHAR, rank - 1, 0, comm, &rrcv[2]);"""),
("src/sort.cc",
"""          sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,
          comm, &rsnd[2]);""",
"""          sprm.s.data(), sprm.s.size() * sizeof(*sprm.s.data()) / 2U + 1U,
          MPI_CHAR, rank + 1, 0, comm, &rsnd[2]);""")],
HEAD+'''
#include "ExSeisDat/PIOL/operations/sort.hh"
int main()
{
    auto piol = ExSeis::New();
    const size_t rank = piol->comm->getRank(), P = piol->comm->getNumRank();
    auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_Tic, PIOL_META_VStack});
    const size_t n = 16;
    Param p(rule, n);
    for (size_t i = 0; i < n; i++) {
        const long k = long(P * n - (rank * n + i));
        param_utils::setPrm(i, PIOL_META_gtn, rank * n + i, &p);
        param_utils::setPrm(i, PIOL_META_ltn, rank * n + i, &p);
        param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(k), &p);
        param_utils::setPrm(i, PIOL_META_Tic, int16_t(100 + k), &p);
        param_utils::setPrm(i, PIOL_META_VStack, int16_t(200 + k), &p);
    }
    sort(piol.get(), &p, [](const Param* q, size_t a, size_t b) {
        return param_utils::getPrm<exseis::utils::Integer>(a, PIOL_META_il, q) < param_utils::getPrm<exseis::utils::Integer>(b, PIOL_META_il, q); }, false);
    for (size_t i = 0; i < n; i++) {
        const long k = long(rank * n + i + 1);
        CHECK(param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &p) == k);
        CHECK(param_utils::getPrm<int16_t>(i, PIOL_META_Tic, &p) == int16_t(100 + k));
        CHECK(param_utils::getPrm<int16_t>(i, PIOL_META_VStack, &p) == int16_t(200 + k));
    }
    return finish();
}
''',P=2,needs="a rule with 16-bit quantities and entries that move between processes several at a time",breaks="the 16-bit quantities of some entries are replaced")

seed("c11-offset-single","C11",[("src/sort.cc",
"""    auto off1 =
      (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
                 param_utils::getPrm<exseis::utils::Integer>(
                 i, PIOL_META_Offset, prm));
""",
"""    const exseis::utils::Trace_value off1 =
      (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
                 param_utils::getPrm<exseis::utils::Integer>(
                 i, PIOL_META_Offset, prm));
"""),
("src/sort.cc",
"""    auto off2 =
      (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
                 param_utils::getPrm<exseis::utils::Integer>(
                 j, PIOL_META_Offset, prm));
""",
"""    const exseis::utils::Trace_value off2 =
      (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
                 param_utils::getPrm<exseis::utils::Integer>(
                 j, PIOL_META_Offset, prm));
""")],
HEAD+'''
#include "ExSeisDat/PIOL/operations/sort.hh"
int main()
{
    auto piol = ExSeis::New();
    Param p(6);
    // squared offsets 9000^2 and 9000^2 + 1: inline decides only if they are equal
    const double y[6] = {1, 0, 1, 0, 1, 0};
    for (size_t i = 0; i < 6; i++) {
        param_utils::setPrm(i, PIOL_META_gtn, i, &p);
        param_utils::setPrm(i, PIOL_META_ltn, i, &p);
        param_utils::setPrm(i, PIOL_META_xSrc, 0.0, &p);
        param_utils::setPrm(i, PIOL_META_ySrc, 0.0, &p);
        param_utils::setPrm(i, PIOL_META_xRcv, 9000.0, &p);
        param_utils::setPrm(i, PIOL_META_yRcv, y[i], &p);
        param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(i), &p);
        param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(0), &p);
    }
    auto l = sort(piol.get(), PIOL_SORTTYPE_OffLine, &p);
    const size_t want[6] = {3, 0, 4, 1, 5, 2};
    for (size_t i = 0; i < 6; i++) CHECK(l[i] == want[i]);
    return bad;
}
''',needs="offsets of several kilometres which differ by well under a metre",breaks="offset-line order treats different offsets as equal")

seed("c12-first-empty","C12",[("include/ExSeisDat/PIOL/operations/minmax.h",
"    for (exseis::utils::Integer i = tsz.size() - 1U; i >= 0; i--) {",
"    for (exseis::utils::Integer i = tsz.size() - 1U; i > 0; i--) {")],
HEAD+'''
#include "ExSeisDat/PIOL/operations/minmax.h"
int main()
{
    auto piol = ExSeis::New();
    const size_t rank = piol->comm->getRank();
    struct XY { double x = 0, y = 0; };
    std::vector<XY> v;
    if (rank == 1) { v.resize(3); v[0].x = 5; v[0].y = 9; v[1].x = 7; v[1].y = 8; v[2].x = 6; v[2].y = 11; }
    CoordElem m[4];
    getMinMax<XY>(piol.get(), 0, v.size(), v.data(), [](const XY& a) { return a.x; }, [](const XY& a) { return a.y; }, m);
    CHECK(m[0].val == 5 && m[0].num == 0);
    CHECK(m[1].val == 7 && m[1].num == 1);
    CHECK(m[2].val == 8 && m[2].num == 1);
    CHECK(m[3].val == 11 && m[3].num == 2);
    return finish();
}
''',P=2,needs="process 0 has no traces while others do",breaks="an extremum is taken from the process without traces")

seed("c14-unit","C14",[("include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh",
"      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);",
"      local_size * sizeof(T), alignof(T), MPI_INFO_NULL, comm, &data, &win);"),
("include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh",
"""        MPI_Get(
          &val, T_size, MPI_BYTE, location.rank, location.local_index, T_size,
          MPI_BYTE, win);""",
"""        MPI_Get(
          &val, T_size, MPI_BYTE, location.rank,
          location.local_index * (T_size / alignof(T)), T_size, MPI_BYTE, win);""")],
HEAD+'''
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
using namespace exseis::utils;
struct E { long a, b, c; };
int main()
{
    auto piol = ExSeis::New();
    const size_t rank = piol->comm->getRank();
    const size_t n = 9;
    MPI_Distributed_vector<E> v(n, MPI_COMM_WORLD);
    if (rank == 0) for (size_t i = 0; i < n; i++) v.set(i, E{long(i), long(10 + i), long(100 + i)});
    piol->comm->barrier();
    for (size_t i = 0; i < n; i++) {
        const E e = v.get(i);
        CHECK(e.a == long(i) && e.b == long(10 + i) && e.c == long(100 + i));
    }
    piol->comm->barrier();
    return finish();
}
''',P=3,needs="elements larger than their alignment, stored from another process",breaks="stores overlap other elements of the target process")

SETH='''
#include "ExSeisDat/Flow/Set.hh"
using namespace exseis::Flow;
static void makein(std::shared_ptr<ExSeis> piol, const char* name, size_t nt, float base)
{
    const size_t rank = piol->comm->getRank();
    WriteDirect f(piol, name);
    f.writeText("in"); f.writeNs(2); f.writeInc(0.001); f.writeNt(nt);
    std::vector<float> t; 
    if (rank == 0) for (size_t i = 0; i < nt; i++) { t.push_back(base + i); t.push_back(-base - i); }
    Param p(rank == 0 ? nt : 0);
    for (size_t i = 0; i < p.size(); i++) { param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(base + i), &p); param_utils::setPrm(i, PIOL_META_xSrc, double(base + (i * 7) % nt), &p); }
    f.writeTrace(0, p.size(), t.data(), &p);
}
'''
seed("c15-second-file-place","C15",[("src/Flow/Set.cc",
"    off += f->ifc->readNt();",
"    off += dec.global_offset + dec.local_size;")],
HEAD+SETH+'''
int main()
{
    auto piol = ExSeis::New();
    makein(piol, "in1.segy", 7, 100); makein(piol, "in2.segy", 5, 200); makein(piol, "in3.segy", 6, 300);
    {
        auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xSrc});
        Set s(piol, "in*.segy", "out", rule);
    }
    ReadDirect r(piol, "out2_0.001000.segy");
    CHECK(r.readNt() == 18);
    std::vector<float> t(36);
    r.readTrace(0, 18, t.data());
    for (size_t i = 0; i < 18; i++) { const float w = (i < 7 ? 100 + i : i < 12 ? 200 + i - 7 : 300 + i - 12); CHECK(t[2 * i] == w && t[2 * i + 1] == -w); }
    return finish();
}
''',P=2,needs="several input files of the same shape on more than one process",breaks="traces of a later file overwrite those of an earlier one")

seed("c16-extra-calls","C16",[("src/Flow/Set.cc",
"""            size_t extra = biggest / max
                           + static_cast<size_t>(biggest % max > 0)
                           - (lnt / max + static_cast<size_t>(lnt % max > 0));""",
"""            // The calls the process with the most traces makes beyond ours
            size_t extra = (biggest - lnt + max - 1LU) / max
                           * static_cast<size_t>(biggest / max > lnt / max);""")],
HEAD+SETH+'''
int main()
{
    auto piol = ExSeis::New();
    makein(piol, "in1.segy", 2, 100); makein(piol, "in2.segy", 5, 200);
    {
        auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xSrc});
        Set s(piol, "in*.segy", "out", rule);
    }
    ReadDirect r(piol, "out2_0.001000.segy");
    CHECK(r.readNt() == 7);
    return finish();
}
''',P=3,needs="a file with fewer traces than processes",breaks="the processes without traces do not take part in the collective calls")

seed("c18-even-window","C18",[("src/utils/signal_processing/AGC.cc",
"    window_size = (window_size % 2 == 0 ? window_size + 1 : window_size);",
"    window_size = (window_size - 1) / 2 * 2 + 1;")],
HEAD+'''
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/Gain_function.h"
using namespace exseis::utils;
static std::vector<size_t> centre, size;
static Trace_value spy(const Trace_value* s, size_t n, Trace_value, size_t c) { (void)s; centre.push_back(c); size.push_back(n); return 1; }
int main()
{
    std::vector<float> x(20, 1.0f);
    AGC(20, x.data(), spy, 6, 1.0f);
    CHECK(centre.size() == 20);
    for (size_t j = 0; j < 20 && j < centre.size(); j++) {
        const size_t lo = j < 3 ? 0 : j - 3, hi = j + 3 > 19 ? 19 : j + 3;
        CHECK(size[j] == hi - lo + 1);
        CHECK(centre[j] == j - lo);
    }
    return bad;
}
''',needs="an even window",breaks="the windows are too small by two")

seed("c19-tiny-start","C19",[("src/utils/signal_processing/taper.cc",
"        const auto non_zero = [](auto v) { return v != 0; };",
"        const auto non_zero = [](auto v) { return v > 1e-6F || -v > 1e-6F; };")],
HEAD+'''
#include "ExSeisDat/utils/signal_processing/taper.h"
using namespace exseis::utils;
static Trace_value ramp(Trace_value i, Trace_value n) { return i / (2 * n); }
int main()
{
    std::vector<float> a = {0, 0, float(std::ldexp(1., -24)), float(std::ldexp(1., -22)), 16, 16, 16, 16, 16, 16}, b(a.begin() + 2, a.end());
    taper(10, a.data(), ramp, 4, 0);
    taper(8, b.data(), ramp, 4, 0);
    for (int i = 0; i < 8; i++) CHECK(a[2 + i] == b[i]);
    return bad;
}
''',needs="a muted start followed by very small samples",breaks="the ramp starts too late")

seed("c22-quiet-error","C22",[("src/Logger.cc",
"""    if (verbosity <= maxLevel) {
        loglist_.push_front({file, layer, stat, msg, verbosity});
    }

    if (stat == Logger::Status::Error) {
        error = true;
    }
""",
"""    if (verbosity > maxLevel) {
        return;
    }

    loglist_.push_front({file, layer, stat, msg, verbosity});

    if (stat == Logger::Status::Error) {
        error = true;
    }
""")],
HEAD+'''
#include "ExSeisDat/PIOL/Logger.hh"
int main()
{
    Logger l(PIOL_VERBOSITY_NONE);
    l.record("f", Logger::Layer::File, Logger::Status::Warning, "w", PIOL_VERBOSITY_NONE);
    CHECK(!l.isErr());
    l.record("f", Logger::Layer::File, Logger::Status::Error, "e", PIOL_VERBOSITY_MAX);
    CHECK(l.isErr());
    CHECK(l.numStat(Logger::Status::Error) == 0);
    return bad;
}
''',needs="an error recorded at a verbosity above the log's",breaks="the error state is not set")

seed("c23-info-unopened","C23",[("src/DataMPIIO.cc",
"""    if (file != MPI_FILE_NULL) {
        int err = MPI_File_close(&file);
        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              "MPI_File_close error: "s""",
"""    if (file == MPI_FILE_NULL) {
        // There was no file to close
        return;
    }
    {
        int err = MPI_File_close(&file);
        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              "MPI_File_close error: "s""")],
'''#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include <cstdio>
#include <string>
using namespace exseis::PIOL;
static long live = 0;
extern "C" int MPI_Info_create(MPI_Info* i) { live++; return PMPI_Info_create(i); }
extern "C" int MPI_Info_dup(MPI_Info a, MPI_Info* i) { live++; return PMPI_Info_dup(a, i); }
extern "C" int MPI_Info_free(MPI_Info* i) { live--; return PMPI_Info_free(i); }
int main()
{
    auto piol = ExSeis::New();
    for (int k = 0; k < 3; k++) {
        DataMPIIO f(piol, "does-not-exist.segy", FileMode::Read);
    }
    { DataMPIIO f(piol, "new.dat", FileMode::ReadWrite); }
    if (live != 0) fprintf(stderr, "%ld info objects left\\n", live);
    return live != 0;
}
''',needs="a file that could not be opened",breaks="the info object of the file is never freed")

seed("c24-gather-world","C24",[("src/gather.cc",
"      piol->comm->sum(sz), piol->comm->getComm());",
"      piol->comm->sum(sz), MPI_COMM_WORLD);")],
HEAD+'''
#include "ExSeisDat/PIOL/CommunicatorMPI.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include <unistd.h>
int main(int argc, char** argv)
{
    MPI_Init(&argc, &argv);
    int w; MPI_Comm_rank(MPI_COMM_WORLD, &w);
    MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, w < 2, w, &c);
    {
        auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, c);
        if (w < 2) {
            {
                WriteDirect f(piol, "g.segy");
                f.writeNs(1); f.writeInc(0.001); f.writeNt(6);
                Param p(3);
                for (size_t i = 0; i < 3; i++) { param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer((w * 3 + i) / 2), &p); param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(1), &p); }
                f.writeParam(w * 3, 3, &p);
            }
            auto r = makeFile<ReadSEGY>(piol, "g.segy");
            auto g = getIlXlGathers(piol.get(), r.get());
            CHECK(g.size() == 3);
            for (size_t i = 0; i < 3; i++) CHECK(g[i].num_traces == 2 && g[i].inline_ == long(i));
            piol->comm->barrier();
        }
    }
    const int r = finish();
    MPI_Finalize();
    return r;
}
''',P=4,needs="a library instance on part of the processes detects gathers",breaks="it waits for the processes outside its communicator",timeout=30)

seed("c06-copy-skip","C06",[("src/segy_utils.cc",
"""            std::copy(
              &prm->c[skip * SEGY_utils::getMDSz()],
              &prm->c[(skip + sz) * SEGY_utils::getMDSz()], buf);""",
"""            std::copy_n(prm->c.begin(), sz * SEGY_utils::getMDSz(), buf);""")],
HEAD+'''#include "ExSeisDat/PIOL/WriteSEGY.hh"
int main()
{
    auto piol = ExSeis::New();
    auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY});
    {
        WriteDirect f(piol, "a.segy");
        f.writeNs(1); f.writeInc(0.001); f.writeNt(4);
        Param p(4);
        for (size_t i = 0; i < 4; i++) param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(10 + i), &p);
        std::vector<float> t(4);
        f.writeTrace(0, 4, t.data(), &p);
    }
    {
        Param p(rule, 4);
        ReadDirect r(piol, "a.segy");
        r.readParam(0, 4, &p);
        auto f = makeFile<WriteSEGY>(piol, "b.segy");
        f->writeNs(1); f->writeInc(0.001); f->writeNt(4);
        f->writeParam(0, 2, &p, 2);
        f->writeParam(2, 2, &p, 0);
    }
    ReadDirect r(piol, "b.segy");
    Param p(4);
    r.readParam(0, 4, &p);
    const long want[4] = {12, 13, 10, 11};
    for (size_t i = 0; i < 4; i++) CHECK(param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &p) == want[i]);
    return bad;
}
''',needs="complete headers written without traces from an entry of the parameters other than the first",breaks="the headers of the wrong traces are written")

seed("c04-empty-call-error","C04",[("src/DataMPIIO.cc",
"""        int err =
          fn(file, 0, NULL, 0, exseis::utils::MPI_type<unsigned char>(), &stat);

        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              msg + exseis::utils::MPI_error_to_string(err, &stat),
              PIOL_VERBOSITY_NONE);
        }
""",
"""        // Nothing is transferred
        fn(file, 0, NULL, 0, exseis::utils::MPI_type<unsigned char>(), &stat);
""")],
HEAD+'''
#include "ExSeisDat/PIOL/DataMPIIO.hh"
static int armed = 0;
extern "C" int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s)
{ const int e = PMPI_File_read_at_all(f, o, b, n, t, s); return armed ? MPI_ERR_IO : e; }
extern "C" int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s)
{ const int e = PMPI_File_read_at(f, o, b, n, t, s); return armed ? MPI_ERR_IO : e; }
int main()
{
    auto piol = ExSeis::New();
    const int rank = piol->comm->getRank();
    {
        DataMPIIO f(piol, "d.dat", FileMode::ReadWrite);
        std::vector<unsigned char> v(64);
        f.write(0, rank == 0 ? 64 : 0, v.data());
        CHECK(!piol->log->isErr());
        armed = (rank == 1);
        f.read(0, rank == 0 ? 64 : 0, v.data());
        armed = 0;
        CHECK(piol->log->isErr() == (rank == 1));
    }
    return finish();
}
''',P=2,needs="a read fails on a process which itself reads nothing",breaks="the failure is not recorded")

seed("c09-readd-place","C09",[("src/Rule.cc",
"""    auto ent = translate.find(m);
    if (ent != translate.end()) {
        rmRule(m);
    }

    translate[m] = new SEGYShortRuleEntry(numShort++, loc);

    flag.badextent = (!flag.fullextent);""",
"""    auto ent = translate.find(m);
    if (
      ent != translate.end()
      && ent->second->type() == RuleEntry::MdType::Short) {
        // Keep the slot, only the place changes
        const size_t num = ent->second->num;
        delete ent->second;
        ent->second = new SEGYShortRuleEntry(num, loc);
        return;
    }
    if (ent != translate.end()) {
        rmRule(m);
    }

    translate[m] = new SEGYShortRuleEntry(numShort++, loc);

    flag.badextent = (!flag.fullextent);""")],
HEAD+'''
int main()
{
    Rule r(std::vector<Meta>{PIOL_META_Tic, PIOL_META_il}, false, false, false);
    (void)r.extent();
    r.addShort(PIOL_META_Tic, PIOL_TR_ValMeas);
    const size_t e = r.extent();
    size_t lo = 1000, hi = 0;
    for (auto& t : r.translate) {
        if (t.second->type() == RuleEntry::MdType::Index) continue;
        lo = std::min(lo, t.second->min()); hi = std::max(hi, t.second->max());
    }
    CHECK(e == hi - lo);
    CHECK(r.start == lo && r.end == hi);
    return bad;
}
''',needs="a rule without full extent, whose extent was used, gets a 16-bit quantity it has at another place",breaks="the extent no longer covers the quantities")

seed("c13-line-narrow","C13",[("src/gather.cc",
"""        exseis::utils::Integer xl =
          param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, prm);""",
"""        exseis::utils::Integer xl = static_cast<int>(
          param_utils::getPrm<exseis::utils::Floating_point>(
            i, PIOL_META_xl, prm)
          + 0.5);""")],
HEAD+'''
#include "ExSeisDat/PIOL/operations/gather.hh"
int main()
{
    auto piol = ExSeis::New();
    {
        WriteDirect f(piol, "g.segy");
        f.writeNs(1); f.writeInc(0.001); f.writeNt(6);
        Param p(6);
        const long xl[6] = {-3, -3, -2, -1, -1, 0};
        for (size_t i = 0; i < 6; i++) { param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(1), &p); param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(xl[i]), &p); }
        f.writeParam(0, 6, &p);
    }
    auto r = makeFile<ReadSEGY>(piol, "g.segy");
    auto g = getIlXlGathers(piol.get(), r.get());
    CHECK(g.size() == 4);
    if (g.size() == 4) { CHECK(g[0].crossline == -3 && g[1].crossline == -2 && g[2].crossline == -1 && g[3].crossline == 0); CHECK(g[0].num_traces == 2); }
    return bad;
}
''',needs="negative crossline numbers",breaks="crosslines are reported one too high and gathers -1 and 0 are joined")

seed("c25-null-params","C25",[("src/PIOL_C_bindings.cc",
"""    if (param == NULL) {
        readDirect->readTraceNonMonotonic(sz, offset, trace);
    }""",
"""    if (param == NULL) {
        readDirect->readTraceNonContiguous(sz, offset, trace);
    }""")],
HEAD+'''
#include "ExSeisDat/PIOL.h"
int main()
{
    auto piol = ExSeis::New();
    {
        WriteDirect f(piol, "a.segy");
        f.writeNs(2); f.writeInc(0.001); f.writeNt(6);
        std::vector<float> t(12);
        for (int i = 0; i < 12; i++) t[i] = i;
        f.writeTrace(0, 6, t.data());
    }
    PIOL_ExSeis* c = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
    PIOL_File_ReadDirect* r = PIOL_File_ReadDirect_new(c, "a.segy");
    const size_t off[5] = {4, 0, 4, 2, 1};
    std::vector<float> t(10);
    PIOL_File_ReadDirect_readTraceNonMonotonic(r, 5, off, t.data(), NULL);
    for (int i = 0; i < 5; i++) CHECK(t[2 * i] == 2 * off[i] && t[2 * i + 1] == 2 * off[i] + 1);
    PIOL_File_ReadDirect_delete(r);
    PIOL_ExSeis_delete(c);
    return bad;
}
''',needs="the C call for an arbitrary list of traces, without parameters",breaks="repeated or descending positions are read wrongly")
