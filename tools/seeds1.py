import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed
HEAD='''#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include <sys/stat.h>
#include <mpi.h>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
using namespace exseis::PIOL;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; fprintf(stderr, "line %d: %s\\n", __LINE__, #c); } } while (0)
static long fsize(const char* n) { struct stat s; return stat(n, &s) ? -1 : long(s.st_size); }
static int finish(void) { int r = 0; MPI_Allreduce(&bad, &r, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); return r; }
'''
seed("c01-location-narrow","C01",[("src/utils/decomposition/block_decomposition.cc",
"        const size_t offset_rank = offset_global_index / chunk_size;",
"        const size_t offset_rank =\n          static_cast<int>(offset_global_index / chunk_size);"),
("src/utils/decomposition/block_decomposition.cc",
"        const size_t offset_global_index =\n          global_index - (chunk_size + 1) * remainder;",
"        const unsigned int offset_global_index =\n          global_index - (chunk_size + 1) * remainder;")],
'''#include "ExSeisDat/utils/decomposition/block_decomposition.h"
#include <cstdio>
using namespace exseis::utils;
int main()
{
    const size_t N[] = {10, 1000001, 3000000000LU, 9000000007LU, 1LU << 40};
    for (size_t n : N)
        for (size_t p = 1; p < 9; p++)
            for (size_t r = 0; r < p; r++) {
                auto d = block_decomposition(n, p, r);
                const size_t ls[] = {0, d.local_size / 2, d.local_size - 1};
                for (size_t l : ls) {
                    auto a = block_decomposition_location(n, p, d.global_offset + l);
                    if (a.rank != r || a.local_index != l) { fprintf(stderr, "n %zu p %zu r %zu\\n", n, p, r); return 1; }
                }
            }
    return 0;
}
''',needs="an item index beyond 2^32 on the later ranks of an uneven division",breaks="the location of an item disagrees with the ranges")

seed("c02-writev-chunk","C02",[("src/DataMPIIO.cc",
"        writev(off, bsz, osz, size_t(numb), static_cast<unsigned char*>(d));\n        return MPI_SUCCESS;",
"        // Blocks which follow each other directly need no view\n        if (osz - bsz < sizeof(float)) {\n            write(size_t(off), size_t(numb) * osz, static_cast<unsigned char*>(d));\n        }\n        else {\n            writev(off, bsz, osz, size_t(numb), static_cast<unsigned char*>(d));\n        }\n        return MPI_SUCCESS;")],
'''#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include <cstdio>
#include <vector>
#include <string>
using namespace exseis::PIOL;
int main()
{
    auto piol = ExSeis::New();
    std::vector<unsigned char> a(64, 'x'), b(12 + 64, 'y');
    {
        DataMPIIO f(piol, "demo.dat", FileMode::ReadWrite);
        f.write(0, 64, a.data());
        for (int i = 0; i < 12; i++) b[i] = 'a' + i;
        f.write(5, 3, 5, 4, b.data());   // 4 blocks of 3 bytes, 5 bytes apart
        std::vector<unsigned char> c(64);
        f.read(0, 64, c.data());
        std::string want(64, 'x');
        for (int k = 0; k < 4; k++) for (int i = 0; i < 3; i++) want[5 + 5 * k + i] = 'a' + 3 * k + i;
        if (std::string(c.begin(), c.end()) != want) { fprintf(stderr, "%s\\n%s\\n", std::string(c.begin(), c.end()).c_str(), want.c_str()); return 1; }
    }
    return 0;
}
''',needs="a strided write whose gaps are one to three bytes wide",breaks="bytes between the blocks are overwritten and the blocks misplaced")

seed("c05-list-write-shrinks","C05",[("src/WriteSEGY.cc",
"        nt = std::max(offset[sz - 1LU] + 1LU, nt);",
"        nt = std::max(offset[sz - 1LU] + 1LU, sz);")],
HEAD+'''
int main()
{
    auto piol = ExSeis::New();
    int rank = piol->comm->getRank();
    {
        WriteDirect f(piol, "demo.segy");
        f.writeText("demo"); f.writeNs(3); f.writeInc(0.001); f.writeNt(9);
        std::vector<float> t(6, 1.0f + rank);
        size_t off[2] = {size_t(rank) * 2, size_t(rank) * 2 + 1};
        f.writeTraceNonContiguous(2, off, t.data(), PIOL_PARAM_NULL);
    }
    piol->comm->barrier();
    CHECK(fsize("demo.segy") == 3600 + 9 * (240 + 12));
    return finish();
}
''',P=2,needs="traces written to a list of positions all below the declared number of traces",breaks="the closed file holds fewer traces than declared")

seed("c07-unordered-headers","C07",[("src/ReadSEGY.cc",
"""    if (prm != PIOL_PARAM_NULL) {
        for (size_t n = 0, j = 0; j < sz; ++j) {
            if (j != 0 && offset[idx[j - 1]] != offset[idx[j]]) {
                n++;
            }

            param_utils""",
"""    if (prm != PIOL_PARAM_NULL) {
        for (size_t n = 0, j = 0; j < sz; ++j) {
            if (j != 0 && offset[idx[j - 1]] < offset[idx[j]]
                && n < sz - nodups.size()) {
                n++;
            }
            else if (nodups.size() == sz) {
                n = j;
            }

            param_utils""")],
HEAD+'''
int main()
{
    auto piol = ExSeis::New();
    int rank = piol->comm->getRank();
    auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl});
    const size_t NT = 8;
    {
        WriteDirect f(piol, "demo.segy");
        f.writeText("demo"); f.writeNs(2); f.writeInc(0.001); f.writeNt(NT);
        std::vector<float> t(2 * NT, 1.0f);
        Param p(rule, NT);
        for (size_t i = 0; i < NT; i++) {
            param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(100 + i), &p);
            param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(200 + i), &p);
        }
        if (rank == 0) f.writeTrace(0, NT, t.data(), &p); else f.writeTrace(0, 0, t.data(), &p);
    }
    piol->comm->barrier();
    ReadDirect f(piol, "demo.segy");
    std::vector<std::vector<size_t>> lists = {{5, 2, 7}, {3, 3, 1, 6, 0}, {1, 4, 4, 4, 2, 7, 5}, {6}, {}};
    for (auto& l : lists) {
        Param p(rule, l.size());
        std::vector<float> t(2 * l.size() + 1);
        f.readTraceNonMonotonic(l.size(), l.data(), t.data(), &p);
        for (size_t i = 0; i < l.size(); i++) {
            CHECK(param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &p) == exseis::utils::Integer(100 + l[i]));
            CHECK(param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, &p) == exseis::utils::Integer(200 + l[i]));
        }
    }
    return finish();
}
''',P=2,needs="an unordered list with more distinct positions after the first than repeats, and at least one repeat",breaks="headers of other traces are delivered for the later entries of a list with repeats")
