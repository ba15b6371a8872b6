// C29: one whole program.  Its steps are the letters of argv[2]; what happened is appended to
// argv[1].<process>: a line per step, and a line per start or end of MPI, with who asked for it.
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/PIOL/CommunicatorMPI.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <list>
#include <mpi.h>
#include <string>
#include <unistd.h>
using namespace exseis::PIOL;

static int fd = -1;
static bool mine = false;  // the program itself is calling
static void say(const std::string& s)
{
    if (write(fd, s.data(), s.size()) < 0) _exit(99);
}
extern "C" {
int MPI_Init(int* c, char*** v)
{
    say(mine ? "p init\n" : "l init\n");
    return PMPI_Init(c, v);
}
int MPI_Init_thread(int* c, char*** v, int r, int* p)
{
    say(mine ? "p init\n" : "l init\n");
    return PMPI_Init_thread(c, v, r, p);
}
int MPI_Finalize(void)
{
    say(mine ? "p fin\n" : "l fin\n");
    return PMPI_Finalize();
}
}

// what is left when everything else is over
static void last(void)
{
    int a = 0, b = 0;
    PMPI_Initialized(&a);
    PMPI_Finalized(&b);
    say("end " + std::to_string(a) + std::to_string(b) + "\n");
}

int main(int argc, char** argv)
{
    // registered first, so it runs last
    std::atexit(last);
    const char* r = getenv("OMPI_COMM_WORLD_RANK");
    std::string rank = r ? r : "0";
    fd = open((std::string(argv[1]) + "." + rank).c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    std::list<std::shared_ptr<ExSeis>> cc;
    std::list<PIOL_ExSeis*> c;
    int k = 0;
    for (const char* p = argv[2]; *p; p++, k++) {
        int ok = 1;
        switch (*p) {
            case 'I': mine = true; MPI_Init(&argc, &argv); mine = false; break;
            case 'F': mine = true; MPI_Finalize(); mine = false; break;
            case 'T': manageMPI(true); break;
            case 'M': manageMPI(false); break;
            case 'N': cc.push_back(ExSeis::New()); break;
            case 'C': c.push_back(PIOL_ExSeis_new(PIOL_VERBOSITY_NONE)); break;
            case 'D':
                if (!cc.empty()) cc.pop_front();
                else if (!c.empty()) { PIOL_ExSeis_delete(c.front()); c.pop_front(); }
                break;
            case 'W': {
                // some use of an instance
                std::string f = std::string(argv[1]) + ".out" + std::to_string(k);
                if (!cc.empty()) {
                    auto piol = cc.back();
                    piol->barrier();
                    {
                        WriteDirect w(piol, f);
                        w.writeNs(3);
                        w.writeInc(0.004);
                        w.writeNt(2);
                    }
                    ReadDirect rd(piol, f);
                    ok = rd.readNt() == 2 && rd.readNs() == 3 && !piol->log->isErr();
                }
                else if (!c.empty()) {
                    PIOL_ExSeis_barrier(c.back());
                    ok = PIOL_ExSeis_max(c.back(), 5) == 5;
                }
                break;
            }
            case 'X': say("x\n"); std::exit(0);
            case 'R': say("x\n"); return 0;
        }
        int a = 0, b = 0;
        PMPI_Initialized(&a);
        PMPI_Finalized(&b);
        say(std::string("s ") + *p + " " + std::to_string(a) + std::to_string(b) + std::to_string(ok) + "\n");
    }
    return 0;
}
