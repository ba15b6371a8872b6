import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed, SH
from seeds1 import HEAD
from seeds2 import SETH

seed("c29-asked-to-manage","C29",[("src/CommunicatorMPI.cc",
"        // Set managingMPI value if the user hasn't already\n        if (managingMPI() == ManagingMPI::unset) {",
"        // Set managingMPI value unless the user manages MPI\n        if (managingMPI() != ManagingMPI::no) {")],
'''
#include "ExSeisDat/PIOL/CommunicatorMPI.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
#include <cstdio>
#include <cstdlib>
#include <mpi.h>
#include <unistd.h>
using namespace exseis::PIOL;
static void last()
{
    int fin = 0;
    MPI_Finalized(&fin);
    if (!fin) { fprintf(stderr, "MPI is still running\\n"); _exit(1); }
}
int main(int argc, char** argv)
{
    std::atexit(last);      // runs after everything else
    MPI_Init(&argc, &argv);
    manageMPI(true);        // the library is to end it
    auto piol = ExSeis::New();
    piol->barrier();
    return 0;
}
''',P=2,needs="a program which starts MPI itself and then hands it to the library",breaks="MPI is not ended at exit")
