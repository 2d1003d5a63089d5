/* Random pauses before the messages of an MPI tool (VF_DELAY: seed; unset: none), and writes that fail
 * once it has started: no file may grow beyond VF_FSIZE bytes, on rank VF_FSIZE_RANK (unset: on all). */
#include <mpi.h>
#include <signal.h>
#include <sys/resource.h>
#include <stdlib.h>
#include <unistd.h>

static void pause_(void)
{
    static unsigned s;
    const char * e = getenv("VF_DELAY");
    if(!e) return;
    if(!s) {
        int r;
        PMPI_Comm_rank(MPI_COMM_WORLD, &r);
        s = atoi(e) * 7919u + r * 104729u + 1;
    }
    s = s * 1103515245u + 12345u;
    if((s >> 16) % 3 == 0) usleep((s >> 18) % 2000);
}
int MPI_Send(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { pause_(); return PMPI_Send(b, n, t, d, tag, c); }
int MPI_Recv(void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status * s) { pause_(); return PMPI_Recv(b, n, t, d, tag, c, s); }
int MPI_Init(int * argc, char *** argv)
{
    int rt = PMPI_Init(argc, argv), r;
    const char * e = getenv("VF_FSIZE"), * k = getenv("VF_FSIZE_RANK");
    PMPI_Comm_rank(MPI_COMM_WORLD, &r);
    if(e && (!k || atoi(k) == r)) {
        struct rlimit l = {atol(e), atol(e)};
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &l);
    }
    return rt;
}
