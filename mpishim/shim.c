/* Interposed between walky and MPI (LD_PRELOAD). Per rank it
 *   - redirects standard output to a file, so that every process' result can be judged,
 *   - logs every message and collective,
 *   - delays them by a profile, and
 *   - lets a receive from any source take a randomly chosen waiting source,
 * all of which the MPI standard allows. Configured by WALKY_SHIM=<dir>:<seed>:<profile>.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <mpi.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static uint64_t s;
static int rank = -1, profile = 0, on = 0, world = 1;
static FILE *lg;
static long delayed;

static uint64_t rnd(void) {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void nap(long us) {
    if (us <= 0 || delayed > 1500000) return;
    delayed += us;
    struct timespec t = {us / 1000000, (us % 1000000) * 1000};
    nanosleep(&t, 0);
}

/* 0 none, 1 random, 2 one slow worker, 3 slow root, 4 all but one worker slow, 5 bursts */
static void delay(void) {
    if (!on) return;
    switch (profile) {
    case 0: break;
    case 1: if (rnd() % 3 == 0) nap(rnd() % 3000); break;
    case 2: if (rank == (int)((unsigned)(s >> 60) % (unsigned)world) || rank == world - 1) nap(500 + rnd() % 6000); break;
    case 3: if (rank == 0) nap(rnd() % 4000); break;
    case 4: if (rank != 1) nap(rnd() % 5000); break;
    default: if (rnd() % 16 == 0) nap(rnd() % 30000); break;
    }
}

static void note(const char *op, int a, int b) {
    if (lg) fprintf(lg, "%s %d %d\n", op, a, b);
}

__attribute__((constructor)) static void start(void) {
    const char *e = getenv("WALKY_SHIM"), *r = getenv("OMPI_COMM_WORLD_RANK"), *w = getenv("OMPI_COMM_WORLD_SIZE");
    if (!e || !r) return;
    char dir[512];
    unsigned long long seed = 0;
    if (sscanf(e, "%511[^:]:%llu:%d", dir, &seed, &profile) != 3) return;
    rank = atoi(r);
    world = w ? atoi(w) : 1;
    s = seed ^ (0x1234567ull * (uint64_t)(rank + 1));
    rnd();
    on = 1;
    char p[640];
    snprintf(p, sizeof p, "%s/out.%d", dir, rank);
    int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
    snprintf(p, sizeof p, "%s/log.%d", dir, rank);
    lg = fopen(p, "we");
}

/* a waiting source in random order, MPI_ANY_SOURCE if none shows up soon */
static int choose(int source, int tag, MPI_Comm c) {
    if (!on || source != MPI_ANY_SOURCE || profile == 0) return source;
    int waited = 0;
    for (;;) {
        int k = (int)(rnd() % (unsigned)world), i;
        for (i = 0; i < world; i++) {
            int f = 0;
            MPI_Status st;
            if (PMPI_Iprobe((k + i) % world, tag, c, &f, &st) != MPI_SUCCESS) return source;
            if (f) return (k + i) % world;
        }
        if (waited++ > 3) return source;
        nap(200);
    }
}

int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    delay();
    note("send", d, tag);
    return PMPI_Send(b, n, t, d, tag, c);
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
    MPI_Status own;
    delay();
    if (st == MPI_STATUS_IGNORE) st = &own;
    int r = PMPI_Recv(b, n, t, choose(src, tag, c), tag, c, st);
    note("recv", st->MPI_SOURCE, st->MPI_TAG);
    return r;
}
int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message *m, MPI_Status *st) {
    MPI_Status own;
    delay();
    if (st == MPI_STATUS_IGNORE) st = &own;
    int r = PMPI_Mprobe(choose(src, tag, c), tag, c, m, st);
    note("recv", st->MPI_SOURCE, st->MPI_TAG);
    return r;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    delay();
    note("bcast", root, n);
    return PMPI_Bcast(b, n, t, root, c);
}
int MPI_Barrier(MPI_Comm c) {
    delay();
    note("barrier", 0, 0);
    return PMPI_Barrier(c);
}
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
    delay();
    note("reduce", root, n);
    return PMPI_Reduce(a, b, n, t, o, root, c);
}
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    delay();
    note("allreduce", 0, n);
    return PMPI_Allreduce(a, b, n, t, o, c);
}
int MPI_Finalize(void) {
    delay();
    note("finalize", 0, 0);
    if (lg) fflush(lg);
    return PMPI_Finalize();
}
__attribute__((destructor)) static void stop(void) {
    if (lg) fclose(lg);
}
