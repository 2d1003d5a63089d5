// Case runner for several MPI ranks in lockstep: every rank generates the same case from the same
// seed; local observations are collected with local()/agree(), return codes with coll().
#pragma once
#define OMPI_SKIP_MPICXX 1
#include "model.h"
#include "track.h"
#include <mpi.h>
#include <sys/prctl.h>
#include <atomic>
extern "C" {
#include "bigfile-mpi.h"
#include "mp-mpiu.h"
}

static MPI_Comm WORLD; static int wrank, wsize;
static bool delays = false; static Rng drng; static long mpi_calls = 0, comm_balance = 0, type_balance = 0;
static void delay() { mpi_calls++; if(delays && drng.chance(1, 4)) usleep(drng.chance(1, 12) ? drng.below(3000) : drng.below(150)); }

// message timing: random delays before the communication of the code under test
struct Quiet { int k; Quiet() : k(track_in) { track_in = 0; } ~Quiet() { track_in = k; } }; // allocations of MPI itself
extern "C" {
int MPI_Barrier(MPI_Comm c) { delay(); Quiet q_; return PMPI_Barrier(c); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm c) { delay(); Quiet q_; return PMPI_Bcast(b, n, t, r, c); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { delay(); Quiet q_; return PMPI_Allreduce(s, r, n, t, o, c); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { delay(); Quiet q_; return PMPI_Reduce(s, r, n, t, o, root, c); }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm c) { delay(); Quiet q_; return PMPI_Allgather(s, n, t, r, m, u, c); }
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *k, const int *d, MPI_Datatype u, int root, MPI_Comm c) { delay(); Quiet q_; return PMPI_Gatherv(s, n, t, r, k, d, u, root, c); }
int MPI_Scatterv(const void *s, const int *k, const int *d, MPI_Datatype t, void *r, int n, MPI_Datatype u, int root, MPI_Comm c) { delay(); Quiet q_; return PMPI_Scatterv(s, k, d, t, r, n, u, root, c); }
int MPI_Alltoallv(const void *s, const int *k, const int *d, MPI_Datatype t, void *r, const int *l, const int *e, MPI_Datatype u, MPI_Comm c) { delay(); Quiet q_; return PMPI_Alltoallv(s, k, d, t, r, l, e, u, c); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { delay(); Quiet q_; return PMPI_Isend(b, n, t, d, tag, c, q); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { delay(); Quiet q_; return PMPI_Irecv(b, n, t, d, tag, c, q); }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm *o) { delay(); Quiet q_; int rt = PMPI_Comm_split(c, col, key, o); if(*o != MPI_COMM_NULL) comm_balance++; return rt; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { comm_balance++; Quiet q_; return PMPI_Comm_dup(c, o); }
int MPI_Comm_free(MPI_Comm *c) { comm_balance--; Quiet q_; return PMPI_Comm_free(c); }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { type_balance++; Quiet q_; return PMPI_Type_contiguous(n, t, o); }
int MPI_Type_commit(MPI_Datatype *t) { Quiet q_; return PMPI_Type_commit(t); }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, int root, MPI_Comm c) { delay(); Quiet q_; return PMPI_Gather(s, n, t, r, m, u, root, c); }
int MPI_Alltoall(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm c) { delay(); Quiet q_; return PMPI_Alltoall(s, n, t, r, m, u, c); }
int MPI_Type_free(MPI_Datatype *t) { type_balance--; Quiet q_; return PMPI_Type_free(t); }
}

static bool lf_has = false; static Fail lf;
static void soft(const Fail &f) { if(!lf_has) { lf_has = true; lf = f; } }
template<class F> static void local(F f) { try { f(); } catch(const Fail &e) { soft(Fail{e.key, fmt("rank %d: ", wrank) + e.msg}); } }
#define LCHECK(cond, key, ...) do { if(!(cond)) soft(Fail{key, fmt("rank %d: ", wrank) + fmt(__VA_ARGS__)}); } while(0)

// all ranks together: throws everywhere if any rank recorded a failure
static void agree() {
    int me = lf_has ? wrank : wsize, first; PMPI_Allreduce(&me, &first, 1, MPI_INT, MPI_MIN, WORLD);
    if(first == wsize) return;
    char buf[4096] = {0}; if(wrank == first) { string s = lf.key + "\n" + lf.msg; strncpy(buf, s.c_str(), sizeof buf - 1); }
    PMPI_Bcast(buf, sizeof buf, MPI_CHAR, first, WORLD); lf_has = false;
    string s = buf; size_t p = s.find('\n'); throw Fail{s.substr(0, p), s.substr(p + 1)};
}

// the communicator of a case: any subset of the ranks in any order
struct Grp {
    MPI_Comm comm; bool member; int rank, n; vector<int> world; // world rank of each rank
    Grp(Ctx &c, int least = 1) {
        vector<int> p(wsize); for(int i = 0; i < wsize; i++) p[i] = i;
        for(int i = wsize; i > 1; i--) if(c.r.chance(1, 2)) std::swap(p[i - 1], p[c.r.below(i)]);
        n = c.r.chance(1, 2) ? wsize : (int)c.r.range(std::min(least, wsize), wsize); world.assign(p.begin(), p.begin() + n);
        auto it = std::find(world.begin(), world.end(), wrank); member = it != world.end(); rank = member ? it - world.begin() : -1;
        PMPI_Comm_split(WORLD, member ? 0 : MPI_UNDEFINED, rank, &comm);
        delays = c.r.chance(1, 3); drng = Rng(c.r.u64() + wrank);
        c.note(fmt("%d ranks%s", n, delays ? " delayed" : ""));
    }
    ~Grp() { delays = false; if(comm != MPI_COMM_NULL) PMPI_Comm_free(&comm); }
};
// a collective call of the code under test; returns whether it failed, the same on all ranks of the world
static bool tracking = false; static string track_dir; static long calls_tracked = 0;
static void scratch_fds(const char *what) {
    for(auto &s : open_fds()) { char l[4096]; ssize_t n = readlink(("/proc/self/fd/" + s).c_str(), l, sizeof l - 1); if(n <= 0) continue; l[n] = 0; if(strstr(l, track_dir.c_str())) soft(Fail{"fd-leak", fmt("rank %d: descriptor %s of %s is open after %s", wrank, s.c_str(), l, what)}); }
}
template<class F> static bool coll(Grp &g, const char *what, F f) {
    int rt = 0; if(g.member) { if(tracking) { track_op++; rt = LIB(f()); scratch_fds(what); calls_tracked++; } else rt = f(); }
    int me = g.member ? (rt != 0) : 2; vector<int> all(wsize); PMPI_Allgather(&me, 1, MPI_INT, all.data(), 1, MPI_INT, WORLD);
    int ok = 0, bad = 0; string s; for(int v : all) { ok += v == 0; bad += v == 1; } for(int w : g.world) s += all[w] ? 'F' : '.';
    if(ok && bad) throw Fail{"ranks-disagree", fmt("%s failed on some ranks only: %s", what, s.c_str())};
    return bad > 0;
}
template<class F> static void must(Grp &g, const char *what, F f) {
    bool bad = coll(g, what, f); if(!bad) return;
    string m = g.member ? errmsg() : ""; char buf[600] = {0}; strncpy(buf, m.c_str(), 599); PMPI_Bcast(buf, 600, MPI_CHAR, g.world[0], WORLD);
    throw Fail{string(what) + "-failed", fmt("%s fails on all ranks without a cause: %s", what, buf)};
}
// rank 0 of the world looks at the files
template<class F> static void on_root(F f) { PMPI_Barrier(WORLD); if(wrank == 0) local(f); agree(); }

// rows of each rank
static vector<size_t> gen_split(Rng &r, size_t n, int k) {
    vector<size_t> v(k, 0);
    switch(r.below(6)) {
        case 0: for(int i = 0; i < k; i++) v[i] = n * (i + 1) / k - n * i / k; break;
        case 1: v[r.below(k)] = n; break;
        case 2: { size_t left = n; for(int i = 0; i < k - 1; i++) { v[i] = r.below(left + 1); left -= v[i]; } v[k - 1] = left; break; }
        case 3: { vector<int> who; for(int i = 0; i < k; i++) if(r.chance(1, 2)) who.push_back(i); if(who.empty()) who.push_back(r.below(k)); size_t left = n; for(size_t i = 0; i + 1 < who.size(); i++) { v[who[i]] = r.below(left + 1); left -= v[who[i]]; } v[who.back()] += left; break; }
        case 4: { size_t left = n; while(left) { size_t q = std::min(left, (size_t)r.range(1, 1 + n / k)); v[r.below(k)] += q; left -= q; } break; }
        default: { size_t left = n; for(int i = k - 1; i > 0; i--) { v[i] = r.chance(1, 2) ? 0 : std::min(left, (size_t)1); left -= v[i]; } v[0] = left; }
    }
    return v;
}

static int run_modes_mpi(int argc, char **argv, const vector<Mode> &modes) {
    pid_t parent = getppid(); prctl(PR_SET_PDEATHSIG, SIGKILL); if(getppid() != parent) return 98;
    signal(SIGPIPE, SIG_IGN);
    MPI_Init(&argc, &argv); PMPI_Comm_dup(MPI_COMM_WORLD, &WORLD); PMPI_Comm_rank(WORLD, &wrank); PMPI_Comm_size(WORLD, &wsize);
    MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_ARE_FATAL);
    map<string, string> a; for(int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    Ctx c; c.tier = atoi(a["--tier"].c_str());
    uint64_t seed = strtoull(a["--seed"].c_str(), NULL, 10), start = strtoull(a["--start"].c_str(), NULL, 10);
    uint64_t stride = strtoull(a["--stride"].c_str(), NULL, 10), cases = strtoull(a["--cases"].c_str(), NULL, 10);
    CaseFn fn = NULL; for(auto &m : modes) if(a["--mode"] == m.name) fn = m.fn;
    if(!fn || !stride || a["--dir"].empty()) { fprintf(stderr, "HARNESS: bad arguments\n"); return 98; }
    FILE *dist = NULL; static Progress dummy; c.prog = &dummy;
    if(wrank == 0) {
        int pf = open(a["--progress"].c_str(), O_RDWR | O_CREAT, 0600);
        if(pf < 0 || ftruncate(pf, sizeof(Progress))) { perror("progress"); return 98; }
        c.prog = (Progress *)mmap(NULL, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0); close(pf);
        dist = fopen(a["--dist"].c_str(), "ab");
    }
    int nviol = 0, nsample = 0; uint64_t done = 0;
    for(uint64_t i = start; i < cases; i += stride) {
        int over = i != start && wrank == 0 && late(); PMPI_Bcast(&over, 1, MPI_INT, 0, WORLD);
        if(over) { if(wrank == 0) printf("CUT\n"); break; }
        c.index = i; c.seed = seed; c.r = Rng(mix64(seed) ^ mix64(hash_str(a["--mode"]) + i * 977 + wsize));
        c.sig.clear(); c.desc.clear(); c.nontrivial = false; c.prog->note[0] = 0; lf_has = false; mpi_calls = 0;
        c.dir = a["--dir"] + fmt("/c%llu", (unsigned long long)i);
        if(wrank == 0) { rm_rf(c.dir); if(mkdir(c.dir.c_str(), 0755)) { perror(c.dir.c_str()); PMPI_Abort(WORLD, 97); } c.prog->index = i; c.prog->running = 1; }
        PMPI_Barrier(WORLD); bool stop = false;
        try { fn(c); agree(); }
        catch(const Fail &f) {
            if(wrank == 0) {
                string m = f.msg, d = c.desc; for(char &ch : m) if(ch == '\n' || ch == '\t') ch = ' '; for(char &ch : d) if(ch == '\n' || ch == '\t') ch = ' ';
                if(m.size() > 3000) m.resize(3000);
                printf("VIOL\t%llu\t%s\t%s\t%s\n", (unsigned long long)i, f.key.c_str(), m.c_str(), d.c_str()); fflush(stdout);
            }
            if(++nviol >= 5) stop = true;
        }
        delays = false; PMPI_Barrier(WORLD);
        long sum; PMPI_Reduce(&mpi_calls, &sum, 1, MPI_LONG, MPI_SUM, 0, WORLD);
        if(wrank == 0) {
            c.st("mpi_calls", sum); c.prog->running = 0; rm_rf(c.dir); done++;
            uint64_t h = hash_str(c.sig + fmt("%d", wsize)); u8 rec[9]; memcpy(rec, &h, 8); rec[8] = c.nontrivial; if(dist) fwrite(rec, 9, 1, dist);
            if(c.nontrivial && nsample < 2) { nsample++; printf("SAMPLE\t{\"case\":%llu,\"ranks\":%d,\"trace\":%s}\n", (unsigned long long)i, wsize, jstr(c.desc.substr(0, 700)).c_str()); }
        }
        if(stop) break;
    }
    if(wrank == 0) { if(dist) fclose(dist); for(auto &s : c.stat) printf("STAT\t%s\t%ld\n", s.first.c_str(), s.second); printf("DONE\t%llu\n", (unsigned long long)done); fflush(stdout); }
    MPI_Finalize();
    return 0;
}
