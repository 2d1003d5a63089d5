// C15: threads and processes with handles of their own; readers sharing one handle.
#include "model.h"
#include <pthread.h>
#include <sys/syscall.h>

struct World {
    string root; vector<MBlock> old, now; // contents before and after
    vector<BigBlock> shared; BigFile sbf; bool procs; pthread_barrier_t *bar;
};
struct Worker {
    World *w; int id, kind; Ctx c; Rng r; bool failed; Fail f; pthread_t t; int block; vector<std::pair<size_t, size_t>> ranges; BigFile bf; BigBlock bb; map<string, long> stat;
    MBlock own; vector<RAttr> attrs;
};
static void meet(Worker *k) { pthread_barrier_wait(k->w->bar); }
static void jitter(Rng &r) { if(r.chance(1, 6)) usleep(r.below(200)); else if(r.chance(1, 3)) sched_yield(); }

// every byte read is the byte before or after the concurrent write
static void check_rows(const Bytes &got, const MBlock &o, const MBlock &n, size_t s, size_t cnt, const char *what, bool swapped) {
    size_t f = o.felsize();
    for(size_t i = 0; i < cnt * f; i++) {
        size_t j = i; if(swapped) { size_t e = o.d.kind == 'c' ? o.d.size / 2 : o.d.size; j = i / e * e + (e - 1 - i % e); }
        u8 x = got[i], a = o.data[s * f + j], b = n.data[s * f + j];
        if(x != a && x != b) FAIL("read-mismatch", "%s of %s: byte %zu of row %zu is %02x, neither the old %02x nor the new %02x", what, o.desc().c_str(), i % f, s + i / f, x, a, b);
    }
}
static void read_some(Worker *k, BigBlock *bb, int b, const char *what) {
    World &w = *k->w; const MBlock &o = w.old[b]; Rng &r = k->r; size_t s, n; pick_range(r, o, s, n); bool sw = o.d.size > 1 && o.d.kind != 'S' && r.chance(1, 2); DT md = sw ? other_order(o.d) : o.d;
    if(r.chance(1, 4)) { BigArray a; memset(&a, 0, sizeof a); CHECK(0 == big_block_read_simple(bb, s, n, &a, md.str().c_str()), "read-failed", "%s: %s", what, errmsg()); Bytes got((u8 *)a.data, (u8 *)a.data + n * o.felsize()); free(a.data); check_rows(got, o, w.now[b], s, n, what, sw); }
    else { Bytes buf(n * o.felsize() + 1); size_t dims[2] = {n, (size_t)o.nmemb}; BigArray a; BigBlockPtr p; big_array_init(&a, buf.data(), md.str().c_str(), 2, dims, NULL);
        CHECK(0 == big_block_seek(bb, &p, s) && 0 == big_block_read(bb, &p, &a), "read-failed", "%s of [%zu,+%zu): %s", what, s, n, errmsg()); check_rows(buf, o, w.now[b], s, n, what, sw); CHECK(bb->foffset[p.fileid] + p.roffset == s + n, "pointer", "pointer after %s", what); }
    k->stat[what]++; k->stat["rows_compared"] += n;
}
static void write_ranges(Worker *k) {
    World &w = *k->w; const MBlock &n = w.now[k->block]; size_t f = n.felsize(); BigBlockPtr p;
    for(auto &q : k->ranges) for(size_t s = q.first; s < q.second; ) {
        size_t m = k->r.range(1, q.second - s); bool sw = n.d.size > 1 && n.d.kind != 'S' && k->r.chance(1, 2); Bytes src(n.data.begin() + s * f, n.data.begin() + (s + m) * f); if(sw) for(size_t i = 0; i < m * n.nmemb; i++) swap_comp(&src[i * n.d.size], n.d);
        size_t dims[2] = {m, (size_t)n.nmemb}; BigArray a; string md = (sw ? other_order(n.d) : n.d).str(); big_array_init(&a, src.data(), md.c_str(), 2, dims, NULL);
        CHECK(0 == big_block_seek(&k->bb, &p, s) && 0 == big_block_write(&k->bb, &p, &a), "write-failed", "write of [%zu,+%zu): %s", s, m, errmsg()); k->stat["writes"]++; k->stat["rows_written"] += m; s += m; jitter(k->r);
    }
}
static void own_block(Worker *k) { // creates, annotates, closes, reads back; lists the file
    World &w = *k->w; Rng &r = k->r; Ctx &c = k->c; BigBlock bb; BigBlockPtr p; MBlock &b = k->own; b = MBlock(); b.name = fmt(r.chance(1, 2) ? "own/%d/a" : "own%d", k->id); b.d = gen_dt(r); b.nmemb = r.range(1, 3); b.layout(gen_fsize_nz(r, 20, 4)); c.r = Rng(r.u64());
    must_create(c, &k->bf, &bb, b); write_rows(c, &bb, &p, b, 0, b.rows(), mem_type(c.r, b.d, true), 1); for(int i = 0; i < 2; i++) { AttrVal v = gen_attr(c.r); if(v.data.size() < 500) set_attr(c, &bb, b.attrs, v); } must_close(c, &bb); jitter(r);
    must_open(c, &k->bf, &bb, b.name); check_desc(&bb, b, "own block"); string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "attrs", "%s", e.c_str()); read_all(c, &bb, b);
    if(r.chance(1, 2)) { vector<size_t> add = {(size_t)r.range(1, 5)}; CHECK(0 == big_block_grow(&bb, 1, add.data()), "grow-failed", "%s", errmsg()); size_t o = b.rows(); b.grow(add); write_rows(c, &bb, &p, b, o, add[0], b.d, 0); must_flush(c, &bb); }
    must_close(c, &bb); k->stat["own_blocks"]++;
    char **names = NULL; int nn = 0; if(0 == big_file_list(&k->bf, &names, &nn)) { set<string> s; for(int i = 0; i < nn; i++) { s.insert(names[i]); free(names[i]); } free(names); for(auto &o : w.old) if(o.name.find('/') == string::npos) CHECK(s.count(o.name), "list", "%s is not listed", o.name.c_str()); k->stat["lists"]++; }
}
static void errors(Worker *k) {
    BigBlock bb; string n = fmt("missing-%d-%d", k->id, (int)k->r.below(1000)); CHECK(0 != big_file_open_block(&k->bf, &bb, n.c_str()), "accepted", "missing block opened"); jitter(k->r); const char *m = big_file_get_error_message(); CHECK(m && strstr(m, n.c_str()), "message", "the message of %s in this thread is %.200s", n.c_str(), m ? m : "none"); k->stat["errors"]++;
    BigArray a; memset(&a, 0, sizeof a); char out[8]; CHECK(0 != big_file_dtype_parse("zz", "i4", out, NULL), "accepted", "zz"); CHECK(0 == big_file_dtype_parse(" 17", "i4", out, NULL) && *(int *)out == 17, "parse", "17");
}
enum { K_WRITE, K_READ, K_SHARED, K_OWN, K_ERR };
static void work(Worker *k) {
    World &w = *k->w; bool handle = k->kind == K_WRITE || k->kind == K_READ;
    try { CHECK(0 == big_file_open(&k->bf, w.root.c_str()), "open-failed", "%s", errmsg()); if(handle) CHECK(0 == big_file_open_block(&k->bf, &k->bb, w.old[k->block].name.c_str()), "open-failed", "%s", errmsg()); } catch(const Fail &f) { k->f = f; k->failed = true; }
    meet(k);
    if(!k->failed) try {
        int n = k->r.range(3, 10);
        switch(k->kind) { case K_WRITE: write_ranges(k); break; case K_READ: for(int i = 0; i < n; i++) { read_some(k, &k->bb, k->block, "reads"); jitter(k->r); } break; case K_SHARED: for(int i = 0; i < n; i++) { read_some(k, &w.shared[k->block], k->block, "shared_reads"); jitter(k->r); } break; case K_OWN: own_block(k); own_block(k); break; default: for(int i = 0; i < n; i++) errors(k); }
    } catch(const Fail &f) { k->f = f; k->failed = true; }
    meet(k);
    // the handles of one block are closed one after the other
    for(int i = 0; i < 16; i++) { if(i == k->id && !k->failed) { if(handle && 0 != big_block_close(&k->bb)) { k->f = Fail{"close-failed", errmsg()}; k->failed = true; } big_file_close(&k->bf); } if(w.procs || true) meet(k); }
}
static void *thread_main(void *v) { work((Worker *)v); return NULL; }

static void c15(Ctx &c) {
    Rng &r = c.r; bool procs = c.index % 4 == 3; World w; w.root = c.dir + "/f"; w.procs = procs;
#ifdef ONLY_THREADS
    procs = w.procs = false;
#endif
    { size_t s[] = {1, 16, 100, 4096, 65536}; big_file_set_buffer_size(s[r.below(5)]); }
    BigFile bf; BigBlock bb; BigBlockPtr p; CHECK(0 == big_file_create(&bf, w.root.c_str()), "create-failed", "%s", errmsg()); int nb = r.range(1, 3);
    for(int i = 0; i < nb; i++) { MBlock b; b.name = fmt(i == 1 ? "g/B%d" : "B%d", i); b.d = gen_dt(r); b.nmemb = r.range(1, 4); b.layout(gen_fsize_nz(r, r.chance(1, 4) ? 400 : 60, 6)); must_create(c, &bf, &bb, b); write_rows(c, &bb, &p, b, 0, b.rows(), b.d, 0); set_attr(c, &bb, b.attrs, gen_attr(r)); must_close(c, &bb); w.old.push_back(b); w.now.push_back(b); }
    // workers
    int T = r.range(2, 7); bool useshared = !procs && r.chance(2, 3); vector<Worker> k(T); string roles; map<int, vector<int>> writers;
    for(int i = 0; i < T; i++) { k[i].w = &w; k[i].id = i; k[i].failed = false; k[i].r = Rng(r.u64()); k[i].c = c; k[i].c.stat.clear(); k[i].c.prog = (Progress *)calloc(1, sizeof(Progress)); k[i].block = r.below(nb); int q = r.below(10); k[i].kind = i == 0 || q < 4 ? K_WRITE : q < 6 ? K_READ : q < 8 ? (useshared ? K_SHARED : K_READ) : q < 9 ? K_OWN : K_ERR; if(k[i].kind == K_WRITE) writers[k[i].block].push_back(i); roles += fmt("%c%d ", "wrsoe"[k[i].kind], k[i].block); }
    c.note(fmt("%s %s", procs ? "processes" : "threads", roles.c_str()));
    // rows are dealt out to the writers of a block; neighbours may be in the same file, page and buffer
    for(auto &x : writers) { MBlock &n = w.now[x.first]; size_t N = n.rows(), s = 0; while(s < N) { size_t m = std::min(N - s, (size_t)r.range(1, r.chance(1, 2) ? 4 : 30)); int who = r.below(x.second.size() + 1); if(who < (int)x.second.size()) { k[x.second[who]].ranges.push_back({s, s + m}); for(size_t i = s * n.felsize(); i < (s + m) * n.felsize(); i++) n.data[i] = r.below(256); if(n.d.base() == "b1") for(size_t i = s * n.felsize(); i < (s + m) * n.felsize(); i++) n.data[i] &= 1; } s += m; } }
    if(useshared) { CHECK(0 == big_file_open(&w.sbf, w.root.c_str()), "open-failed", "%s", errmsg()); w.shared.resize(nb); for(int i = 0; i < nb; i++) must_open(c, &w.sbf, &w.shared[i], w.old[i].name); }
    pthread_barrierattr_t at; pthread_barrierattr_init(&at); if(procs) pthread_barrierattr_setpshared(&at, PTHREAD_PROCESS_SHARED); w.bar = (pthread_barrier_t *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pthread_barrier_init(w.bar, &at, T);
    if(!procs) { for(auto &x : k) if(pthread_create(&x.t, NULL, thread_main, &x)) _exit(97); for(auto &x : k) pthread_join(x.t, NULL); }
    else {
        size_t SZ = 1 << 16; char *res = (char *)mmap(NULL, SZ * T, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); vector<pid_t> pid(T); fflush(NULL);
        for(int i = 0; i < T; i++) { pid[i] = fork(); if(pid[i] == 0) { work(&k[i]); string o = k[i].failed ? "F" + k[i].f.key + "\n" + k[i].f.msg + "\n" : string("."); for(auto &s : k[i].c.stat) k[i].stat[s.first] += s.second; if(!k[i].failed) for(auto &s : k[i].stat) o += fmt("%s %ld\n", s.first.c_str(), s.second); strncpy(res + SZ * i, o.c_str(), SZ - 1); _exit(0); } }
        int bad = -1, st; bool gone = false; for(int left = T; left > 0; left--) { pid_t q = wait(&st); if(!WIFEXITED(st) || WEXITSTATUS(st)) { for(auto x : pid) if(x != q) kill(x, SIGKILL); bad = st; gone = true; } if(gone) { while(wait(&st) > 0) ; break; } }
        if(gone) { munmap(res, SZ * T); FAIL("crash", "a process ended with status %x", bad); }
        for(int i = 0; i < T; i++) { string o = res + SZ * i; if(o.empty()) { k[i].failed = true; k[i].f = Fail{"harness", "no result"}; } else if(o[0] == 'F') { size_t a = o.find('\n'); k[i].failed = true; k[i].f = Fail{o.substr(1, a - 1), o.substr(a + 1)}; } else { size_t a = 1; while(a < o.size()) { char key[100]; long v; if(sscanf(o.c_str() + a, "%99s %ld", key, &v) == 2) k[i].stat[key] += v; a = o.find('\n', a) + 1; } } }
        munmap(res, SZ * T); c.st("process_cases");
    }
    pthread_barrier_destroy(w.bar); munmap(w.bar, 4096);
    for(auto &x : k) free(x.c.prog);
    for(auto &x : k) if(x.failed) throw x.f;
    for(auto &x : k) { for(auto &s : x.stat) c.stat[s.first] += s.second; for(auto &s : x.c.stat) c.stat[s.first] += s.second; }
    if(useshared) { for(auto &s : w.shared) must_close(c, &s); big_file_close(&w.sbf); }
    for(int i = 0; i < nb; i++) { must_open(c, &bf, &bb, w.now[i].name); check_desc(&bb, w.now[i], "at the end"); string e = attr_diff(api_attrs(&bb), w.now[i].attrs); CHECK(e.empty(), "attrs", "%s", e.c_str()); w.now[i].written.assign(w.now[i].rows(), 1); read_all(c, &bb, w.now[i]); check_disk_data(w.root + "/" + w.now[i].name, w.now[i]); must_close(c, &bb); c.st("blocks_compared"); }
    if(!procs) for(auto &x : k) if(x.kind == K_OWN) { must_open(c, &bf, &bb, x.own.name); check_desc(&bb, x.own, "own block at the end"); read_all(c, &bb, x.own); must_close(c, &bb); }
    big_file_close(&bf); c.sig = c.desc + fmt("%d", (int)c.index); c.nontrivial = T > 1; if(!procs) c.st("thread_cases"); for(auto &x : writers) if(x.second.size() > 1) c.st("blocks_of_several_writers");
}
#ifndef MODES
#define MODES {"C15", c15}
#endif
int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); return run_modes(argc, argv, {MODES}); }
