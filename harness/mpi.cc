// Monitors of the collective interface (C16-C20, C29).
#include "mpi_common.h"
#include "rec.h"

// ------------------------------------------------------------------ file access of the library: faults and concurrency
struct Shared { std::atomic<int> active, maxactive; std::atomic<long> opens; };
static Shared *shared = NULL; static bool watch = false; static int slow_us = 0;
static int fault_at = 0, fault_fired = 0, fault_errno = EMFILE; // fail the fault_at-th fopen of this rank
static map<FILE *, int> watched;
static bool is_data(const char *p) { size_t n = strlen(p); if(n < 7 || p[n - 7] != '/') return false; for(size_t i = n - 6; i < n; i++) if(!strchr("0123456789ABCDEF", p[i])) return false; return true; }
extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) {
    if(fault_at && --fault_at == 0) { fault_fired = 1; errno = fault_errno; return NULL; }
    FILE *f = __real_fopen(p, m);
    if(f && watch && shared && is_data(p)) {
        int a = ++shared->active, x = shared->maxactive; shared->opens++; while(a > x && !shared->maxactive.compare_exchange_weak(x, a)) ;
        watched[f] = 1; if(slow_us) usleep(slow_us);
    }
    return f;
}
int __wrap_fclose(FILE *f) { if(watched.erase(f)) shared->active--; return __real_fclose(f); }
}

// ------------------------------------------------------------------ shared pieces
struct PArr { MemArr m; size_t n, off; Bytes stored; };
static MBlock gen_block(Ctx &c, size_t maxrows, bool nonempty = true) {
    MBlock b; static const vector<string> names = {"B", "g/B", "0/Position", "a/b/c", "Block.x"};
    b.name = c.r.pick(names); b.d = gen_dt(c.r); b.nmemb = c.r.chance(1, 30) ? 300 : gen_nmemb(c.r);
    b.layout(nonempty ? gen_fsize_nz(c.r, maxrows, 9) : gen_fsize(c.r, maxrows, 9)); return b;
}
// arrays of all ranks for rows [start, start+n); source: values are generated and the stored bytes computed
static vector<PArr> gen_arrays(Ctx &c, Grp &g, const MBlock &b, size_t n, bool source, bool conv, const vector<size_t> *given = NULL) {
    vector<size_t> cnt = given ? *given : gen_split(c.r, n, g.n); vector<PArr> v(g.n); size_t off = 0; string s;
    DT common = mem_type(c.r, b.d, conv); bool same = c.r.chance(1, 2);
    for(int i = 0; i < g.n; i++) {
        PArr &p = v[i]; p.n = cnt[i]; p.off = off; off += cnt[i]; DT md = same ? common : mem_type(c.r, b.d, conv);
        mk_array(p.m, c.r, md, p.n, b.nmemb, 2, source, spell(c.r, md));
        if(source) {
            p.stored.resize(p.n * b.felsize());
            for(size_t k = 0; k < p.m.L.n; k++) gen_value(c.r, md, &p.m.buf[p.m.L.off[k]], &b.d);
            for(size_t k = 0; k < p.m.L.n; k++) if(ref_convert(b.d, &p.stored[k * b.d.size], md, &p.m.buf[p.m.L.off[k]])) { fprintf(stderr, "HARNESS: bad conversion\n"); _exit(97); }
            p.m.orig = p.m.buf;
        }
        s += fmt("%zu%s ", cnt[i], p.m.a.dtype);
    }
    c.note("rows " + s); return v;
}
static size_t position(const BigBlock *bb, const BigBlockPtr &p) { return bb->foffset[p.fileid] + p.roffset; }
static int gen_conc(Rng &r, int n) { switch(r.below(5)) { case 0: return 0; case 1: return 1; case 2: return n + r.below(3); case 3: return -(int)r.below(3); default: return r.range(1, n); } }
static size_t gen_thresh(Rng &r, size_t rows) { switch(r.below(6)) { case 0: return 0; case 1: return 1; case 2: return rows + 5; case 3: return (size_t)1 << 40; default: return r.below(rows + 2); } }

static void coll_write(Ctx &c, Grp &g, BigBlock *bb, BigBlockPtr *ptr, MBlock &b, size_t start, size_t n, bool conv = true, bool seek = true) {
    c.note(fmt("write [%zu,+%zu)", start, n)); vector<PArr> v = gen_arrays(c, g, b, n, true, conv);
    int conc = gen_conc(c.r, g.n); size_t th = gen_thresh(c.r, n); big_file_mpi_set_aggregated_threshold(th); c.note(fmt("conc %d thresh %zu", conc, th));
    if(seek) must(g, "seek", [&] { return big_block_seek(bb, ptr, start); });
    must(g, "write", [&] { return big_block_mpi_write(bb, ptr, &v[g.rank].m.a, conc, g.comm); });
    if(g.member) {
        LCHECK(position(bb, *ptr) == start + n, "pointer", "after writing %zu rows at %zu the pointer is at %zu", n, start, position(bb, *ptr));
        LCHECK(v[g.rank].m.buf == v[g.rank].m.orig, "source-modified", "the written array was modified");
    }
    agree();
    for(auto &p : v) if(p.n) b.put(start + p.off, p.n, p.stored.data());
    c.st("writes"); c.st("rows_written", n); if(n) { int nz = 0; for(auto &p : v) nz += p.n > 0; c.st(nz == 1 ? "single_rank_writes" : nz < g.n ? "partly_empty_writes" : "all_rank_writes"); }
}
static void coll_read(Ctx &c, Grp &g, BigBlock *bb, BigBlockPtr *ptr, const MBlock &b, size_t start, size_t n, bool conv = true, bool seek = true) {
    c.note(fmt("read [%zu,+%zu)", start, n)); vector<PArr> v = gen_arrays(c, g, b, n, false, conv);
    int conc = gen_conc(c.r, g.n); size_t th = gen_thresh(c.r, n); big_file_mpi_set_aggregated_threshold(th); c.note(fmt("conc %d thresh %zu", conc, th));
    if(seek) must(g, "seek", [&] { return big_block_seek(bb, ptr, start); });
    must(g, "read", [&] { return big_block_mpi_read(bb, ptr, &v[g.rank].m.a, conc, g.comm); });
    if(g.member) local([&] {
        PArr &p = v[g.rank]; MemArr &m = p.m; u8 want[512]; bool cv = m.d.base() != b.d.base();
        CHECK(position(bb, *ptr) == start + n, "pointer", "after reading %zu rows at %zu the pointer is at %zu", n, start, position(bb, *ptr));
        vector<char> el(m.buf.size(), 0); for(ptrdiff_t o : m.L.off) for(int k = 0; k < m.d.size; k++) el[o + k] = 1;
        for(size_t i = 0; i < m.buf.size(); i++) if(!el[i]) CHECK(m.buf[i] == m.orig[i], "guard", "memory outside of the array was modified at %zd from its base", (ptrdiff_t)i - m.L.base);
        for(size_t i = 0; i < m.L.n; i++) {
            if(2 == ref_convert(m.d, want, b.d, &b.data[((start + p.off) * b.nmemb + i) * b.d.size])) continue;
            CHECK(same_value(m.d, want, &m.buf[m.L.off[i]], cv), "read-mismatch", "read of %s as %s %s: row %zu (of %zu from %zu) member %zu is %s, expected %s", b.desc().c_str(), m.d.str().c_str(), m.L.desc.c_str(), i / b.nmemb, p.n, start + p.off, i % b.nmemb, hexs(&m.buf[m.L.off[i]], m.d.size).c_str(), hexs(want, m.d.size).c_str());
        }
    });
    agree(); c.st("reads"); c.st("rows_compared", n);
}
static void coll_create(Ctx &c, Grp &g, BigFile *bf, BigBlock *bb, const MBlock &b) {
    string sp = spell(c.r, b.d); size_t N = b.rows(), nf = b.fsize.size(); bool even = true; for(size_t i = 0; i < nf; i++) even = even && b.fsize[i] == N * (i + 1) / nf - N * i / nf;
    c.note("create " + b.desc());
    must(g, "create-block", [&] { return even ? big_file_mpi_create_block(bf, bb, b.name.c_str(), sp.c_str(), b.nmemb, nf, N, g.comm) : _big_file_mpi_create_block(bf, bb, b.name.c_str(), sp.c_str(), b.nmemb, nf, b.fsize.data(), g.comm); });
}
static void small_buffer(Ctx &c, const MBlock &b) { size_t f = b.felsize(); size_t s[] = {1, f, f * 3 + 1, 4096, 65536, 256}; big_file_set_buffer_size(s[c.r.below(6)]); }

// ------------------------------------------------------------------ C16
static void c16(Ctx &c) {
    Grp g(c); bool large = c.index % 101 == 50; MBlock b = gen_block(c, c.r.chance(1, 5) ? 400 : 60, false); small_buffer(c, b);
    if(large) { // 10^5 to 10^6 elements, or rows of many members
        static const vector<int> nm = {1, 3, 257, 33000, 66000}; b.nmemb = c.r.pick(nm); size_t E = c.r.range(66000, c.r.chance(1, 4) ? 1200000 : 300000), left; if(E * b.d.size > (6u << 20)) E = (6u << 20) / b.d.size; left = std::max((size_t)1, E / b.nmemb);
        vector<size_t> fs; while(left && fs.size() < 3) { size_t s = c.r.chance(1, 3) ? left : 1 + c.r.below(left); fs.push_back(s); left -= s; } if(left) fs.push_back(left); b.layout(fs);
        big_file_set_buffer_size(c.r.chance(1, 2) ? 64 << 20 : 300000); c.st("large_blocks"); }
 BigFile bf; BigBlock bb; BigBlockPtr ptr; memset(&ptr, 0, sizeof ptr); string root = c.dir + "/f", dir = root + "/" + b.name; size_t N = b.rows();
    must(g, "create-file", [&] { return big_file_mpi_create(&bf, root.c_str(), g.comm); });
    bool serial_made = c.r.chance(1, 4);
    if(serial_made) { // the block is made and filled by one process
        Ctx c2 = c; MBlock bs = b; BigBlock sb; bool ok = true;
        on_root([&] { BigFile sf; CHECK(0 == big_file_open(&sf, root.c_str()), "open-failed", "%s", errmsg()); must_create(c2, &sf, &sb, bs); BigBlockPtr p; if(N) write_rows(c2, &sb, &p, bs, 0, N, bs.d, 0); must_close(c2, &sb); big_file_close(&sf); });
        { BigFile sf; (void)ok; Bytes t(bs.data.size() + 1); if(wrank == 0) memcpy(t.data(), bs.data.data(), bs.data.size()); PMPI_Bcast(t.data(), bs.data.size(), MPI_BYTE, 0, WORLD); if(N) b.put(0, N, t.data()); }
        c.r = Rng(c.seed * 31 + c.index); c.note("made serially " + b.desc());
        must(g, "open-block", [&] { return big_file_mpi_open_block(&bf, &bb, b.name.c_str(), g.comm); });
    } else coll_create(c, g, &bf, &bb, b);
    int nops = large ? 1 : c.r.range(1, 5); bool spanning = false;
    if(!serial_made) { // everything is written once, in a few pieces in any order
        vector<size_t> cut = {0, N}; for(int k = c.r.below(3); k > 0; k--) cut.push_back(c.r.below(N + 1)); std::sort(cut.begin(), cut.end()); vector<int> ord; for(size_t i = 0; i + 1 < cut.size(); i++) ord.push_back(i);
        bool shuffled = c.r.chance(1, 2); if(shuffled) for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.r.below(i)]);
        for(size_t q = 0; q < ord.size(); q++) { int i = ord[q]; coll_write(c, g, &bb, &ptr, b, cut[i], cut[i + 1] - cut[i], true, shuffled || q == 0 || c.r.chance(1, 2)); spanning = true; }
    }
    for(int k = 0; k < nops; k++) {
        size_t s, n; pick_range(c.r, b, s, n);
        switch(c.r.below(5)) {
            case 0: coll_write(c, g, &bb, &ptr, b, s, n); break;
            case 1: if(c.r.chance(1, 2)) { must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); must(g, "open-block", [&] { return big_file_mpi_open_block(&bf, &bb, b.name.c_str(), g.comm); }); c.note("reopen"); } // fall through
            default: coll_read(c, g, &bb, &ptr, b, s, n); // and onward from where it ended
                if(c.r.chance(1, 3)) { size_t s2 = s + n, m = c.r.below(N - s2 + 1); coll_read(c, g, &bb, &ptr, b, s2, m, true, false); c.st("continued"); }
        }
    }
    if(c.r.chance(1, 3)) { coll_read(c, g, &bb, &ptr, b, 0, N); }
    must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); });
    must(g, "close-file", [&] { return big_file_mpi_close(&bf, g.comm); });
    Ctx c2 = c; on_root([&] { check_disk_data(dir, b); BigFile sf; BigBlock sb; CHECK(0 == big_file_open(&sf, root.c_str()), "open-failed", "%s", errmsg()); must_open(c2, &sf, &sb, b.name); check_desc(&sb, b, "reopened by one process"); read_all(c2, &sb, b); big_block_close(&sb); big_file_close(&sf); });
    if(wrank == 0) { c.st("blocks_compared_on_disk"); c.st(fmt("ranks_%d", g.n)); }
    c.nontrivial = g.n > 1 && N > 3; c.sig = c.desc;
}

// ------------------------------------------------------------------ C17
static void check_ranks(Ctx &c, Grp &g, BigBlock *bb, const MBlock &b, const char *when) {
    if(g.member) local([&] {
        check_desc(bb, b, when); string e = attr_diff(api_attrs(bb), b.attrs); CHECK(e.empty(), "attrs", "%s: %s", when, e.c_str());
        if(g.rank == 0) for(size_t i = 0; i < b.fsize.size(); i++) CHECK(bb->fchecksum[i] == b.ck[i], "checksum", "%s: checksum of file %zu on the root is %u, expected %u", when, i, bb->fchecksum[i], b.ck[i]);
    });
    agree(); c.st("rank_descriptions", g.n);
}
static void check_disk(Ctx &c, const string &dir, const MBlock &b) {
    on_root([&] { check_disk_header(dir, b, true); map<string, RAttr> m; string e = disk_attrs(dir, m); CHECK(e.empty(), "attr-file", "%s", e.c_str()); e = attr_diff(m, b.attrs); CHECK(e.empty(), "attrs-stored", "%s", e.c_str()); });
    c.st("headers_compared");
}
static void c17(Ctx &c) {
    Grp g(c); MBlock b = gen_block(c, 40, false); small_buffer(c, b); BigFile bf; BigBlock bb; BigBlockPtr ptr; memset(&ptr, 0, sizeof ptr); string root = c.dir + "/f", dir = root + "/" + b.name;
    map<string, RAttr> mine; // what a rank that is not the root should see
    must(g, "create-file", [&] { return big_file_mpi_create(&bf, root.c_str(), g.comm); });
    coll_create(c, g, &bf, &bb, b); check_ranks(c, g, &bb, b, "after create");
    bool pending = false; int nops = c.r.range(3, c.tier ? 30 : 14), grows = 0, flushes = 0; MBlock keep;
    for(int k = 0; k < nops; k++) {
        size_t N = b.rows();
        switch(c.r.below(11)) {
            case 0: case 1: { size_t s, n; pick_range(c.r, b, s, n); coll_write(c, g, &bb, &ptr, b, s, n); break; }
            case 2: { // one rank writes on its own
                size_t s, n; pick_range(c.r, b, s, n); int who = c.r.below(g.n); c.note(fmt("rank %d writes [%zu,+%zu) alone", who, s, n));
                Ctx c2 = c; MBlock bs = b; if(g.rank == who) local([&] { BigBlockPtr p; write_rows(c2, &bb, &p, bs, s, n, mem_type(c2.r, bs.d, true), 1); }); agree();
                Bytes t(n * b.felsize() + 1); if(g.rank == who) memcpy(t.data(), &bs.data[0] + s * b.felsize(), n * b.felsize()); PMPI_Bcast(t.data(), n * b.felsize(), MPI_BYTE, g.world[who], WORLD); c.r.u64();
                if(n) b.put(s, n, t.data()); c.st("lone_writes"); break; }
            case 3: case 4: { c.note("flush"); must(g, "flush", [&] { return big_block_mpi_flush(&bb, g.comm); }); pending = false; flushes++; mine = b.attrs; check_ranks(c, g, &bb, b, "after flush"); check_disk(c, dir, b); c.st("flushes"); break; }
            case 5: { // grow
                if(b.fsize.size() > 60) break; vector<size_t> fs = gen_fsize(c.r, 20, 4); if(c.r.chance(1, 6)) fs.clear(); bool simple = c.r.chance(1, 3) && !fs.empty(); size_t tot = 0; for(size_t s : fs) tot += s; if(simple) for(size_t i = 0; i < fs.size(); i++) fs[i] = tot * (i + 1) / fs.size() - tot * i / fs.size();
                string s; for(size_t f : fs) s += fmt("%zu ", f); c.note("grow " + s); must(g, "grow", [&] { size_t d = 0; return simple ? big_block_mpi_grow_simple(&bb, fs.size(), tot, g.comm) : big_block_mpi_grow(&bb, fs.size(), fs.empty() ? &d : fs.data(), g.comm); });
                b.grow(fs); mine = b.attrs; check_ranks(c, g, &bb, b, "after grow"); c.st("grows"); grows++; break; }
            case 6: { must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); c.note("close"); pending = false; mine = b.attrs; check_disk(c, dir, b);
                if(c.r.chance(1, 4)) on_root([&] { check_disk_data(dir, b); });
                must(g, "open-block", [&] { return big_file_mpi_open_block(&bf, &bb, b.name.c_str(), g.comm); }); c.note("open"); check_ranks(c, g, &bb, b, "after open"); c.st("reopens"); break; }
            case 7: case 8: { // attributes, on the root or on every rank
                bool all = c.r.chance(1, 2); Rng ar = c.r; AttrVal v = gen_attr(c.r); if(v.data.size() > 4000) { v.nmemb = 0; v.data.clear(); } Bytes src(v.data); src.push_back(0);
                c.note(fmt("%s set_attr %s %s x%d", all ? "all" : "root", v.name.substr(0, 30).c_str(), v.dtype.c_str(), v.nmemb));
                if(g.member && (all || g.rank == 0)) LCHECK(0 == big_block_set_attr(&bb, v.name.c_str(), src.data(), v.dtype.c_str(), v.nmemb), "set-attr-failed", "%s", errmsg()); agree();
                RAttr a; a.dtype = normalized(v.dtype); a.nmemb = v.nmemb; a.data = v.data; b.attrs[v.name] = a; if(all) mine[v.name] = a; pending = true; c.st(all ? "attrs_on_all" : "attrs_on_root"); break; }
            case 9: { if(b.attrs.empty() || !(mine == b.attrs)) break; auto it = b.attrs.begin(); std::advance(it, c.r.below(b.attrs.size())); string nm = it->first; c.note("remove_attr " + nm.substr(0, 30)); bool all = c.r.chance(1, 2);
                if(g.member && (all || g.rank == 0)) LCHECK(0 == big_block_remove_attr(&bb, nm.c_str()), "remove-attr-failed", "%s", errmsg()); agree(); b.attrs.erase(nm); if(all) mine.erase(nm); c.st("attrs_removed"); break; }
            case 10: { size_t n = std::min(N, (size_t)5), s = N - n; if(n && b.all_written(s, n)) coll_read(c, g, &bb, &ptr, b, s, n); break; }
        }
    }
    must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); check_disk(c, dir, b);
    on_root([&] { check_disk_data(dir, b); });
    if(c.r.chance(1, 2)) { must(g, "open-block", [&] { return big_file_mpi_open_block(&bf, &bb, b.name.c_str(), g.comm); }); check_ranks(c, g, &bb, b, "after open"); must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); check_disk(c, dir, b); }
    if(c.r.chance(1, 4)) { // replaced by another block
        string nm = b.name; b = gen_block(c, 20, false); b.name = nm; coll_create(c, g, &bf, &bb, b); b.attrs.clear(); check_ranks(c, g, &bb, b, "after replacing"); if(b.rows()) coll_write(c, g, &bb, &ptr, b, 0, b.rows()); must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); check_disk(c, dir, b); on_root([&] { check_disk_data(dir, b); }); c.st("replaced"); }
    must(g, "close-file", [&] { return big_file_mpi_close(&bf, g.comm); });
    c.nontrivial = g.n > 1 && (grows || flushes); c.sig = c.desc;
}

// ------------------------------------------------------------------ C18
static void must_fail(Ctx &c, Grp &g, const char *what, const vector<string> &tokens, bool failed) {
    if(!failed) throw Fail{"no-error", fmt("%s succeeds on all ranks although %s", what, c.desc.substr(c.desc.size() > 300 ? c.desc.size() - 300 : 0).c_str())};
    if(g.member) local([&] {
        const char *m = big_file_get_error_message(); CHECK(m && *m, "no-message", "no message on rank %d of %d after the failed %s", g.rank, g.n, what); if(strlen(m) > 300) c.st("long_messages");
        bool ok = tokens.empty(); for(auto &t : tokens) ok = ok || strstr(m, t.c_str()); CHECK(ok, "message", "rank %d of %d: the message of the failed %s says nothing of its cause (%s): %s", g.rank, g.n, what, tokens[0].c_str(), m);
    });
    agree(); c.st("failures"); c.st(fmt("failed_%s", what)); c.st("messages", g.n);
}
static void c18(Ctx &c) {
    Grp g(c, 2); Rng &r = c.r; MBlock b; b.name = r.chance(1, 2) ? "B" : "g/B"; do b.d = gen_dt(r, false); while(b.d.base() == "b1"); b.nmemb = r.range(1, 3); { int nf = r.range(1, 6); vector<size_t> fs; for(int i = 0; i < nf; i++) fs.push_back(r.range(1, 8)); b.layout(fs); }
    small_buffer(c, b); BigFile bf; BigBlock bb; BigBlockPtr ptr; memset(&ptr, 0, sizeof ptr); string root = c.dir + "/f", miss = "missing"; if(r.chance(1, 2)) { int k = r.range(1, 8); for(int i = 0; i < k; i++) root += "/" + string(r.range(1, 200), 'a' + r.below(26)); } if(r.chance(1, 3)) miss += string(r.range(1, 200), 'z'); string dir = root + "/" + b.name, keep = c.dir + "/keep"; size_t N = b.rows(), F = b.fsize.size();
    fault_at = fault_fired = 0;
    must(g, "create-file", [&] { return big_file_mpi_create(&bf, root.c_str(), g.comm); });
    coll_create(c, g, &bf, &bb, b); coll_write(c, g, &bb, &ptr, b, 0, N, false);
    bool reopen = r.chance(1, 2); if(reopen) { must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); must(g, "open-block", [&] { return big_file_mpi_open_block(&bf, &bb, b.name.c_str(), g.comm); }); }
    bool open = true; int kind = c.index % 17; int conc = gen_conc(r, g.n); size_t th = gen_thresh(r, N); big_file_mpi_set_aggregated_threshold(th); c.note(fmt("conc %d thresh %zu", conc, th));
    size_t ff = r.below(F), frow = 0; for(size_t i = 0; i < ff; i++) frow += b.fsize[i]; string df = disk_datafile(dir, ff); if(g.member) big_file_set_error_message(NULL); BigBlock b2; BigFile bf2; size_t one[1] = {2};
    auto root_do = [&](std::function<void()> f) { PMPI_Barrier(WORLD); if(wrank == 0) f(); PMPI_Barrier(WORLD); };
    auto put_dir = [&](const string &p) { root_do([&] { if(exists(p)) rename(p.c_str(), keep.c_str()); mkdir(p.c_str(), 0755); }); };
    auto undo = [&](const string &p) { root_do([&] { rm_rf(p); if(exists(keep)) rename(keep.c_str(), p.c_str()); }); };
    vector<string> tb = {b.name, root};
    auto rw = [&](bool write, size_t s, size_t n, const vector<PArr> &v) { must(g, "seek", [&] { return big_block_seek(&bb, &ptr, s); }); (void)n; return coll(g, write ? "write" : "read", [&] { BigArray a = v[g.rank].m.a; return write ? big_block_mpi_write(&bb, &ptr, &a, conc, g.comm) : big_block_mpi_read(&bb, &ptr, &a, conc, g.comm); }); };
    switch(kind) {
        case 0: c.note("open of a missing file"); must_fail(c, g, "open", {miss}, coll(g, "open", [&] { return big_file_mpi_open(&bf2, (root + "/" + miss).c_str(), g.comm); })); break;
        case 1: c.note("create of a file below a regular file"); root_do([&] { write_file(c.dir + "/plain", "x", 1); }); must_fail(c, g, "create", {"plain"}, coll(g, "create", [&] { return big_file_mpi_create(&bf2, (c.dir + "/plain/x").c_str(), g.comm); })); break;
        case 2: { bool hdr = r.chance(1, 2); c.note(hdr ? "open of a damaged block" : "open of a missing block"); if(hdr) root_do([&] { mkdirs(root + "/D"); write_file(root + "/D/header", "DTYPE: i4\nNMEMB: x\n", 19); }); must_fail(c, g, "open_block", {hdr ? string("D") : miss}, coll(g, "open_block", [&] { return big_file_mpi_open_block(&bf, &b2, hdr ? "D" : miss.c_str(), g.comm); })); break; }
        case 3: { bool ty = r.chance(1, 2); c.note(ty ? "create of a block of no type" : "create of a block below a regular file"); root_do([&] { write_file(root + "/plain", "x", 1); }); must_fail(c, g, "create_block", {ty ? "x9" : "plain"}, coll(g, "create_block", [&] { return _big_file_mpi_create_block(&bf, &b2, ty ? "E" : "plain/E", ty ? "x9" : "i4", 1, 1, one, g.comm); })); root_do([&] { unlink((root + "/plain").c_str()); }); break; }
        case 4: { int nf = r.range(1, 12), k = r.below(nf); c.note(fmt("create of %d files, %d is a directory", nf, k)); root_do([&] { mkdirs(disk_datafile(root + "/E", k)); }); vector<size_t> fs(nf, 1); must_fail(c, g, "create_block", {"E"}, coll(g, "create_block", [&] { return _big_file_mpi_create_block(&bf, &b2, "E", "i4", 1, nf, fs.data(), g.comm); }));
            root_do([&] { rm_rf(root + "/E"); }); must(g, "create-block", [&] { return _big_file_mpi_create_block(&bf, &b2, "E", "i4", 1, nf, fs.data(), g.comm); }); must(g, "close-block", [&] { return big_block_mpi_close(&b2, g.comm); }); break; }
        case 5: { int nf = r.range(1, 12), k = r.below(nf); c.note(fmt("grow by %d files, %d is a directory", nf, k)); string p = disk_datafile(dir, F + k); put_dir(p); vector<size_t> fs(nf, 1); must_fail(c, g, "grow", tb, coll(g, "grow", [&] { return big_block_mpi_grow(&bb, nf, fs.data(), g.comm); }));
            undo(p); if(g.member) local([&] { check_desc(&bb, b, "after a failed growth"); }); agree(); must(g, "grow", [&] { return big_block_mpi_grow(&bb, nf, fs.data(), g.comm); }); b.grow(fs); break; }
        case 6: case 7: { // beyond the end
            bool write = kind == 6; size_t s = r.below(N + 1), n = N - s + r.range(1, 5); c.note(fmt("%s of [%zu,+%zu) of %zu rows", write ? "write" : "read", s, n, N)); MBlock big = b; big.layout({N + 10}); vector<PArr> v = gen_arrays(c, g, big, n, write, false); vector<Bytes> before; if(wrank == 0) for(size_t i = 0; i < F; i++) { before.emplace_back(); read_file(disk_datafile(dir, i), before.back()); }
            must_fail(c, g, write ? "write" : "read", tb, rw(write, s, n, v)); on_root([&] { for(size_t i = 0; i < F; i++) { Bytes now; read_file(disk_datafile(dir, i), now); CHECK(now == before[i], "beyond-end-wrote", "file %zu was changed", i); } }); break; }
        case 8: case 9: { // some ranks have a type that does not convert
            bool write = kind == 9; vector<size_t> cnt = gen_split(r, N, g.n); vector<int> bad(g.n); int nb = 0; for(int i = 0; i < g.n; i++) { bad[i] = cnt[i] && r.chance(1, 3); nb += bad[i]; } if(!nb) for(int i = 0; i < g.n; i++) if(cnt[i]) { bad[i] = 1; break; }
            string t = b.d.base() == "c8" || b.d.base() == "c16" ? "i4" : "c8"; vector<PArr> v = gen_arrays(c, g, b, N, write, false, &cnt); string s; for(int i = 0; i < g.n; i++) { s += bad[i] ? 'x' : '.'; if(bad[i]) { PArr &p = v[i]; p.m.buf.assign(p.n * b.nmemb * 8 + 64, 0); size_t dims[2] = {p.n, (size_t)b.nmemb}; big_array_init(&p.m.a, p.m.buf.data(), t.c_str(), 2, dims, NULL); } }
            c.note("unconvertible on " + s); must_fail(c, g, write ? "write" : "read", {t, "<" + t, b.d.str()}, rw(write, 0, N, v)); break; }
        case 10: { // a full device
            c.note(fmt("file %zu on a full device", ff)); root_do([&] { rename(df.c_str(), keep.c_str()); if(symlink("/dev/full", df.c_str())) {} }); vector<PArr> v = gen_arrays(c, g, b, N, true, false); must_fail(c, g, "write", tb, rw(true, 0, N, v)); root_do([&] { unlink(df.c_str()); rename(keep.c_str(), df.c_str()); }); break; }
        case 11: { // files missing, too short, or directories
            int how = r.below(3); c.note(fmt("file %zu %s", ff, how == 0 ? "is missing" : how == 1 ? "is too short" : "is a directory")); root_do([&] { if(how == 1) { Bytes x; read_file(df, x); rename(df.c_str(), keep.c_str()); x.resize(r.below(x.size())); write_file(df, x.data(), x.size()); } else { rename(df.c_str(), keep.c_str()); if(how == 2) mkdir(df.c_str(), 0755); } }); r = Rng(c.seed + c.index * 7);
            vector<PArr> v = gen_arrays(c, g, b, N, false, false); must_fail(c, g, "read", tb, rw(false, 0, N, v));
            root_do([&] { rm_rf(df); rename(keep.c_str(), df.c_str()); }); break; }
        case 12: case 13: { // flush or close that can not store
            bool attr = r.chance(1, 2), close = kind == 13; string p = dir + (attr ? "/attr-v2" : "/header"); c.note(fmt("%s with a directory at %s", close ? "close" : "flush", attr ? "attr-v2" : "header")); put_dir(p);
            if(attr) { if(g.member && g.rank == 0) { int v = 7; big_block_set_attr(&bb, "x", &v, "i4", 1); } }
            else { size_t s = r.below(N); MBlock bs = b; Ctx c2 = c; int who = r.below(g.n); if(g.rank == who) local([&] { BigBlockPtr q; write_rows(c2, &bb, &q, bs, s, 1, bs.d, 0); }); agree(); }
            if(g.member) big_file_set_error_message(NULL);
            must_fail(c, g, close ? "close" : "flush", tb, coll(g, close ? "close" : "flush", [&] { return close ? big_block_mpi_close(&bb, g.comm) : big_block_mpi_flush(&bb, g.comm); })); undo(p); if(close) open = false; break; }
        case 14: case 15: { // the k-th file one rank opens can not be opened
            int who = r.below(g.n), op = r.below(6); fault_errno = r.chance(1, 2) ? EMFILE : EIO; int at = r.range(1, 3); c.note(fmt("file %d opened by rank %d in op %d fails", at, who, op)); vector<PArr> v; if(op < 2) v = gen_arrays(c, g, b, N, op == 0, false); vector<size_t> fs(r.range(1, 12), 1); bool failed = false; fault_fired = 0; if(op == 3 && g.member && g.rank == 0) { int x = 7; big_block_set_attr(&bb, "x", &x, "i4", 1); big_block_set_dirty(&bb, 1); }
            if(op < 2) must(g, "seek", [&] { return big_block_seek(&bb, &ptr, 0); }); if(g.rank == who) fault_at = at; static const char *nm[] = {"write", "read", "create_block", "flush", "grow", "open_block"};
            failed = coll(g, nm[op], [&] { switch(op) { case 0: return big_block_mpi_write(&bb, &ptr, &v[g.rank].m.a, conc, g.comm); case 1: return big_block_mpi_read(&bb, &ptr, &v[g.rank].m.a, conc, g.comm); case 2: return _big_file_mpi_create_block(&bf, &b2, "E", "i4", 1, fs.size(), fs.data(), g.comm); case 3: return big_block_mpi_flush(&bb, g.comm); case 4: return big_block_mpi_grow(&bb, fs.size(), fs.data(), g.comm); default: return big_file_mpi_open_block(&bf, &b2, b.name.c_str(), g.comm); } });
            int fired; PMPI_Allreduce(&fault_fired, &fired, 1, MPI_INT, MPI_MAX, WORLD); fault_at = 0; c.st(fired ? "open_faults_fired" : "open_faults_missed");
            if(fired && op != 5) must_fail(c, g, nm[op], {}, failed); else if(failed && !fired) throw Fail{"failed-without-cause", fmt("%s fails", nm[op])};
            if(!failed && op == 4) b.grow(fs); if(!failed && (op == 2 || op == 5)) must(g, "close-block", [&] { return big_block_mpi_close(&b2, g.comm); });
            if(failed && op == 4) { if(g.member) local([&] { check_desc(&bb, b, "after a failed growth"); }); agree(); }
            break; }
        case 16: { // records
            BigRecordType rt; memset(&rt, 0, sizeof rt); big_record_type_add(&rt, b.name.c_str(), b.d.str().c_str(), b.nmemb); int how = r.below(4); if(how == 0) big_record_type_add(&rt, miss.c_str(), "i4", 1); else if(how == 3) { root_do([&] { mkdirs(root + "/R"); write_file(root + "/R/header", "x", 1); }); big_record_type_add(&rt, "R", "i4", 1); } big_record_type_complete(&rt);
            must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); open = false; vector<size_t> cnt = gen_split(r, N + (how == 1 ? 3 : 0), g.n); bool write = r.chance(1, 2); Bytes buf((g.member ? cnt[g.rank] : 0) * rt.itemsize + 64); c.note(fmt("records how %d", how));
            if(how == 2) must_fail(c, g, "create_records", {"rw", "a+"}, coll(g, "create_records", [&] { return big_file_mpi_create_records(&bf, &rt, "rw", 1, one, g.comm); }));
            else must_fail(c, g, write ? "write_records" : "read_records", {how == 0 ? miss : how == 3 ? string("R") : b.name}, coll(g, "records", [&] { return write ? big_file_mpi_write_records(&bf, &rt, 0, cnt[g.rank], buf.data(), conc, g.comm) : big_file_mpi_read_records(&bf, &rt, 0, cnt[g.rank], buf.data(), conc, g.comm); }));
            big_record_type_clear(&rt); break; }
    }
    // everything works again
    c.note("afterwards"); r = Rng(c.seed * 131 + c.index);
    if(open && r.chance(1, 2)) { must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); open = false; }
    if(!open) must(g, "open-block", [&] { return big_file_mpi_open_block(&bf, &bb, b.name.c_str(), g.comm); });
    N = b.rows(); if(g.member) local([&] { check_desc(&bb, b, "afterwards"); }); agree();
    coll_write(c, g, &bb, &ptr, b, 0, N, false); coll_read(c, g, &bb, &ptr, b, 0, N, false); must(g, "flush", [&] { return big_block_mpi_flush(&bb, g.comm); }); must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); must(g, "close-file", [&] { return big_file_mpi_close(&bf, g.comm); });
    on_root([&] { check_disk_data(dir, b); }); c.st("recovered");
    c.nontrivial = g.n > 1; c.sig = c.desc;
}

// ------------------------------------------------------------------ C19
static MPI_Datatype gen_type(Rng &r, int &extent, vector<int> &used, bool &own) {
    own = false; used.clear();
    switch(r.below(6)) {
        case 0: extent = 4; for(int i = 0; i < 4; i++) used.push_back(i); return MPI_INT;
        case 1: extent = 8; for(int i = 0; i < 8; i++) used.push_back(i); return MPI_DOUBLE;
        case 2: extent = 1; used.push_back(0); return MPI_BYTE;
        case 3: { int k = r.range(1, 37); MPI_Datatype t; PMPI_Type_contiguous(k, MPI_BYTE, &t); MPI_Type_commit(&t); extent = k; for(int i = 0; i < k; i++) used.push_back(i); own = true; return t; }
        case 4: { int k = r.range(1, 9), e = k + r.below(8); MPI_Datatype t, u; PMPI_Type_contiguous(k, MPI_BYTE, &t); MPI_Type_create_resized(t, 0, e, &u); PMPI_Type_free(&t); MPI_Type_commit(&u); extent = e; for(int i = 0; i < k; i++) used.push_back(i); own = true; return u; }
        default: { int m = r.range(1, 4), k = r.range(1, 3), s = k + r.below(3); MPI_Datatype t, u; MPI_Type_vector(m, k, s, MPI_BYTE, &t); int e = m * s; MPI_Type_create_resized(t, 0, e, &u); PMPI_Type_free(&t); MPI_Type_commit(&u); extent = e; for(int j = 0; j < m; j++) for(int i = 0; i < k; i++) used.push_back(j * s + i); own = true; return u; }
    }
}
static vector<int> gen_displs(Rng &r, const vector<int> &cnt, int &total, bool packed) {
    int n = cnt.size(); vector<int> d(n), ord(n); for(int i = 0; i < n; i++) ord[i] = i; if(!packed) for(int i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    total = 0; for(int i : ord) { if(!packed && r.chance(1, 2)) total += r.below(4); d[i] = total; total += cnt[i]; } return d;
}
static void a2a(Ctx &c, Grp &g) {
    Rng &r = c.r; int n = g.n; vector<vector<int>> cnt(n, vector<int>(n, 0)); int style = r.below(5);
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) switch(style) { case 0: cnt[i][j] = r.below(6); break; case 1: cnt[i][j] = r.chance(1, 4) ? r.range(1, 20) : 0; break; case 2: cnt[i][j] = j == (i + 1) % n ? 5 : 0; break; case 3: cnt[i][j] = r.chance(1, 10) ? (c.tier || r.chance(1, 3) ? 20000 : 300) : 1; break; default: cnt[i][j] = i == 0 || j == 0 ? r.below(4) : 0; }
    if(r.chance(1, 20)) for(auto &x : cnt) std::fill(x.begin(), x.end(), 0);
    int ext; vector<int> used; bool own; MPI_Datatype t = gen_type(r, ext, used, own); bool nosd = r.chance(1, 2), norc = r.chance(1, 3), nord = r.chance(1, 2); vector<vector<int>> sd(n), rd(n); vector<int> st(n), rt(n); vector<Bytes> sb(n); vector<vector<int>> rc(n);
    MPI_Datatype rtp = t; int rext = ext, mul = 1; MPI_Datatype big = MPI_DATATYPE_NULL; // another type on the receiving side
    if(!norc && (t == MPI_INT || t == MPI_DOUBLE || t == MPI_BYTE) && r.chance(1, 4)) { mul = r.range(2, 4); PMPI_Type_contiguous(mul, t, &big); MPI_Type_commit(&big); }
    for(int i = 0; i < n; i++) { rc[i].resize(n); for(int j = 0; j < n; j++) rc[i][j] = cnt[j][i] * (big != MPI_DATATYPE_NULL ? mul : 1); }
    MPI_Datatype stp = big != MPI_DATATYPE_NULL ? big : t; int sext = big != MPI_DATATYPE_NULL ? ext * mul : ext;
    for(int i = 0; i < n; i++) { sd[i] = gen_displs(r, cnt[i], st[i], nosd); rd[i] = gen_displs(r, rc[i], rt[i], nord); sb[i].resize((size_t)st[i] * sext + 32); r.fill(sb[i].data(), sb[i].size()); }
    int pol = r.below(3); bool ask = r.chance(1, 3); uint64_t fillseed = r.u64();
    c.note(fmt("alltoallv %d ranks policy %d style %d extent %d%s%s%s x%d%s", n, pol, style, ext, nosd ? " no-sdispls" : "", norc ? " no-recvcnts" : "", nord ? " no-rdispls" : "", mul, ask ? " ask" : ""));
    if(g.member) local([&] {
        int k = g.rank; auto scnt = cnt[k], ssd = sd[k], rcc = rc[k], rdd = rd[k]; Bytes send = sb[k];
        if(ask) { int tot = MPIU_Alltoallv(send.data(), scnt.data(), nosd ? NULL : ssd.data(), stp, NULL, norc ? NULL : rcc.data(), nord ? NULL : rdd.data(), rtp, g.comm, (MPIU_AlltoallvSparsePolicy)pol); int want = 0; for(int x : rc[k]) want += x; CHECK(tot == want, "total", "the announced total is %d, expected %d", tot, want); }
        Bytes got((size_t)rt[k] * rext + 64), want; Rng f(fillseed + k); f.fill(got.data(), got.size()); want = got;
        int e = MPIU_Alltoallv(send.data(), scnt.data(), nosd ? NULL : ssd.data(), stp, got.data() + 16, norc ? NULL : rcc.data(), nord ? NULL : rdd.data(), rtp, g.comm, (MPIU_AlltoallvSparsePolicy)pol);
        PMPI_Alltoallv(send.data(), cnt[k].data(), sd[k].data(), stp, want.data() + 16, rc[k].data(), rd[k].data(), rtp, g.comm);
        CHECK(e == 0, "alltoallv-failed", "returns %d", e);
        CHECK(got == want, "alltoallv", "the received data differ from those of MPI_Alltoallv (rank %d of %d)", k, n);
        CHECK(send == sb[k] && scnt == cnt[k] && ssd == sd[k] && rcc == rc[k] && rdd == rd[k], "inputs-modified", "an input was modified");
        // what the reference should have delivered, by definition
        for(int j = 0; j < n && mul == 1; j++) for(int x = 0; x < rc[k][j]; x++) for(int u : used) CHECK(got[16 + (size_t)(rd[k][j] + x) * ext + u] == sb[j][(size_t)(sd[j][k] + x) * ext + u], "alltoallv", "item %d from rank %d is wrong", x, j);
    });
    if(big != MPI_DATATYPE_NULL) PMPI_Type_free(&big); if(own) PMPI_Type_free(&t); agree(); c.st(fmt("alltoallv_policy%d", pol)); long items = 0; for(auto &x : cnt) for(int y : x) items += y; c.st("items_exchanged", items); if(ask) c.st("sizes_asked"); if(norc) c.st("no_recvcnts");
}
static void gatscat(Ctx &c, Grp &g) {
    Rng &r = c.r; int n = g.n, root = r.below(n); size_t el = r.chance(1, 2) ? 8 : r.range(1, 60); vector<int> cnt(n); vector<int> off(n + 1, 0); for(int i = 0; i < n; i++) { cnt[i] = r.chance(1, 3) ? 0 : r.chance(1, 10) ? r.range(100, 5000) : r.range(1, 9); off[i + 1] = off[i] + cnt[i]; } Bytes all(off[n] * el); r.fill(all.data(), all.size()); bool nulls = r.chance(1, 2), tot = r.chance(2, 3); uint64_t fs = r.u64();
    c.note(fmt("gather/scatter %d ranks root %d el %zu total %d%s", n, root, el, off[n], nulls ? " allocating" : ""));
    if(g.member) local([&] {
        int k = g.rank; Bytes mine(all.begin() + off[k] * el, all.begin() + off[k + 1] * el); Bytes send(mine); send.resize(send.size() + 8); Bytes rb(off[n] * el + 64); Rng f(fs + k); f.fill(rb.data(), rb.size()); Bytes keep(rb); int t = -77;
        bool own = nulls; u8 *out = (u8 *)MPIU_Gather(g.comm, root, send.data(), own ? NULL : rb.data() + 32, cnt[k], el, tot ? &t : NULL);
        if(k == root) { CHECK(out && (own || out == rb.data() + 32), "gather", "no buffer returned"); CHECK(!memcmp(out, all.data(), all.size()), "gather", "the gathered data are not those of the ranks in order"); if(tot) CHECK(t == off[n], "gather-total", "total on the root is %d, expected %d", t, off[n]); if(!own) { CHECK(!memcmp(rb.data(), keep.data(), 32) && !memcmp(&rb[32 + all.size()], &keep[32 + all.size()], 32), "guard", "memory outside the receive buffer was modified"); } else MPIU_Free(out); }
        else { if(!own) CHECK(rb == keep, "gather", "the buffer of a rank other than the root was modified"); else if(out) MPIU_Free(out); if(tot) CHECK(t == 0, "gather-total", "total on rank %d is %d", k, t); }
        CHECK(!memcmp(send.data(), mine.data(), mine.size()), "inputs-modified", "the sent data were modified");
        // and back
        Bytes src(k == root ? all : Bytes(8)); Bytes back(mine.size() + 64); f.fill(back.data(), back.size()); keep = back; t = -77;
        u8 *p = (u8 *)MPIU_Scatter(g.comm, root, src.data(), own ? NULL : back.data() + 32, cnt[k], el, tot ? &t : NULL);
        CHECK(p && (own || p == back.data() + 32), "scatter", "no buffer returned"); CHECK(!memcmp(p, mine.data(), mine.size()), "scatter", "rank %d of %d did not get its part", k, n); if(tot) CHECK(t == (k == root ? off[n] : 0), "scatter-total", "total on rank %d is %d, root is %d, sum %d", k, t, root, off[n]);
        if(own) MPIU_Free(p); else CHECK(!memcmp(back.data(), keep.data(), 32) && !memcmp(&back[32 + mine.size()], &keep[32 + mine.size()], 32), "guard", "memory outside the receive buffer was modified");
        if(k == root) CHECK(src == all, "inputs-modified", "the scattered data were modified");
    });
    agree(); c.st("gathers"); c.st("scatters");
}
template<class T> static void getloc_t(Ctx &c, Grp &g, MPI_Datatype t, const char *name) {
    Rng &r = c.r; int n = g.n; vector<T> v(n); int style = r.below(3); for(auto &x : v) x = style == 0 ? (T)r.range(1, 3) : style == 1 ? (T)((int64_t)r.u64() >> r.below(60)) : (T)r.range(-2, 2) ; for(auto &x : v) if(x == 0) x = 0;
    bool mx = r.chance(1, 2); int want = mx ? std::max_element(v.begin(), v.end()) - v.begin() : std::min_element(v.begin(), v.end()) - v.begin();
    string s; for(auto &x : v) s += fmt("%g ", (double)x); c.note(fmt("getloc %s %s of ", mx ? "max" : "min", name) + s);
    if(g.member) { T x = v[g.rank]; int got = MPIU_GetLoc(&x, t, mx ? MPI_MAX : MPI_MIN, g.comm); LCHECK(got == want, "getloc", "%s of %s: %d, expected %d", mx ? "max" : "min", s.c_str(), got, want); }
    agree(); c.st("extrema");
}
static long mem_live = 0, mem_total = 0;
static void *cnt_malloc(const char *, size_t n, const char *, const int, void *u) { (*(long *)u)++; mem_total++; return malloc(n + 16 ? n + 16 : 16); }
static void cnt_free(void *p, const char *, const int, void *u) { if(p) (*(long *)u)--; free(p); }
static void c19(Ctx &c) {
    Grp g(c); mpiu_set_malloc(cnt_malloc, cnt_free, &mem_live); mem_live = 0; int k = c.r.range(2, 6); long cb = comm_balance, tb = type_balance;
    for(int i = 0; i < k; i++) switch(c.r.below(5)) {
        case 0: case 1: a2a(c, g); break; case 2: gatscat(c, g); break;
        default: switch(c.r.below(6)) { case 0: getloc_t<int>(c, g, MPI_INT, "int"); break; case 1: getloc_t<long>(c, g, MPI_LONG, "long"); break; case 2: getloc_t<double>(c, g, MPI_DOUBLE, "double"); break; case 3: getloc_t<float>(c, g, MPI_FLOAT, "float"); break; case 4: getloc_t<short>(c, g, MPI_SHORT, "short"); break; default: getloc_t<unsigned char>(c, g, MPI_UNSIGNED_CHAR, "unsigned char"); }
    }
    if(g.member) { LCHECK(mem_live == 0, "allocator", "%ld allocations through the allocator are left", mem_live); LCHECK(comm_balance == cb && type_balance == tb, "handles", "%ld communicators and %ld types are left", comm_balance - cb, type_balance - tb); } agree();
    c.nontrivial = g.n > 1; c.sig = c.desc; c.st("allocations", mem_total); mem_total = 0;
}

// ------------------------------------------------------------------ C20
static void c20(Ctx &c) {
    Grp g(c); Rng &r = c.r; int n = g.n; int rounds = r.range(3, 8);
    for(int q = 0; q < rounds; q++) {
        vector<size_t> s(n), s2(n); int style = r.below(5); for(int i = 0; i < n; i++) switch(style) { case 0: s[i] = r.below(10); break; case 1: s[i] = r.chance(1, 2) ? 0 : r.below(100); break; case 2: s[i] = 7; break; case 3: s[i] = r.chance(1, n) ? ((size_t)1 << r.range(20, 50)) : r.below(4); break; default: s[i] = 0; }
        if(style == 4 && r.chance(2, 3)) s[r.below(n)] = r.range(1, 9); size_t tot = 0; for(size_t x : s) tot += x;
        bool two = r.chance(1, 3); for(int i = 0; i < n; i++) s2[i] = r.chance(1, 3) ? 0 : r.below(40); int ng = r.chance(1, 3) ? n : (int)r.range(1, n + 3); size_t seg; switch(r.below(5)) { case 0: seg = 0; break; case 1: seg = tot / ng; break; case 2: seg = tot + 1; break; case 3: seg = r.below(12); break; default: seg = r.below(tot + 2); }
        string d; for(int i = 0; i < n; i++) d += two ? fmt("%zu/%zu ", s[i], s2[i]) : fmt("%zu ", s[i]); c.note("sizes " + d + fmt("seg %zu groups %d", seg, ng));
        vector<int> rec(9 + 3 * n + 3, -9); vector<int> all; size_t off = 0; for(int i = 0; i < g.rank; i++) off += s[i];
        if(g.member) local([&] {
            vector<size_t> sz(n, 12345); size_t my = 777; size_t t = MPIU_Segmenter_collect_sizes(s[g.rank], sz.data(), &my, g.comm);
            CHECK(t == tot, "total", "the total is %zu, expected %zu", t, tot); CHECK(sz == s, "sizes", "the sizes collected differ"); CHECK(my == off, "offset", "the offset is %zu, expected %zu", my, off);
            MPIU_Segmenter S; memset(&S, 0x5a, sizeof S); long cb = comm_balance; vector<size_t> a = s, b = s2; MPIU_Segmenter_init(&S, a.data(), two ? b.data() : NULL, seg, ng, g.comm); CHECK(a == s && b == s2, "inputs-modified", "the sizes were modified");
            rec[0] = S.Ngroup; rec[1] = S.Nsegments; rec[2] = S.GroupID; rec[3] = S.ThisSegment; rec[4] = S.segment_start; rec[5] = S.segment_end; rec[6] = S.is_group_leader; rec[7] = S.group_leader_rank; rec[8] = S.segment_leader_rank;
            MPI_Group base; MPI_Comm_group(g.comm, &base); MPI_Comm cs[3] = {S.Group, S.Segment, S.Leaders};
            for(int k = 0; k < 3; k++) { int m; PMPI_Comm_size(cs[k], &m); rec[9 + 3 * n + k] = m; MPI_Group gr; MPI_Comm_group(cs[k], &gr); for(int i = 0; i < m; i++) { int w; MPI_Group_translate_ranks(gr, 1, &i, base, &w); rec[9 + k * n + i] = w; } MPI_Group_free(&gr); }
            MPI_Group_free(&base); MPIU_Segmenter_destroy(&S); CHECK(comm_balance == cb, "communicators", "%ld communicators are left after destroy", comm_balance - cb);
        });
        agree(); int W = rec.size(); all.resize((size_t)W * n); if(g.member) PMPI_Allgather(rec.data(), W, MPI_INT, all.data(), W, MPI_INT, g.comm);
        if(g.member) local([&] {
            auto F = [&](int rk, int f) { return all[(size_t)rk * W + f]; }; auto list = [&](int rk, int k) { vector<int> v; int m = F(rk, 9 + 3 * n + k); for(int i = 0; i < m; i++) v.push_back(F(rk, 9 + k * n + i)); return v; };
            // the segments, as stated
            vector<int> want(n, -1), data(n); size_t cur = 0, cur2 = 0; int color = 0; for(int i = 0; i < n; i++) { data[i] = s[i] || (two && s2[i]); cur += s[i]; cur2 += two ? s2[i] : 0; if(data[i]) want[i] = color; if(cur > seg || cur2 > seg) { cur = cur2 = 0; color++; } }
            set<int> groups; int lastseg = -1, lastgrp = -1;
            for(int i = 0; i < n; i++) {
                vector<int> seg_m, grp_m, seg_w, lead; for(int j = 0; j < n; j++) { if(F(j, 2) == F(i, 2) && data[j] == data[i]) grp_m.push_back(j); if(F(j, 3) == F(i, 3) && data[j] == data[i]) seg_m.push_back(j); if(data[i] && data[j] && want[j] == want[i]) seg_w.push_back(j); if(!!F(j, 6) == !!F(i, 6)) lead.push_back(j); }
                CHECK(F(i, 0) == ng, "ngroup", "rank %d reports %d groups, %d requested", i, F(i, 0), ng); CHECK(F(i, 1) == F(0, 1), "nsegments", "ranks report different numbers of segments");
                CHECK(list(i, 0) == grp_m, "group-comm", "the communicator of the group of rank %d does not consist of the ranks of its group in order", i);
                CHECK(list(i, 1) == seg_m, "segment-comm", "the communicator of the segment of rank %d does not consist of the ranks of its segment in order", i);
                CHECK(list(i, 2) == lead, "leaders-comm", "the communicator of the leaders as seen by rank %d is not that of the leaders (others) in order", i);
                int nl = 0; for(int j : grp_m) nl += !!F(j, 6); CHECK(nl == 1, "leaders", "the group of rank %d has %d leaders", i, nl);
                int gl = F(i, 7), sl = F(i, 8); CHECK(gl >= 0 && gl < (int)grp_m.size() && sl >= 0 && sl < (int)seg_m.size(), "leader-rank", "leader ranks %d %d of rank %d", gl, sl, i); CHECK(F(grp_m[gl], 6), "leader-rank", "the leader of the group named by rank %d does not lead", i);
                for(int j : grp_m) CHECK(s[j] <= s[grp_m[gl]], "group-leader", "rank %d leads the group of rank %d but rank %d has more data", grp_m[gl], i, j); for(int j : seg_m) { CHECK(s[j] >= s[seg_m[sl]], "segment-leader", "rank %d leads the segment of rank %d but rank %d has less data", seg_m[sl], i, j); CHECK(F(j, 8) == sl, "segment-leader", "ranks of a segment name different leaders"); }
                for(int j : grp_m) CHECK(F(j, 7) == gl, "group-leader", "ranks of a group name different leaders");
                if(!data[i]) { for(int j = 0; j < n; j++) if(data[j]) CHECK(F(j, 2) != F(i, 2) && F(j, 3) != F(i, 3), "empty-rank", "rank %d without data is in the group or segment of rank %d, which has data", i, j); c.st("ranks_without_data"); continue; }
                CHECK(seg_m == seg_w, "segments", "the segment of rank %d is not what the sizes give", i); CHECK(F(i, 3) >= 0 && F(i, 3) < F(i, 1), "segment-id", "rank %d is in segment %d of %d", i, F(i, 3), F(i, 1)); CHECK(F(i, 2) >= 0 && F(i, 2) < ng, "group-id", "rank %d is in group %d of %d", i, F(i, 2), ng);
                CHECK(F(i, 3) >= lastseg && F(i, 2) >= lastgrp, "order", "segments or groups are not in rank order"); lastseg = F(i, 3); lastgrp = F(i, 2); groups.insert(F(i, 2));
                for(int j : seg_m) CHECK(F(j, 2) == F(i, 2), "segment-split", "segment %d is in several groups", F(i, 3));
                int lo = 1 << 30, hi = -1; for(int j : grp_m) { lo = std::min(lo, F(j, 3)); hi = std::max(hi, F(j, 3)); } CHECK(F(i, 4) == lo && F(i, 5) == hi + 1, "segment-range", "rank %d has the range [%d,%d), its group has segments %d..%d", i, F(i, 4), F(i, 5), lo, hi);
            }
            CHECK((int)groups.size() <= ng, "groups", "%zu groups for %d requested", groups.size(), ng); int nseg = 0, last = -1; for(int i = 0; i < n; i++) if(data[i] && want[i] != last) { nseg++; last = want[i]; } { int tail = want[n - 1] < 0 && (last < 0 || color > last);
                int got = F(0, 1); CHECK(got >= nseg && got <= nseg + tail, "segment-count", "%d segments are reported, ranks with data are in %d%s", got, nseg, tail ? " and the last ranks have none" : ""); c.st("segment_counts"); }
            if(nseg > 1) c.st("several_segments"); if(groups.size() > 1) c.st("several_groups"); if((int)groups.size() < nseg) c.st("groups_of_several_segments"); if(two) c.st("secondary_sizes");
        });
        agree(); c.st("segmentations");
    }
    c.nontrivial = g.n > 1; c.sig = c.desc;
}

// ------------------------------------------------------------------ C29
static void c29(Ctx &c) {
    Grp g(c, 2); Rng &r = c.r; MBlock b; b.name = "B"; b.d = gen_dt(r, false); b.nmemb = r.range(1, 3); int nf = r.range(1, 6); vector<size_t> fs; for(int i = 0; i < nf; i++) fs.push_back(r.range(2, 30)); b.layout(fs); small_buffer(c, b); size_t N = b.rows(); BigFile bf; BigBlock bb; BigBlockPtr ptr; memset(&ptr, 0, sizeof ptr); string root = c.dir + "/f";
    string sf = c.dir + "/shared"; on_root([&] { Bytes z(4096, 0); write_file(sf, z.data(), z.size()); }); int fd = ::open(sf.c_str(), O_RDWR); shared = (Shared *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); ::close(fd);
    must(g, "create-file", [&] { return big_file_mpi_create(&bf, root.c_str(), g.comm); }); coll_create(c, g, &bf, &bb, b);
    struct Unmap { ~Unmap() { watch = false; watched.clear(); munmap(shared, 4096); shared = NULL; } } unmap;
    for(int k = 0; k < 4; k++) {
        bool write = k == 0 || r.chance(1, 2); vector<size_t> cnt = r.chance(2, 3) ? vector<size_t>(g.n) : gen_split(r, N, g.n); if(!cnt.empty() && std::all_of(cnt.begin(), cnt.end(), [](size_t x) { return !x; })) for(int i = 0; i < g.n; i++) cnt[i] = N * (i + 1) / g.n - N * i / g.n;
        vector<PArr> v = gen_arrays(c, g, b, N, write, false, &cnt); int conc = r.range(1, g.n); size_t th = r.chance(1, 2) ? r.below(4) : gen_thresh(r, N); big_file_mpi_set_aggregated_threshold(th); c.note(fmt("%s conc %d thresh %zu", write ? "write" : "read", conc, th));
        slow_us = r.range(100, 2500); PMPI_Barrier(WORLD); if(wrank == 0) { shared->active = 0; shared->maxactive = 0; shared->opens = 0; } PMPI_Barrier(WORLD); watch = true;
        must(g, "seek", [&] { return big_block_seek(&bb, &ptr, 0); }); must(g, write ? "write" : "read", [&] { return write ? big_block_mpi_write(&bb, &ptr, &v[g.rank].m.a, conc, g.comm) : big_block_mpi_read(&bb, &ptr, &v[g.rank].m.a, conc, g.comm); }); watch = false;
        if(write) for(auto &p : v) if(p.n) b.put(p.off, p.n, p.stored.data());
        int mx = shared->maxactive; long op = shared->opens; LCHECK(mx <= conc, "concurrency", "%d ranks %s data files at once, the limit is %d (threshold %zu, %d ranks)", mx, write ? "wrote" : "read", conc, th, g.n); LCHECK(N == 0 || op > 0, "harness", "no file access was observed"); agree();
        c.st("transfers_watched"); c.st("file_accesses", op); if(mx > 1) c.st("parallel_transfers"); if(mx == conc) c.st("limit_reached"); int nz = 0; for(size_t x : cnt) nz += x > 0; if(conc < nz) c.st("limited_transfers");
    }
    must(g, "close-block", [&] { return big_block_mpi_close(&bb, g.comm); }); must(g, "close-file", [&] { return big_file_mpi_close(&bf, g.comm); }); on_root([&] { check_disk_data(root + "/B", b); });
    c.nontrivial = true; c.sig = c.desc;
}

// ------------------------------------------------------------------ C21, collective part
static void c21m(Ctx &c) {
    Grp g(c); Rng &r = c.r; RT t = gen_rt(r, ""); c.note(t.desc()); string root = c.dir + "/f"; BigFile bf; Blocks bl; BigRecordType rt; { size_t s[] = {1, 7, 64, 4096, 65536}; big_file_set_buffer_size(s[r.below(5)]); }
    must(g, "create-file", [&] { return big_file_mpi_create(&bf, root.c_str(), g.comm); }); build_rt(r, t, &rt); local([&] { check_rt(t, &rt); }); agree();
    vector<size_t> fs = gen_fsize(r, 40, 6); must(g, "create-records", [&] { return big_file_mpi_create_records(&bf, &rt, "w+", fs.size(), fs.data(), g.comm); }); for(auto &x : t.f) { MBlock b; b.name = x.name; b.d = x.d; b.nmemb = x.nmemb; b.layout(fs); bl[x.name] = b; }
    int nops = r.range(2, 8);
    for(int k = 0; k < nops; k++) {
        const MBlock &b0 = bl.begin()->second; size_t N = b0.rows(), s, n; int conc = gen_conc(r, g.n); big_file_mpi_set_aggregated_threshold(gen_thresh(r, N)); pick_range(r, b0, s, n); RT u = vary_rt(r, t, true);
        switch(r.below(5)) {
            case 0: case 1: { BigRecordType ut; build_rt(r, u, &ut); vector<size_t> cnt = gen_split(r, n, g.n); c.note(fmt("write [%zu,+%zu) of ", s, n) + u.desc()); Bytes rec; vector<Bytes> st; gen_records(r, u, n, bl, rec, st); size_t off = 0; for(int i = 0; i < g.rank; i++) off += cnt[i]; size_t mn = g.member ? cnt[g.rank] : 0; Bytes mine(rec.begin() + off * u.itemsize * g.member, rec.begin() + (off * g.member + mn) * u.itemsize); mine.insert(mine.end(), 16, 0x11); Bytes keep(mine);
                must(g, "write-records", [&] { return big_file_mpi_write_records(&bf, &ut, s, mn, mine.data(), conc, g.comm); }); LCHECK(mine == keep, "source-modified", "the written records were modified"); agree(); for(size_t f = 0; f < u.f.size(); f++) if(n) bl[u.f[f].name].put(s, n, st[f].data()); big_record_type_clear(&ut); c.st("mpi_records_written", n); break; }
            case 2: case 3: { bool all = true; for(auto &x : u.f) all = all && bl[x.name].all_written(s, n); if(!all) break; BigRecordType ut; build_rt(r, u, &ut); vector<size_t> cnt = gen_split(r, n, g.n); size_t off = 0; for(int i = 0; i < g.rank; i++) off += cnt[i]; size_t mn = g.member ? cnt[g.rank] : 0; Bytes buf(mn * u.itemsize + 64, 0x33); c.note(fmt("read [%zu,+%zu) of ", s, n) + u.desc());
                must(g, "read-records", [&] { return big_file_mpi_read_records(&bf, &ut, s, mn, buf.data() + 32, conc, g.comm); }); big_record_type_clear(&ut); if(g.member) local([&] { check_records(u, s + off, mn, bl, buf.data() + 32); for(int i = 0; i < 32; i++) CHECK(buf[i] == 0x33 && buf[32 + mn * u.itemsize + i] == 0x33, "guard", "memory outside of the records was modified"); }); agree(); c.st("mpi_records_read", n); break; }
            default: { vector<size_t> add = gen_fsize(r, 20, 3); c.note(fmt("append %zu files", add.size())); must(g, "append-records", [&] { return big_file_mpi_create_records(&bf, &rt, "a+", add.size(), add.data(), g.comm); }); for(auto &x : bl) x.second.grow(add); c.st("mpi_appends"); }
        }
    }
    on_root([&] { for(auto &x : bl) { check_disk_header(root + "/" + x.first, x.second, true); check_disk_data(root + "/" + x.first, x.second); } }); c.st("mpi_blocks_compared", bl.size());
    big_record_type_clear(&rt); must(g, "close-file", [&] { return big_file_mpi_close(&bf, g.comm); }); c.nontrivial = g.n > 1 && t.f.size() > 1; c.sig = c.desc;
}

// ------------------------------------------------------------------ C13: the histories of C17 and C18 release everything
static void c13m(Ctx &c) {
    Rng r0 = c.r; uint64_t s0 = c.seed; struct Off { ~Off() { tracking = false; track_in = 0; } } off; track_init();
    for(int rep = 0; ; rep++) { // what is allocated once and kept is not a leak
        c.r = r0; c.seed = s0; c.desc.clear(); if(wrank == 0) { rm_rf(c.dir); mkdir(c.dir.c_str(), 0755); } PMPI_Barrier(WORLD);
        char rd[4096]; track_dir = realpath(c.dir.c_str(), rd) ? rd : c.dir; track_reset(); track_total = calls_tracked = 0; long cb = comm_balance, tb = type_balance; tracking = true;
        uint64_t i0 = c.index;
        try { if(i0 % 2) { c.index = i0 / 2; c18(c); } else c17(c); } catch(const Fail &f) { c.index = i0; if(f.key == "fd-leak") throw; c.st("not_judged"); return; } // only leaks are judged here
        c.index = i0;
        tracking = false; big_file_set_error_message(NULL); LCHECK(comm_balance == cb && type_balance == tb, "handles", "%ld communicators and %ld types are left", comm_balance - cb, type_balance - tb);
        long live = track_live, any, tot[2] = {track_total, calls_tracked}, sum[2]; PMPI_Allreduce(&live, &any, 1, MPI_LONG, MPI_MAX, WORLD); PMPI_Allreduce(tot, sum, 2, MPI_LONG, MPI_SUM, WORLD); c.st("mpi_allocations", sum[0]); c.st("mpi_calls_tracked", sum[1]);
        if(rep == 2 && live) { string s; int n = 0; for(auto &t : track_tab) if(t.p && n++ < 8) s += fmt("%zu bytes from call %d; ", t.n, t.op); soft(Fail{"memory-leak", fmt("rank %d: %ld allocations of the library are alive after everything was closed: %s", wrank, live, s.c_str())}); }
        agree(); if(!any) break;
    }
}

#ifndef MODES
#define MODES {"C13M", c13m}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21M", c21m}, {"C29", c29}
#endif
int main(int argc, char **argv) { return run_modes_mpi(argc, argv, {MODES}); }
