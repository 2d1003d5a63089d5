// C10 malformed files, C13 resources, C14 error messages.
#include <sys/resource.h>
#include <pthread.h>
#include "model.h"
#include "track.h"

// ------------------------------------------------------------------ C10
static const vector<string> &nasty_ints() {
    static vector<string> v = {"0", "-1", "1", "2", "-2147483648", "2147483647", "2147483646", "2147483645", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "4611686018427387904", "2305843009213693952", "1152921504606846976", "999999999999999999999999", "1e5", "0x10", "007", "+3", "", "nan", "65535", "65536", "16777216", "100000", "1000000", "1048577", "536870912", "268435456", "  5", "5abc"};
    return v;
}
static const vector<string> &nasty_tokens() {
    static vector<string> v = {"<i4", ">i4", "=i8", "|S1", "i4", "<f8", "<c16", ">c8", "<b1", "<i16", "<i17", "<i0", "<i-4", "<S16", "<S99999", "<i", "<", "", "x", "<x4", "<i4567890123", "%s%s%n", "####", "....", "<f99999", "<U9", "<i4x", "<c1", "<c3", ">i3", "<S0016", "<i1", "\xff\xfe", "DTYPE:", "NMEMB:", "NFILE:", ":", "000000:", "FFFFFF:", "-1:", "00000G:", "000001", "80000000:", "7FFFFFFF:", "#HUMANE", "[", "]"};
    return v;
}
struct Tok { size_t a, b; };
static vector<Tok> tokens(const string &s) { vector<Tok> v; size_t i = 0; while(i < s.size()) { while(i < s.size() && isspace((u8)s[i])) i++; size_t j = i; while(j < s.size() && !isspace((u8)s[j])) j++; if(j > i) v.push_back({i, j}); i = j; } return v; }
static string mutate_text(Rng &r, string s) {
    int k = r.range(1, r.chance(1, 4) ? 6 : 2);
    while(k-- > 0) switch(r.below(13)) {
        case 0: case 1: case 2: { auto t = tokens(s); if(t.empty()) break; Tok q = t[r.below(t.size())]; s = s.substr(0, q.a) + r.pick(nasty_ints()) + s.substr(q.b); break; }
        case 3: case 4: { auto t = tokens(s); if(t.empty()) break; Tok q = t[r.below(t.size())]; s = s.substr(0, q.a) + r.pick(nasty_tokens()) + s.substr(q.b); break; }
        case 5: s.resize(r.below(s.size() + 1)); break;
        case 6: if(s.size()) s[r.below(s.size())] = (char)r.below(256); break;
        case 7: if(s.size()) s[r.below(s.size())] ^= 1 << r.below(8); break;
        case 8: { size_t i = r.below(s.size() + 1), n = r.below(s.size() - i + 1); if(n > 40) n = r.below(40); s.erase(i, n); break; }
        case 9: { size_t i = r.below(s.size() + 1), n = r.below(s.size() - i + 1), at = r.below(s.size() + 1); s.insert(at, s.substr(i, n)); break; }
        case 10: { string x; for(int j = r.range(1, 30); j > 0; j--) x += (char)(r.chance(1, 3) ? r.pick(vector<char>{' ', '\n', '\t', '\0', ':'}) : r.below(256)); s.insert(r.below(s.size() + 1), x); break; }
        case 11: { vector<string> l; size_t i = 0; while(i < s.size()) { size_t e = s.find('\n', i); if(e == string::npos) e = s.size() - 1; l.push_back(s.substr(i, e - i + 1)); i = e + 1; } if(l.size() < 2) break;
            switch(r.below(3)) { case 0: l.erase(l.begin() + r.below(l.size())); break; case 1: l.insert(l.begin() + r.below(l.size()), r.pick(l)); break; default: std::swap(l[r.below(l.size())], l[r.below(l.size())]); }
            s.clear(); for(auto &x : l) s += x; break; }
        default: { auto t = tokens(s); if(t.size() < 2) break; Tok p = t[r.below(t.size())], q = t[r.below(t.size())]; string w = s.substr(p.a, p.b - p.a); s = s.substr(0, q.a) + w + s.substr(q.b); }
    }
    return s;
}
static string mutate_v1(Rng &r, string s) {
    int k = r.range(1, 3);
    static const vector<int> ints = {0, -1, 1, 2, INT32_MAX, INT32_MIN, INT32_MAX - 1, 0x10000000, 0x20000000, 0x40000000, 255, 65536, 7, 16};
    while(k-- > 0) switch(r.below(7)) {
        case 0: case 1: if(s.size() >= 4) { int v = r.pick(ints); size_t at = r.chance(1, 2) ? (r.chance(1, 2) ? 0 : 4) : r.below(s.size() - 3); if(at + 4 <= s.size()) memcpy(&s[at], &v, 4); } break;
        case 2: s.resize(r.below(s.size() + 1)); break;
        case 3: if(s.size()) s[r.below(s.size())] = (char)r.below(256); break;
        case 4: if(s.size() > 16) { string t = r.pick(nasty_tokens()); t.resize(8, '\0'); memcpy(&s[8], t.data(), 8); } break;
        case 5: { size_t i = r.below(s.size() + 1), n = r.below(s.size() - i + 1); if(r.chance(1, 2)) s.erase(i, n); else s.insert(r.below(s.size() + 1), s.substr(i, n)); break; }
        default: { string x(r.range(1, 40), '\0'); r.fill(&x[0], x.size()); s.insert(r.below(s.size() + 1), x); }
    }
    return s;
}
static void need_msg(const char *op) { const char *m = big_file_get_error_message(); CHECK(m && m[0], "no-message", "%s failed without an error message", op); }
#define OP(name, call) ({ big_file_set_error_message(NULL); int rt__ = (call); if(rt__ != 0) { need_msg(name); c.st("failed_ops"); } else c.st("ok_ops"); rt__; })

// every use of a block that was opened from damaged metadata
static void use_block(Ctx &c, BigFile *bf, const string &name, bool keeps = true) {
    Rng &r = c.r; BigBlock bb; memset(&bb, 0x5a, sizeof bb);
    if(OP("open_block", big_file_open_block(bf, &bb, name.c_str()))) { c.st("opens_refused"); return; }
    c.st("opens_accepted");
    CHECK(bb.Nfile >= 0 && bb.nmemb >= 0 && memchr(bb.dtype, 0, 8), "inconsistent", "opened with Nfile %d nmemb %d", bb.Nfile, bb.nmemb);
    size_t o = 0;
    for(int i = 0; i < bb.Nfile; i++) { CHECK(bb.foffset[i] == o, "inconsistent", "offsets are not the sums of the sizes"); o += bb.fsize[i]; }
    CHECK(bb.foffset[bb.Nfile] == o && bb.size == o, "inconsistent", "size %zu, sum %zu", bb.size, o);
    size_t item = big_file_dtype_itemsize(bb.dtype), fel = item * bb.nmemb;
    map<string, RAttr> at = api_attrs(&bb);
    for(auto &a : at) {
        size_t nb = a.second.data.size(); u8 *p = (u8 *)malloc(nb ? nb : 1);
        CHECK(0 == OP("get_attr", big_block_get_attr(&bb, a.first.c_str(), p, a.second.dtype.c_str(), a.second.nmemb)), "attr-unreadable", "attribute %s %s is listed but not readable: %s", a.first.c_str(), a.second.dtype.c_str(), errmsg());
        CHECK(!memcmp(p, a.second.data.data(), nb), "attr-mismatch", "get_attr differs from the list");
        OP("get_attr", big_block_get_attr(&bb, a.first.c_str(), p, a.second.dtype.c_str(), a.second.nmemb + 1));
        int isz = itemsize_of(a.second.dtype); char out[256];
        for(long k = 0; k < a.second.nmemb && k < 4; k++) big_file_dtype_format(out, a.second.dtype.c_str(), a.second.data.data() + k * isz, NULL);
        free(p); c.st("attrs_seen");
    }
    static const vector<string> as = {"<i8", "<f8", ">i4", "<c16", "<S16", "<u4", "<b1", "<i2"};
    for(int k = 0; k < 6; k++) {
        BigBlockPtr p; memset(&p, 0, sizeof p); ptrdiff_t off;
        switch(r.below(7)) { case 0: off = 0; break; case 1: off = r.below(6); break; case 2: off = bb.size; break; case 3: off = (ptrdiff_t)bb.size - (ptrdiff_t)r.below(4); break; case 4: off = -(ptrdiff_t)r.below(4); break; case 5: off = r.below(bb.size + 1); break; default: off = bb.Nfile ? bb.foffset[r.below(bb.Nfile)] : 0; }
        if(OP("seek", big_block_seek(&bb, &p, off))) continue;
        if(fel > (8u << 20) && !r.chance(1, 10)) continue;
        string t = r.chance(1, 2) ? string(bb.dtype) : r.pick(as); size_t isz = big_file_dtype_itemsize(t.c_str());
        size_t n = r.below(r.chance(1, 5) ? 50 : 4); if((n + 1) * (isz * bb.nmemb + 1) > (64u << 20)) n = 0;
        if(r.chance(2, 3)) {
            size_t dims[2] = {n, (size_t)bb.nmemb}; vector<u8> buf(n * bb.nmemb * isz + 1); BigArray a; big_array_init(&a, buf.data(), t.c_str(), 2, dims, NULL);
            if(bb.nmemb > 0 && isz > 0) { if(r.chance(3, 4)) OP("read", big_block_read(&bb, &p, &a)); else if(fel < (1 << 20) && bb.size < (1u << 30)) { r.fill(buf.data(), buf.size()); for(auto &b : buf) b &= 1; OP("write", big_block_write(&bb, &p, &a)); c.st("writes"); } }
        } else {
            // also all that the header announces
            ptrdiff_t want = r.chance(1, 3) ? (ptrdiff_t)bb.size : (ptrdiff_t)n; if(r.chance(1, 5)) want = PTRDIFF_MAX;
            BigArray a; memset(&a, 0, sizeof a);
            if(0 == OP("read_simple", big_block_read_simple(&bb, off < 0 ? 0 : off, want, &a, r.chance(1, 2) ? NULL : t.c_str()))) { free(a.data); c.st("simple_reads"); }
        }
        big_block_eof(&bb, &p); OP("seek_rel", big_block_seek_rel(&bb, &p, r.range(-3, 3)));
    }
    bool changed = false;
    if(r.chance(1, 2)) { int v = 5; if(0 == OP("set_attr", big_block_set_attr(&bb, "added", &v, "i4", 1))) { RAttr a; a.dtype = "<i4"; a.nmemb = 1; a.data.assign((u8 *)&v, (u8 *)&v + 4); at["added"] = a; changed = true; } }
    if(r.chance(1, 3) && at.size()) { string nm = at.begin()->first; CHECK(0 == OP("remove_attr", big_block_remove_attr(&bb, nm.c_str())), "attr-unremovable", "listed attribute %s cannot be removed", nm.c_str()); at.erase(nm); changed = true; }
    if(r.chance(1, 6) && bb.Nfile < 2000) { size_t fs[2] = {1, 2}; if(bb.size < (1ull << 50)) OP("grow", big_block_grow(&bb, 2, fs)); }
    if(r.chance(1, 3)) OP("flush", big_block_flush(&bb));
    if(0 == OP("close", big_block_close(&bb)) && changed && keeps) {
        BigBlock b2;
        CHECK(0 == big_file_open_block(bf, &b2, name.c_str()), "reopen-failed", "the block could be opened, annotated and closed, but not reopened: %s", errmsg());
        string e = attr_diff(api_attrs(&b2), at); CHECK(e.empty(), "attrs-lost", "after annotating an opened block: %s", e.c_str());
        big_block_close(&b2); c.st("reopened");
    }
}
static string slurp(const string &p) { Bytes b; read_file(p, b); return string(b.begin(), b.end()); }
static void spew(const string &p, const string &s) { write_file(p, s.data(), s.size()); }
static void c10(Ctx &c) {
    Rng &r = c.r; MBlock b; b.name = r.chance(1, 3) ? "g/b" : "b"; b.d = gen_dt(r); b.nmemb = gen_nmemb(r);
    b.layout(gen_fsize(r, 40, 8)); string root = c.dir + "/f", dir = root + "/" + b.name;
    for(size_t i = 0; i < b.rows(); i++) { Bytes v(b.felsize()); for(int k = 0; k < b.nmemb; k++) gen_value(r, b.d, &v[k * b.d.size]); b.put(i, 1, v.data()); }
    bool legacy = r.chance(1, 3);
    for(int k = r.below(5); k > 0; k--) { AttrVal v; do v = gen_attr_v(r, legacy); while(v.data.size() > 400); RAttr a; a.dtype = normalized(v.dtype); a.nmemb = v.nmemb; a.data = v.data; b.attrs[v.name] = a; }
    ref_write_block(r, dir, b, legacy, false); set_buffer(r, b.felsize());
    if(r.chance(1, 3)) big_file_set_buffer_size(1 << r.range(3, 12));
    BigFile bf; CHECK(0 == big_file_open(&bf, root.c_str()), "open-failed", "%s", errmsg());
    int what = r.below(10); uint64_t h = 0;
    if(what < 3 || what >= 7) { // metadata text
        string f = what < 2 ? "/header" : legacy ? "/attr" : "/attr-v2"; if(what == 9 && r.chance(1, 2)) f = "/header";
        string s = slurp(dir + f), m; bool v1 = f == "/attr";
        if(r.chance(1, 12)) { m.resize(r.below(300)); r.fill(&m[0], m.size()); if(r.chance(1, 3)) m = s + m; if(r.chance(1, 4)) m = "DTYPE: <i4\nNMEMB: 1\nNFILE: 2\n" + m; }
        else m = v1 ? mutate_v1(r, s) : mutate_text(r, s);
        spew(dir + f, m); c.note(fmt("%s replaced by %zu bytes: %s", f.c_str(), m.size(), jstr(m.substr(0, 300)).c_str())); h = hash_str(m);
        if(r.chance(1, 10)) { string m2 = mutate_text(r, slurp(dir + "/header")); spew(dir + "/header", m2); h ^= hash_str(m2); }
        use_block(c, &bf, b.name); c.st("mutated_" + f.substr(1)); c.nontrivial = m != s;
    } else if(what == 3) { // missing or of another kind
        static const vector<string> fs = {"/header", "/attr", "/attr-v2", "/000000"}; string f = r.pick(fs); unlink((dir + f).c_str());
        int k = r.below(4);
        if(k == 1) mkdir((dir + f).c_str(), 0755); else if(k == 2) symlink("/dev/null", (dir + f).c_str()); else if(k == 3) symlink((f.substr(1)).c_str(), (dir + f).c_str());
        c.note(fmt("%s %s", f.c_str(), k == 0 ? "removed" : k == 1 ? "is a directory" : k == 2 ? "is empty device" : "links to itself")); h = k * 7 + hash_str(f); use_block(c, &bf, b.name, k < 2); c.st("replaced_files"); c.nontrivial = true;
        h ^= hash_str(b.desc());
    } else { // data files truncated, removed or longer
        vector<long> have; size_t f = b.felsize();
        for(size_t i = 0; i < b.fsize.size(); i++) {
            long n = b.fsize[i] * f; string p = disk_datafile(dir, i);
            if(r.chance(1, 2)) have.push_back(n);
            else if(r.chance(1, 6)) { unlink(p.c_str()); have.push_back(-1); }
            else if(r.chance(1, 6)) { string s = slurp(p); s += "trailing"; spew(p, s); have.push_back(n); }
            else { long k = r.below(n + 1); if(r.chance(1, 2) && f) k = k / f * f; if(truncate(p.c_str(), k)) _exit(97); have.push_back(k); }
        }
        c.note("truncated " + b.desc()); for(long x : have) c.note(fmt("%ld", x));
        BigBlock bb; must_open(c, &bf, &bb, b.name); vector<bool> ok; vector<int> fileof;
        for(size_t i = 0; i < b.fsize.size(); i++) for(size_t k = 0; k < b.fsize[i]; k++) ok.push_back(have[i] >= (long)((k + 1) * f)), fileof.push_back(i);
        auto tryread = [&](size_t s, size_t n) {
            bool want = true; for(size_t i = s; i < s + n; i++) want = want && ok[i];
            BigBlockPtr p; CHECK(0 == big_block_seek(&bb, &p, s), "seek-failed", "%s", errmsg());
            Bytes buf(n * f + 1); size_t dims[2] = {n, (size_t)b.nmemb}; BigArray a; big_array_init(&a, buf.data(), b.d.str().c_str(), 2, dims, NULL);
            int rt = OP("read", big_block_read(&bb, &p, &a));
            CHECK((rt == 0) == want, want ? "present-rows-unreadable" : "missing-rows-read", "rows [%zu,+%zu) of %s: %s", s, n, b.desc().c_str(), rt ? errmsg() : "success although rows are missing");
            if(rt == 0) CHECK(!memcmp(buf.data(), &b.data[s * f], n * f), "present-rows-wrong", "rows [%zu,+%zu)", s, n);
            BigArray q; memset(&q, 0, sizeof q); rt = OP("read_simple", big_block_read_simple(&bb, s, n, &q, NULL));
            CHECK((rt == 0) == want, want ? "present-rows-unreadable" : "missing-rows-read", "read_simple of rows [%zu,+%zu): %s", s, n, rt ? errmsg() : "success although rows are missing");
            if(rt == 0) { int d = memcmp(q.data, &b.data[s * f], n * f); free(q.data); CHECK(!d, "present-rows-wrong", "read_simple of rows [%zu,+%zu)", s, n); }
            c.st(want ? "present_reads" : "missing_reads");
        };
        for(size_t i = 0; i < ok.size(); i++) tryread(i, 1);
        for(int k = 0; k < 8; k++) { size_t s, n; pick_range(r, b, s, n); if(n) tryread(s, n); }
        must_close(c, &bb); h = hash_str(c.desc); c.nontrivial = b.rows() > 0; c.st("truncated_blocks");
    }
    char **names; int nn; big_file_list(&bf, &names, &nn); for(int i = 0; i < nn; i++) free(names[i]); free(names);
    big_file_close(&bf); c.sig = fmt("%d-%llx", what, (unsigned long long)h);
}

// ------------------------------------------------------------------ C13
struct Limit { // makes the next call fail in a generic way
    struct rlimit nofile, fsz; int kind;
    Limit(int k) : kind(k) {
        getrlimit(RLIMIT_NOFILE, &nofile); getrlimit(RLIMIT_FSIZE, &fsz);
        if(k == 1) { struct rlimit l = nofile; l.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &l); }
        if(k == 2) { struct rlimit l = fsz; l.rlim_cur = 0; setrlimit(RLIMIT_FSIZE, &l); }
    }
    ~Limit() { if(kind == 1) setrlimit(RLIMIT_NOFILE, &nofile); if(kind == 2) setrlimit(RLIMIT_FSIZE, &fsz); }
};
static void spoil(Rng &r, const string &dir, map<string, string> &undo) { // damages one file of a block
    static const vector<string> fs = {"/header", "/attr-v2", "/000000", "/000001", "/header"}; string p = dir + r.pick(fs); if(undo.count(p) || !exists(dir)) return;
    string old = exists(p) ? slurp(p) : "\x01none"; undo[p] = old;
    switch(r.below(6)) { case 0: unlink(p.c_str()); break; case 1: unlink(p.c_str()); mkdir(p.c_str(), 0755); break; case 2: unlink(p.c_str()); symlink("/dev/full", p.c_str()); break;
        case 3: if(exists(p)) truncate(p.c_str(), r.below(20)); break; default: spew(p, mutate_text(r, old)); }
}
static void unspoil(map<string, string> &undo) { for(auto &u : undo) { rm_rf(u.first); if(exists(u.first.substr(0, u.first.rfind('/'))) && u.second != "\x01none") spew(u.first, u.second); } undo.clear(); }
static void plainfile(const string &p) { struct stat st; if(!stat(p.c_str(), &st) && S_ISDIR(st.st_mode)) return; spew(p, "x"); }
static void c13_history(Ctx &c, uint64_t seed) {
    Rng r(seed); string root = c.dir + "/f"; rm_rf(c.dir); mkdir(c.dir.c_str(), 0755);
    set<string> base = open_fds(); int limit_kind = 0; long failed = 0;
    struct H { BigBlock bb; string name; }; vector<H *> hs; BigFile bf; bool haveroot = false;
    auto after = [&](const char *op) {
        track_in = 0; set<string> now = open_fds();
        if(now != base) { string s; for(auto &f : now) if(!base.count(f)) { char t[512] = {0}; if(readlink(("/proc/self/fd/" + f).c_str(), t, 511) < 0) t[0] = 0; s += t + string(" "); } FAIL("fd-leak", "after %s (%s) %zu descriptors are open, %zu before: %s", op, limit_kind == 1 ? "without descriptors" : limit_kind == 2 ? "without space" : "normally", now.size(), base.size(), s.c_str()); }
        c.st("calls");
    };
#define CALL(op, e) ({ track_op++; c.note(string(op) + (limit_kind ? fmt("(limit %d)", limit_kind) : "")); int rt_; { Limit l_(limit_kind); rt_ = LIB(e); } after(op); if(rt_) { failed++; c.st(string("failed_") + op); } rt_; })
    CHECK(0 == CALL("create", big_file_create(&bf, root.c_str())), "create-failed", "%s", errmsg()); haveroot = true;
    map<string, string> undo; int nops = r.range(6, 40); int nb = 0;
    for(int k = 0; k < nops; k++) {
        limit_kind = r.chance(1, 6) ? r.range(1, 2) : 0; int op = r.below(22);
        H *h = hs.empty() ? NULL : hs[r.below(hs.size())]; BigBlock *bb = h ? &h->bb : NULL;
        if(h && r.chance(1, 8)) spoil(r, root + "/" + h->name, undo); else if(r.chance(1, 3)) unspoil(undo);
        switch(op) {
            case 0: case 1: { // create
                H *n = new H; n->name = fmt("%sb%d", r.chance(1, 3) ? "g/" : "", nb++); vector<size_t> fs = gen_fsize(r, 30, 4); DT d = gen_dt(r); int nm = gen_nmemb(r); string ds = spell(r, d), nn = n->name; int nf = fs.size();
                switch(r.below(9)) { case 0: ds = "<x9"; break; case 1: nn += " x"; break; case 2: nm = -2; break; case 3: nn = string(300, 'n'); break; case 4: plainfile(root + "/plain"); nn = "plain/b"; break; }
                if(0 == CALL("create_block", big_file_create_block(&bf, &n->bb, nn.c_str(), ds.c_str(), nm, nf, fs.data()))) { n->name = nn; hs.push_back(n); } else delete n; break; }
            case 2: case 3: { // open
                if(!nb) break; H *n = new H; n->name = h && r.chance(2, 3) ? h->name : fmt("b%d", (int)r.below(nb + 1)); if(r.chance(1, 8)) n->name = "g/."; if(r.chance(1, 10)) n->name = string(5000, 'q');
                if(0 == CALL("open_block", big_file_open_block(&bf, &n->bb, n->name.c_str()))) hs.push_back(n); else delete n; break; }
            case 4: case 5: case 6: case 7: case 8: { // transfers
                if(!bb || bb->nmemb == 0 || bb->dtype[0] == '#') break; size_t n = r.below(bb->size + 2); if(n > 200) n = 200; DT md = gen_dt(r); if(r.chance(2, 3)) md = dt(bb->dtype);
                MemArr m; mk_array(m, r, md, n, bb->nmemb, 1, false, spell(r, md)); BigBlockPtr p; memset(&p, 0, sizeof p); if(md.numeric()) for(auto &x : m.buf) x &= 1;
                if(CALL("seek", big_block_seek(bb, &p, r.chance(1, 8) ? (ptrdiff_t)bb->size + 5 : (ptrdiff_t)r.below(bb->size + 1 - (n <= bb->size ? n : 0))))) break;
                if(op < 6) CALL("write", big_block_write(bb, &p, &m.a)); else CALL("read", big_block_read(bb, &p, &m.a)); break; }
            case 9: { if(!bb || bb->dtype[0] == '#') break; BigArray a; memset(&a, 0, sizeof a); DT md = gen_dt(r); string s = spell(r, md); if(0 == CALL("read_simple", big_block_read_simple(bb, r.range(-2, bb->size + 2), r.below(40), &a, r.chance(1, 2) ? NULL : s.c_str()))) free(a.data); break; }
            case 10: case 11: { if(!bb) break; AttrVal v = gen_attr(r); switch(r.below(6)) { case 0: v.name = "a b"; break; case 1: v.name = ""; break; case 2: v.dtype = "<x"; break; } Bytes s = v.data; s.resize(s.size() + 16); CALL("set_attr", big_block_set_attr(bb, v.name.c_str(), s.data(), v.dtype.c_str(), v.nmemb)); break; }
            case 12: { if(!bb) break; char b[64]; CALL("get_attr", big_block_get_attr(bb, gen_attr_name(r).c_str(), b, r.chance(1, 3) ? "S3" : "i8", 1)); size_t n; BigAttr *l = big_block_list_attrs(bb, &n); if(n) { string nm = l[r.below(n)].name; if(r.chance(1, 2)) CALL("remove_attr", big_block_remove_attr(bb, nm.c_str())); } else CALL("remove_attr", big_block_remove_attr(bb, "nope")); break; }
            case 13: case 14: { if(!bb || bb->dtype[0] == '#' || bb->Nfile > 40) break; vector<size_t> fs = gen_fsize(r, 20, 3); string blk; if(r.chance(1, 4)) { blk = root + "/" + h->name + fmt("/%06X", bb->Nfile + (int)r.below(fs.size())); mkdir(blk.c_str(), 0755); } CALL("grow", big_block_grow(bb, fs.size(), fs.data())); if(blk.size()) rmdir(blk.c_str()); break; }
            case 15: if(bb) CALL("flush", big_block_flush(bb)); break;
            case 16: { if(!h) break; CALL("close", big_block_close(bb)); hs.erase(std::find(hs.begin(), hs.end(), h)); delete h; break; }
            case 17: { char **nn = NULL; int n = 0; CALL("list", big_file_list(&bf, &nn, &n)); for(int i = 0; i < n; i++) free(nn[i]); free(nn); break; }
            case 18: { u8 b[64]; char o[300]; CALL("parse", big_file_dtype_parse(r.chance(1, 2) ? "12" : "zz", spell(r, gen_dt(r)).c_str(), b, NULL)); DT d = gen_dt(r); memset(b, 0, 64); LIBV(big_file_dtype_format(o, d.str().c_str(), b, NULL)); after("format"); break; }
            case 19: { BigFile b2; if(0 == CALL("open", big_file_open(&b2, r.chance(1, 2) ? root.c_str() : (root + "/missing").c_str()))) CALL("file_close", big_file_close(&b2)); if(0 == CALL("create", big_file_create(&b2, (r.chance(1, 2) ? root + "/sub/x" : root + "/plainfile/x").c_str()))) CALL("file_close", big_file_close(&b2)); break; }
            default: { // records
                BigRecordType rt; memset(&rt, 0, sizeof rt); int nf = r.range(1, 3); vector<size_t> fs = gen_fsize(r, 20, 3); string pre = fmt("r%d_", (int)r.below(3)); LIBV(big_record_type_clear(&rt)); if(r.chance(1, 4)) plainfile(root + "/plain");
                for(int f = 0; f < nf; f++) { string nm = pre + fmt("f%d", f); if(r.chance(1, 15)) nm = "plain/z"; DT d = dt(r.pick(num_bases()).c_str()); LIBV(big_record_type_set(&rt, f, nm.c_str(), d.str().c_str(), r.range(1, 3))); } LIBV(big_record_type_complete(&rt)); after("record_type");
                static const char *modes[] = {"w+", "a+", "r", "w+"}; CALL("create_records", big_file_create_records(&bf, &rt, modes[r.below(4)], fs.size(), fs.data()));
                size_t n = r.below(8); Bytes buf(n * rt.itemsize + 8); CALL("write_records", big_file_write_records(&bf, &rt, r.below(6), n, buf.data())); CALL("read_records", big_file_read_records(&bf, &rt, r.below(6), n, buf.data()));
                LIBV(big_record_type_clear(&rt)); after("record_clear"); }
        }
    }
    limit_kind = 0; if(r.chance(1, 2)) unspoil(undo);
    for(auto h : hs) { CALL("close", big_block_close(&h->bb)); delete h; }
    CALL("file_close", big_file_close(&bf)); unspoil(undo);
    c.nontrivial = failed > 0; c.st("failed_calls", failed);
}
static void c13(Ctx &c) {
    uint64_t seed = c.r.u64(); track_init();
    // what is allocated once and kept for ever is not a leak: only what every repetition leaves counts
    for(int rep = 0; ; rep++) {
        track_reset(); c.desc.clear(); c13_history(c, seed); c.st("allocations", track_total); track_total = 0;
        if(track_live == 0) break;
        if(rep == 2) { string s; int n = 0; for(auto &t : track_tab) if(t.p && n++ < 8) s += fmt("%zu bytes from call %d; ", t.n, t.op); FAIL("memory-leak", "%ld allocations of the library are alive after everything was closed: %s", track_live, s.c_str()); }
    }
    c.sig = c.desc;
}

// ------------------------------------------------------------------ C14
static string nasty_name(Rng &r, int maxlen) {
    static const vector<string> bits = {"%s", "%n", "%d", "%", "%%", "%s%s%s%s%s", "%99999d", "%*d", "%1$s", "x", "name", "\xc3\xa9", "'", "`", "\\", "\"", "\x7f", "%ld", "%p"}; string s; int n = r.chance(1, 2) ? r.range(1, 5) : r.range(1, 60);
    while(n-- > 0) s += r.pick(bits);
    if(r.chance(1, 3)) s += string(maxlen, 'L');
    if((int)s.size() > maxlen) s.resize(maxlen);
    return s;
}
static void expect_cause(Ctx &c, const char *op, const vector<string> &causes) {
    const char *m = big_file_get_error_message(); CHECK(m && m[0], "no-message", "%s failed without a message", op);
    size_t l = strlen(m); CHECK(l < 1 << 20, "message-length", "message of %zu bytes", l);
    for(auto &want : causes) { string w = want.size() > 2000 ? want.substr(0, 2000) : want; if(!strstr(m, w.c_str())) FAIL("cause-missing", "message of %s does not name '%s': '%s'", op, w.substr(0, 300).c_str(), string(m).substr(0, 500).c_str()); }
    c.st("messages"); c.st(string("msg_") + op);
}
static void c14_one(Ctx &c, Rng &r, const string &root, const string &tag, bool shared) {
    BigFile bf; BigBlock bb; BigBlockPtr p; memset(&p, 0, sizeof p); big_file_set_error_message(NULL);
    int depth = r.below(6); string pre; for(int i = 0; i < depth; i++) pre += fmt("d%d/", i);
    string nm = tag + nasty_name(r, 180), bn = pre + nm;
    CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    int first = r.below(16);
    for(int k = 0; k < 16; k++) {
        int what = (first + k) % 16; string lng = nasty_name(r, r.chance(1, 3) ? 20000 : 3500);
        for(auto &ch : lng) if(ch == '/') ch = '_';
        if(what == 0) { BigFile b2; string path = root + "/no" + nm; CHECK(0 != big_file_open(&b2, path.c_str()), "accepted", "missing file opened"); expect_cause(c, "open", {path}); }
        else if(what == 1) { BigFile b2; string path = root + "/" + lng; CHECK(0 != big_file_open(&b2, path.c_str()), "accepted", "missing file opened"); expect_cause(c, "open", {path}); }
        else if(what == 2) { string n = bn + "-missing"; CHECK(0 != big_file_open_block(&bf, &bb, n.c_str()), "accepted", "missing block opened"); expect_cause(c, "open_block", {n}); }
        else if(what == 3) { CHECK(0 != big_file_open_block(&bf, &bb, lng.c_str()), "accepted", "missing block opened"); expect_cause(c, "open_block", {lng}); }
        else if(what == 4) { string n = bn + " blank"; CHECK(0 != big_file_create_block(&bf, &bb, n.c_str(), "i4", 1, 0, NULL), "accepted", "blank name"); expect_cause(c, "create_block", {n}); }
        else if(what == 5) { if(lng.size() < 300) lng += string(300, 'z'); CHECK(0 != big_file_create_block(&bf, &bb, lng.c_str(), "i4", 1, 0, NULL), "accepted", "too long name created"); expect_cause(c, "create_block", {lng}); }
        else if(what == 6) { CHECK(0 != big_file_create_block(&bf, &bb, bn.c_str(), "<y7", 1, 0, NULL), "accepted", "bad dtype"); expect_cause(c, "create_block", {"y7"}); size_t fs[1] = {1}; CHECK(0 != big_file_create_block(&bf, &bb, bn.c_str(), "<i4", -3, 1, fs), "accepted", "nmemb -3"); expect_cause(c, "create_block", {bn, "-3"}); }
        else if(what == 7) { string f = root + "/file-" + tag; spew(f, "x"); string n = "file-" + tag + "/" + nm; CHECK(0 != big_file_create_block(&bf, &bb, n.c_str(), "i4", 1, 0, NULL), "accepted", "block below a plain file"); expect_cause(c, "create_block", {"file-" + tag}); BigFile b2; CHECK(0 != big_file_create(&b2, (f + "/" + nm).c_str()), "accepted", "file below a plain file"); expect_cause(c, "create", {f}); }
        else {
            size_t fs[2] = {3, 4}; CHECK(0 == big_file_create_block(&bf, &bb, bn.c_str(), "<i4", 2, 2, fs), "create-failed", "%s", errmsg()); string dir = root + "/" + bn;
            int v[64] = {0}; size_t dims[2] = {2, 2}; BigArray a; big_array_init(&a, v, "<i4", 2, dims, NULL); bool close_fails = false;
            if(what == 8) { ptrdiff_t off = 8 + r.below(100000); CHECK(0 != big_block_seek(&bb, &p, off), "accepted", "seek past the end"); expect_cause(c, "seek", {fmt("%td", off)}); }
            else if(what == 9) { CHECK(0 == big_block_seek(&bb, &p, 6), "seek-failed", "%s", errmsg()); CHECK(0 != big_block_read(&bb, &p, &a), "accepted", "read past the end"); expect_cause(c, "read", {bn}); CHECK(0 != big_block_write(&bb, &p, &a), "accepted", "write past the end"); expect_cause(c, "write", {bn}); }
            else if(what == 10) { unlink((dir + "/000001").c_str()); CHECK(0 == big_block_seek(&bb, &p, 4), "seek-failed", "%s", errmsg()); CHECK(0 != big_block_read(&bb, &p, &a), "accepted", "read without data file"); expect_cause(c, "read", {bn, "000001"}); BigArray q; memset(&q, 0, sizeof q); CHECK(0 != big_block_read_simple(&bb, 4, 2, &q, NULL), "accepted", "read without data file"); expect_cause(c, "read_simple", {bn, "000001"}); CHECK(0 != big_block_write(&bb, &p, &a), "accepted", "write without data file"); expect_cause(c, "write", {bn, "000001"}); }
            else if(what == 11) { char s[64] = {0}; big_array_init(&a, s, "<S7", 2, dims, NULL); CHECK(0 == big_block_seek(&bb, &p, 0), "seek-failed", "%s", errmsg()); CHECK(0 != big_block_write(&bb, &p, &a), "accepted", "S7 to i4"); expect_cause(c, "convert", {"S7", "i4"}); }
            else if(what == 12) { char buf[64] = {0}; int one = 1; string an = lng; CHECK(0 != big_block_get_attr(&bb, an.c_str(), buf, "i4", 1), "accepted", "absent attribute"); expect_cause(c, "get_attr", {an}); CHECK(0 != big_block_remove_attr(&bb, an.c_str()), "accepted", "absent attribute"); expect_cause(c, "remove_attr", {an});
                CHECK(0 == big_block_set_attr(&bb, an.c_str(), &one, "i4", 1), "set-attr-failed", "%s", errmsg()); CHECK(0 != big_block_get_attr(&bb, an.c_str(), buf, "i4", 7), "accepted", "wrong count"); expect_cause(c, "get_attr", {an}); CHECK(0 != big_block_get_attr(&bb, an.c_str(), buf, "S9", 1), "accepted", "conversion"); expect_cause(c, "get_attr", {"S9", "i4"});
                string bl = an + " b"; CHECK(0 != big_block_set_attr(&bb, bl.c_str(), &one, "i4", 1), "accepted", "blank attribute name"); expect_cause(c, "set_attr", {bl}); string bd = "q" + nasty_name(r, 300); CHECK(0 != big_block_set_attr(&bb, "dt", &one, bd.c_str(), 1), "accepted", "dtype %s", bd.c_str()); expect_cause(c, "set_attr", {bd}); CHECK(0 != big_block_set_attr(&bb, "neg", &one, "i4", -5), "accepted", "count -5"); expect_cause(c, "set_attr", {"neg", "-5"}); }
            else if(what == 13) { string blk = dir + "/000003"; mkdir(blk.c_str(), 0755); CHECK(0 != big_block_grow(&bb, 2, fs), "accepted", "grow over a directory"); expect_cause(c, "grow", {bn, "000003"}); rmdir(blk.c_str()); }
            else if(what == 14) { string h = dir + "/header"; CHECK(0 == big_block_write(&bb, &p, &a), "write-failed", "%s", errmsg()); unlink(h.c_str()); mkdir(h.c_str(), 0755); CHECK(0 != big_block_flush(&bb), "accepted", "flush over a directory"); expect_cause(c, "flush", {h}); CHECK(0 != big_block_close(&bb), "accepted", "close over a directory"); expect_cause(c, "close", {h}); rmdir(h.c_str()); close_fails = true; }
            else { char out[16]; string txt = "z" + lng; CHECK(0 != big_file_dtype_parse(txt.c_str(), "i4", out, NULL), "accepted", "text"); expect_cause(c, "parse", {txt}); CHECK(0 != big_file_dtype_parse("1", "<V3", out, NULL), "accepted", "V3"); expect_cause(c, "parse", {"V3"});
                CHECK(0 == big_block_close(&bb), "close-failed", "%s", errmsg()); close_fails = true; string h = dir + "/header"; spew(h, r.chance(1, 2) ? "DTYPE: <i4\nNMEMB: 1\nNFILE: 3\n000000: 1 : 0 : 0\n" : "garbage"); CHECK(0 != big_file_open_block(&bf, &bb, bn.c_str()), "accepted", "damaged header"); expect_cause(c, "open_damaged", {bn}); }
            // the message stays until the next error, whatever succeeds in between
            BigBlock b3; CHECK(0 == big_file_create_block(&bf, &b3, (bn + "-ok").c_str(), "<i4", 2, 2, fs), "create-failed", "%s", errmsg());
            string before = big_file_get_error_message(); big_array_init(&a, v, "<i4", 2, dims, NULL); memset(&p, 0, sizeof p);
            int rc = big_block_write(&b3, &p, &a) | big_block_seek(&b3, &p, 0) | big_block_read(&b3, &p, &a) | big_block_flush(&b3) | big_block_close(&b3); CHECK(rc == 0, "ok-failed", "%s", errmsg());
            CHECK(before == big_file_get_error_message(), "message-lost", "successful calls changed the message from '%.200s' to '%.200s'", before.c_str(), big_file_get_error_message());
            c.st("kept_messages"); if(!close_fails) big_block_close(&bb);
        }
    }
    // messages set by the user, of any length; the message itself may be set again
    string s = nasty_name(r, 20000); big_file_set_error_message((char *)s.c_str()); string got = errmsg(); CHECK(got == s.substr(0, got.size()) && got.size() >= std::min(s.size(), (size_t)1000), "set-message", "set '%.100s' get '%.100s'", s.c_str(), got.c_str());
    big_file_set_error_message(big_file_get_error_message()); CHECK(got == errmsg(), "set-message", "setting the message to itself changed it"); big_file_set_error_message(NULL);
    big_file_close(&bf);
}
struct C14T { Ctx c; Fail f; bool failed; string root, tag; pthread_t t; pthread_barrier_t *bar; };
static void *c14_thread(void *v) {
    C14T *t = (C14T *)v; pthread_barrier_wait(t->bar);
    try { c14_one(t->c, t->c.r, t->root, t->tag, true); } catch(const Fail &f) { t->f = f; t->failed = true; }
    return NULL;
}
static void c14(Ctx &c) {
    Rng &r = c.r; string root = c.dir + "/f" + nasty_name(r, 60); big_file_set_buffer_size(4096);
    for(auto &ch : root) if(ch == ' ') ch = '_';
    if(c.index % 3 != 2) { c.note("one thread, root " + root.substr(c.dir.size())); c14_one(c, r, root, "t", false); }
    else {
        int n = r.range(2, 8); c.note(fmt("%d threads", n)); vector<C14T> ts(n); pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, n);
        for(int i = 0; i < n; i++) { ts[i].c = c; ts[i].c.stat.clear(); ts[i].c.r = Rng(r.u64()); ts[i].failed = false; ts[i].root = root; ts[i].tag = fmt("t%d-", i); ts[i].bar = &bar; }
        for(auto &t : ts) if(pthread_create(&t.t, NULL, c14_thread, &t)) _exit(97);
        for(auto &t : ts) pthread_join(t.t, NULL);
        for(auto &t : ts) { for(auto &s : t.c.stat) c.stat[s.first] += s.second; if(t.failed) throw t.f; }
        pthread_barrier_destroy(&bar); c.st("threaded_cases");
    }
    c.sig = fmt("%llu", (unsigned long long)c.r.u64()); c.nontrivial = true;
}

#ifndef MODES
#define MODES {"C10", c10}, {"C13", c13}, {"C14", c14}
#endif
int main(int argc, char **argv) { signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN); return run_modes(argc, argv, {MODES}); }
