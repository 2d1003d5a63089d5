// Model of blocks driven through the serial C API.
#pragma once
#include "common.h"
extern "C" {
#include "bigfile.h"
}

static inline const char *errmsg() { const char *m = big_file_get_error_message(); return m ? m : "(no message)"; }

struct MBlock {
    string name; DT d; int nmemb; vector<size_t> fsize; Bytes data; Bytes written; vector<uint32_t> ck; map<string, RAttr> attrs;
    size_t rows() const { size_t n = 0; for(size_t s : fsize) n += s; return n; }
    size_t felsize() const { return (size_t)d.size * nmemb; }
    void layout(const vector<size_t> &fs) { fsize = fs; data.assign(rows() * felsize(), 0); written.assign(rows(), 0); ck.assign(fs.size(), 0); }
    void grow(const vector<size_t> &fs) { fsize.insert(fsize.end(), fs.begin(), fs.end()); data.resize(rows() * felsize()); written.resize(rows()); ck.resize(fsize.size()); }
    void put(size_t start, size_t n, const u8 *stored) {
        size_t f = felsize(); memcpy(&data[0] + start * f, stored, n * f);
        std::fill(written.begin() + start, written.begin() + start + n, 1);
        size_t fid = 0, off = 0; while(fid < fsize.size() && start >= off + fsize[fid]) off += fsize[fid++];
        for(size_t r = start; r < start + n; r++) {
            while(r >= off + fsize[fid]) off += fsize[fid++];
            for(size_t k = 0; k < f; k++) ck[fid] += stored[(r - start) * f + k];
        }
    }
    bool all_written(size_t a, size_t n) const { for(size_t i = a; i < a + n; i++) if(!written[i]) return false; return true; }
    string desc() const { string s = fmt("%s %s x%d [", name.c_str(), d.str().c_str(), nmemb); for(size_t i = 0; i < fsize.size() && i < 12; i++) s += fmt("%zu ", fsize[i]); return s + fmt("] Nfile=%zu", fsize.size()); }
};

static vector<size_t> gen_fsize(Rng &r, size_t maxrows, int maxfile = 12) {
    vector<size_t> v; int nf = r.chance(1, 8) ? 1 : (int)r.range(1, maxfile);
    for(int i = 0; i < nf; i++) {
        size_t s; switch(r.below(5)) { case 0: s = 0; break; case 1: s = 1; break; case 2: s = r.below(4); break; default: s = r.below(maxrows / nf + 1); }
        v.push_back(s);
    }
    return v;
}
static vector<size_t> gen_fsize_nz(Rng &r, size_t maxrows, int maxfile = 12) {
    vector<size_t> v; size_t t = 0;
    do { v = gen_fsize(r, maxrows, maxfile); t = 0; for(size_t s : v) t += s; } while(t == 0);
    return v;
}
static int gen_nmemb(Rng &r) { switch(r.below(8)) { case 0: case 1: case 2: return 1; case 3: return 2; case 4: return 3; case 5: return r.range(4, 9); case 6: return r.range(1, 5); default: return r.range(10, 40); } }

static size_t set_buffer(Rng &r, size_t felsize) {
    size_t b;
    switch(r.below(12)) {
        case 0: b = 1; break; case 1: b = felsize; break; case 2: b = felsize + 1; break; case 3: b = felsize > 1 ? felsize - 1 : 1; break;
        case 4: b = felsize * 2; break; case 5: b = felsize * r.range(2, 9); break; case 6: b = felsize * r.range(2, 9) + r.below(felsize); break;
        case 7: b = 4096; break; case 8: b = 1 << 16; break; case 9: b = r.range(1, 600); break;
        case 10: b = r.chance(1, 12) ? 64 * 1024 * 1024 : 8192; break; default: b = 1 << 20;
    }
    big_file_set_buffer_size(b); return b;
}

struct MemArr { Layout L; Bytes buf, orig; BigArray a; DT d; };
static void mk_array(MemArr &m, Rng &r, const DT &d, size_t rows, int nmemb, int style, bool bcast, const string &spelled) {
    m.d = d; m.L = gen_layout(r, rows, nmemb, d.size, style, bcast);
    m.buf.resize(m.L.bytes + 16); r.fill(m.buf.data(), m.buf.size());
    // keep elements aligned to their own size where the size is a power of two
    size_t al = (16 - ((uintptr_t)m.buf.data() & 15)) & 15; m.L.base += al; for(auto &o : m.L.off) o += al;
    big_array_init(&m.a, m.buf.data() + m.L.base, spelled.c_str(), m.L.ndim, m.L.dims, m.L.nullstrides ? NULL : m.L.strides);
    m.orig = m.buf;
}

// a write of rows [start, start+n) from memory of type md; updates the model on success
static void write_rows(Ctx &c, BigBlock *bb, BigBlockPtr *ptr, MBlock &b, size_t start, size_t n, const DT &md, int style, bool seek = true) {
    MemArr m; mk_array(m, c.r, md, n, b.nmemb, style, true, spell(c.r, md));
    Bytes stored(n * b.felsize());
    for(size_t i = 0; i < m.L.n; i++) gen_value(c.r, md, &m.buf[m.L.off[i]], &b.d);
    for(size_t i = 0; i < m.L.n; i++) { // after all stores: elements may share memory (zero strides)
        int rt = ref_convert(b.d, &stored[i * b.d.size], md, &m.buf[m.L.off[i]]);
        if(rt) FAIL("harness", "bad conversion %s->%s", md.str().c_str(), b.d.str().c_str());
    }
    m.orig = m.buf;
    c.note(fmt("write %s[%zu:+%zu] from %s %s", b.name.c_str(), start, n, m.a.dtype, m.L.desc.c_str()));
    if(seek) CHECK(0 == big_block_seek(bb, ptr, start), "seek-failed", "seek to %zu of %s: %s", start, b.desc().c_str(), errmsg());
    int rt = big_block_write(bb, ptr, &m.a);
    CHECK(rt == 0, "write-failed", "write of rows [%zu,+%zu) of %s: %s", start, n, b.desc().c_str(), errmsg());
    c.st("writes"); c.st("rows_written", n);
    if(n) b.put(start, n, stored.data());
}

// reads rows and compares them with the model; rows never written are not judged
static void read_rows(Ctx &c, BigBlock *bb, BigBlockPtr *ptr, const MBlock &b, size_t start, size_t n, const DT &md, int style, bool simple, bool seek = true) {
    bool all = b.all_written(start, n); bool conv = md.base() != b.d.base();
    u8 want[512];
    if(simple) {
        BigArray a; memset(&a, 0, sizeof a); string sp = spell(c.r, md);
        c.note(fmt("read_simple %s[%zu:+%zu] as %s", b.name.c_str(), start, n, sp.c_str()));
        int rt = big_block_read_simple(bb, start, n, &a, (md == b.d && c.r.chance(1, 2)) ? NULL : sp.c_str());
        if(!all) { if(rt == 0) free(a.data); return; }
        CHECK(rt == 0, "read-failed", "read_simple [%zu,+%zu) of %s: %s", start, n, b.desc().c_str(), errmsg());
        Bytes got((u8 *)a.data, (u8 *)a.data + n * b.nmemb * md.size); size_t gsize = a.size, g0 = a.dims[0]; free(a.data);
        CHECK(gsize == n * b.nmemb && g0 == n, "read-simple-size", "read_simple returned %zu rows, expected %zu", g0, n);
        for(size_t i = 0; i < n * b.nmemb; i++) {
            int rt = ref_convert(md, want, b.d, &b.data[(start * b.nmemb + i) * b.d.size]); if(rt == 2) continue;
            CHECK(same_value(md, want, &got[i * md.size], conv), "read-mismatch", "read_simple of %s as %s: row %zu member %zu is %s, expected %s", b.desc().c_str(), md.str().c_str(), start + i / b.nmemb, i % b.nmemb, hexs(&got[i * md.size], md.size).c_str(), hexs(want, md.size).c_str());
        }
        c.st("reads"); c.st("rows_compared", n); return;
    }
    MemArr m; mk_array(m, c.r, md, n, b.nmemb, style, false, spell(c.r, md));
    c.note(fmt("read %s[%zu:+%zu] as %s %s", b.name.c_str(), start, n, m.a.dtype, m.L.desc.c_str()));
    if(seek) CHECK(0 == big_block_seek(bb, ptr, start), "seek-failed", "seek to %zu of %s: %s", start, b.desc().c_str(), errmsg());
    int rt = big_block_read(bb, ptr, &m.a);
    CHECK(rt == 0 || !all, "read-failed", "read [%zu,+%zu) of %s as %s: %s", start, n, b.desc().c_str(), md.str().c_str(), errmsg());
    if(rt) return;
    for(size_t i = 0; i < m.L.n; i++) {
        if(!b.written[start + i / b.nmemb]) continue;
        if(2 == ref_convert(md, want, b.d, &b.data[(start * b.nmemb + i) * b.d.size])) continue;
        const u8 *got = &m.buf[m.L.off[i]];
        CHECK(same_value(md, want, got, conv), "read-mismatch", "read of %s as %s %s: row %zu member %zu is %s, expected %s", b.desc().c_str(), md.str().c_str(), m.L.desc.c_str(), start + i / b.nmemb, i % b.nmemb, hexs(got, md.size).c_str(), hexs(want, md.size).c_str());
    }
    c.st("reads"); c.st("rows_compared", n);
}
static void read_all(Ctx &c, BigBlock *bb, const MBlock &b) {
    BigBlockPtr p; size_t n = b.rows(), i = 0;
    while(i < n) { // runs of written rows
        while(i < n && !b.written[i]) i++;
        size_t j = i; while(j < n && b.written[j]) j++;
        if(j > i) read_rows(c, bb, &p, b, i, j - i, b.d, 0, false);
        i = j;
    }
}

static void must_create(Ctx &c, BigFile *bf, BigBlock *bb, const MBlock &b) {
    c.note("create " + b.desc());
    string sp = spell(c.r, b.d);
    CHECK(0 == big_file_create_block(bf, bb, b.name.c_str(), sp.c_str(), b.nmemb, b.fsize.size(), b.fsize.data()), "create-failed", "create %s: %s", b.desc().c_str(), errmsg());
}
static void must_open(Ctx &c, BigFile *bf, BigBlock *bb, const string &name) {
    c.note("open " + name);
    CHECK(0 == big_file_open_block(bf, bb, name.c_str()), "open-failed", "open %s: %s", name.c_str(), errmsg());
}
static void must_close(Ctx &c, BigBlock *bb) { c.note("close"); CHECK(0 == big_block_close(bb), "close-failed", "close: %s", errmsg()); }
static void must_flush(Ctx &c, BigBlock *bb) { c.note("flush"); CHECK(0 == big_block_flush(bb), "flush-failed", "flush: %s", errmsg()); }

static void check_desc(const BigBlock *bb, const MBlock &b, const char *when) {
    CHECK(b.d.str() == bb->dtype, "dtype", "%s: dtype is %s, expected %s", when, bb->dtype, b.d.str().c_str());
    CHECK(b.nmemb == bb->nmemb, "nmemb", "%s: nmemb is %d, expected %d", when, bb->nmemb, b.nmemb);
    CHECK((int)b.fsize.size() == bb->Nfile, "nfile", "%s: Nfile is %d, expected %zu", when, bb->Nfile, b.fsize.size());
    CHECK(b.rows() == bb->size, "size", "%s: size is %zu, expected %zu", when, bb->size, b.rows());
    size_t off = 0;
    for(size_t i = 0; i < b.fsize.size(); i++) {
        CHECK(bb->fsize[i] == b.fsize[i], "fsize", "%s: file %zu has %zu rows, expected %zu", when, i, bb->fsize[i], b.fsize[i]);
        CHECK(bb->foffset[i] == off, "foffset", "%s: file %zu starts at %zu, expected %zu", when, i, bb->foffset[i], off);
        off += b.fsize[i];
    }
}
static string attr_diff(const map<string, RAttr> &got, const map<string, RAttr> &want) {
    for(auto &w : want) {
        auto g = got.find(w.first);
        if(g == got.end()) return "attribute " + w.first + " is missing";
        if(!(g->second == w.second)) return fmt("attribute %s is %s x%ld %s, expected %s x%ld %s", w.first.c_str(), g->second.dtype.c_str(), g->second.nmemb, hexs(g->second.data.data(), g->second.data.size()).c_str(), w.second.dtype.c_str(), w.second.nmemb, hexs(w.second.data.data(), w.second.data.size()).c_str());
    }
    for(auto &g : got) if(!want.count(g.first)) return "unexpected attribute " + g.first;
    return "";
}
// attributes as seen through the API; checks uniqueness and order
static map<string, RAttr> api_attrs(BigBlock *bb) {
    map<string, RAttr> m; size_t n = 0; BigAttr *l = big_block_list_attrs(bb, &n); string last;
    for(size_t i = 0; i < n; i++) {
        RAttr a; a.dtype = l[i].dtype; a.nmemb = l[i].nmemb; size_t nb = (size_t)itemsize_of(a.dtype) * a.nmemb;
        a.data.assign((u8 *)l[i].data, (u8 *)l[i].data + nb); string name = l[i].name;
        CHECK(i == 0 || strcmp(last.c_str(), name.c_str()) < 0, "attr-order", "attributes are not listed once each in order: '%s' then '%s'", last.c_str(), name.c_str());
        m[name] = a; last = name;
    }
    return m;
}
static string normalized(const string &s) { string n = s; if(!strchr("<>|=", n[0])) n = "<" + n; if(n[0] != '>') n[0] = '<'; return n; }
static void check_disk_data(const string &dir, const MBlock &b, const char *key = "disk-data") {
    size_t row = 0, f = b.felsize();
    for(size_t i = 0; i < b.fsize.size(); i++) {
        Bytes got; CHECK(read_file(disk_datafile(dir, i), got), key, "no data file %06zX of %s", i, b.desc().c_str());
        CHECK(got.size() <= b.fsize[i] * f, key, "data file %06zX of %s has %zu bytes, more than %zu", i, b.desc().c_str(), got.size(), b.fsize[i] * f);
        for(size_t k = 0; k < b.fsize[i]; k++) if(b.written[row + k]) {
            CHECK(got.size() >= (k + 1) * f, key, "data file %06zX of %s ends before row %zu", i, b.desc().c_str(), k);
            CHECK(!memcmp(&got[k * f], &b.data[(row + k) * f], f), key, "data file %06zX of %s row %zu is %s, expected %s", i, b.desc().c_str(), k, hexs(&got[k * f], f).c_str(), hexs(&b.data[(row + k) * f], f).c_str());
        }
        if(b.fsize[i] && b.all_written(row, b.fsize[i])) CHECK(got.size() == b.fsize[i] * f, key, "data file %06zX has %zu bytes, expected %zu", i, got.size(), b.fsize[i] * f);
        row += b.fsize[i];
    }
}
static void check_disk_header(const string &dir, const MBlock &b, bool checksums, const char *key = "disk-header") {
    DiskBlock d = disk_header(dir);
    CHECK(d.err.empty(), key, "header of %s: %s", b.desc().c_str(), d.err.c_str());
    CHECK(d.dtype == b.d.str() && d.nmemb == b.nmemb && d.nfile == (long)b.fsize.size(), key, "header of %s says %s %ld %ld", b.desc().c_str(), d.dtype.c_str(), d.nmemb, d.nfile);
    for(size_t i = 0; i < b.fsize.size(); i++) {
        CHECK(d.files[i].size == b.fsize[i], key, "header of %s: file %zu size %llu", b.desc().c_str(), i, (unsigned long long)d.files[i].size);
        if(checksums) {
            CHECK(d.files[i].ck == b.ck[i], "checksum", "header of %s: checksum of file %zu is %u, expected %u", b.desc().c_str(), i, d.files[i].ck, b.ck[i]);
            CHECK(d.files[i].sysv == sysv16(b.ck[i]), "sysv", "header of %s: second sum of file %zu is %u, expected %u", b.desc().c_str(), i, d.files[i].sysv, sysv16(b.ck[i]));
        }
    }
}

// rewrites the checksums in the header of a closed block, such that sums of any size are seen: what is
// written afterwards adds to them, whether they were right or not
static void steer_checksums(Ctx &c, const string &dir, MBlock &b) {
    Rng &r = c.r; string h = fmt("DTYPE: %s\nNMEMB: %d\nNFILE: %zu\n", b.d.str().c_str(), b.nmemb, b.fsize.size());
    for(size_t i = 0; i < b.fsize.size(); i++) {
        switch(r.below(5)) {
            case 0: b.ck[i] = (uint32_t)r.u64(); break;
            case 1: b.ck[i] = 0xffffffffu - r.below(4000); break;
            case 2: b.ck[i] = ((uint32_t)r.below(65536) << 16) | (0xffff - r.below(3000)); break;
            case 3: b.ck[i] = 0x7fffffffu - r.below(3000); break;
        }
        h += fmt("%06zX: %zu : %u : %u\n", i, b.fsize[i], b.ck[i], sysv16(b.ck[i]));
    }
    write_file(dir + "/header", h.data(), h.size()); c.note("checksums steered"); c.st("steered_headers");
}

// ---- attributes
struct AttrVal { string name, dtype; int nmemb; Bytes data; };
static string gen_attr_name(Rng &r) {
    static const vector<string> pool = {"a", "b", "A", "aa", "ab", "mass", "Mass", "Time", "BoxSize", "a.b", "x/y", "#", "#HUMANE", "[", "0", "%d", "%s%n", "long_attribute_name_0123456789", "\xc3\xa9t\xc3\xa9", "\xff\x80", "\r", "a\x01" "b", "~", "!"};
    switch(r.below(8)) {
        case 0: { string s; int n = r.chance(1, 6) ? r.range(50, 400) : r.range(1, 12); for(int i = 0; i < n; i++) { char ch; do ch = (char)r.range(1, 255); while(ch == ' ' || ch == '\t' || ch == '\n' || ch == 0); s += ch; } return s; }
        case 1: case 2: return fmt("attr%d", (int)r.below(60));
        case 3: if(r.chance(1, 5)) { static const int n[] = {255, 256, 300, 1023, 1024, 2000}; return string(n[r.below(6)], 'a') + (r.chance(1, 3) ? "" : fmt("%d", (int)r.below(3))); } return string(r.range(1, 140), (char)r.range('a', 'c'));
        default: return r.pick(pool);
    }
}
static AttrVal gen_attr(Rng &r) {
    AttrVal v; v.name = gen_attr_name(r);
    static const vector<string> ts = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "b1", "a1", "S1", "S3", "i1", "u2", "f2", "f16", "S10", "a5", "U4", "V7", "?1", "M8[ns]", "S200"};
    string t = r.pick(ts); int sz = atoi(t.c_str() + 1);
    if(r.chance(1, 4) && t[0] != 'S' && t[0] != 'a') t = ">" + t; else if(r.chance(1, 3)) t = string(1, "<=|"[r.below(3)]) + t;
    v.dtype = t; switch(r.below(10)) { case 0: v.nmemb = 0; break; case 1: case 2: case 3: v.nmemb = 1; break; case 4: v.nmemb = r.range(100, 700); break; case 5: v.nmemb = r.chance(1, 10) ? r.range(1000, 9000) : 3; break; default: v.nmemb = r.range(1, 20); }
    v.data.resize((size_t)v.nmemb * sz);
    switch(r.below(4)) { case 0: std::fill(v.data.begin(), v.data.end(), r.below(256)); break; case 1: for(auto &b : v.data) b = r.range(32, 126); break; default: r.fill(v.data.data(), v.data.size()); }
    return v;
}
static void set_attr(Ctx &c, BigBlock *bb, map<string, RAttr> &m, const AttrVal &v) {
    Bytes src(v.data); src.push_back(0);
    c.note(fmt("set_attr %s %s x%d", v.name.substr(0, 40).c_str(), v.dtype.c_str(), v.nmemb));
    CHECK(0 == big_block_set_attr(bb, v.name.c_str(), src.data(), v.dtype.c_str(), v.nmemb), "set-attr-failed", "set_attr %s %s x%d: %s", v.name.c_str(), v.dtype.c_str(), v.nmemb, errmsg());
    RAttr a; a.dtype = normalized(v.dtype); a.nmemb = v.nmemb; a.data = v.data; m[v.name] = a; c.st("set_attr");
}

// ---- shared generators
static DT other_order(const DT &d) { DT o = d; if(d.size > 1 && d.kind != 'S') o.order = d.order == '<' ? '>' : '<'; return o; }

// a memory type for a block: the stored type, another byte order, or another numeric type
static DT mem_type(Rng &r, const DT &d, bool conv) {
    if(conv && d.numeric() && r.chance(1, 3)) { DT m = dt(r.pick(num_bases()).c_str()); m.order = r.chance(1, 4) ? '>' : '<'; return m; }
    if(conv && (d.base() == "c8" || d.base() == "c16") && r.chance(1, 3)) { DT m = dt(d.base() == "c8" ? "c16" : "c8"); m.order = r.chance(1, 4) ? '>' : '<'; return m; }
    return r.chance(1, 3) ? other_order(d) : d;
}

static void pick_range(Rng &r, const MBlock &b, size_t &start, size_t &n) {
    size_t N = b.rows();
    vector<size_t> edges = {0, N}; size_t o = 0; for(size_t s : b.fsize) { o += s; edges.push_back(o); }
    if(r.chance(1, 3)) { start = r.pick(edges); if(r.chance(1, 3) && start > 0) start--; }
    else start = r.below(N + 1);
    size_t end;
    if(r.chance(1, 3)) { end = r.pick(edges); if(r.chance(1, 3) && end < N) end++; } else end = start + r.below(N - start + 1);
    if(end < start) std::swap(start, end);
    n = end - start;
    if(r.chance(1, 10)) n = 0;
}

// an independent writer of the format
static void ref_write_block(Rng &r, const string &dir, const MBlock &b, bool legacy, bool shuffle) {
    mkdirs(dir);
    string h = fmt("DTYPE: %s\nNMEMB: %d\nNFILE: %zu\n", b.d.str().c_str(), b.nmemb, b.fsize.size());
    vector<int> ids; for(size_t i = 0; i < b.fsize.size(); i++) ids.push_back(i);
    if(shuffle) for(size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below(i)]);
    for(int i : ids) h += fmt("%06X: %zu : %u : %u\n", i, b.fsize[i], b.ck[i], sysv16(b.ck[i]));
    write_file(dir + "/header", h.data(), h.size());
    size_t row = 0; for(size_t i = 0; i < b.fsize.size(); i++) { write_file(disk_datafile(dir, i), b.data.data() + row * b.felsize(), b.fsize[i] * b.felsize()); row += b.fsize[i]; }
    vector<string> names; for(auto &a : b.attrs) names.push_back(a.first);
    for(size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(i)]);
    if(legacy) {
        Bytes o;
        for(auto &n : names) {
            const RAttr &a = b.attrs.at(n); int nm = a.nmemb, ln = n.size(); char t[8] = {0}; strncpy(t, a.dtype.c_str(), 8);
            auto app = [&](const void *p, size_t k) { o.insert(o.end(), (const u8 *)p, (const u8 *)p + k); };
            app(&nm, 4); app(&ln, 4); app(t, 8); app(n.data(), ln); app(a.data.data(), a.data.size());
        }
        write_file(dir + "/attr", o.data(), o.size());
    } else if(names.size() || r.chance(1, 2)) {
        string o;
        for(auto &n : names) { const RAttr &a = b.attrs.at(n); o += n + " " + a.dtype + fmt(" %ld ", a.nmemb); for(u8 x : a.data) o += fmt("%02X", x);
            switch(r.below(3)) { case 0: o += " #HUMANE [ something ]"; break; case 1: o += " "; break; default: o += " # x"; } o += "\n"; }
        write_file(dir + "/attr-v2", o.data(), o.size());
    }
}
static AttrVal gen_attr_v(Rng &r, bool legacy) {
    AttrVal v; do v = gen_attr(r); while(legacy && (v.dtype.find_first_of("aUVM?") != string::npos || itemsize_of(normalized(v.dtype)) > 16 || v.name.empty()));
    return v;
}
