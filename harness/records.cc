// C21, serial part: records against columns.
#include "rec.h"

static void accessors(Ctx &c, const RT &t, const BigRecordType *o, Rng &r) {
    size_t n = r.range(1, 6); Bytes buf(n * t.itemsize + 64), orig; r.fill(buf.data(), buf.size()); orig = buf; u8 *base = buf.data() + 32;
    for(int k = 0; k < 4; k++) {
        size_t i = r.below(n), f = r.below(t.f.size()); const RField &x = t.f[f]; size_t w = x.d.size * x.nmemb, at = 32 + i * t.itemsize + x.off; Bytes v(w), g(w + 16, 0xEE); r.fill(v.data(), w);
        big_record_get(o, base, i, f, g.data() + 8); CHECK(!memcmp(g.data() + 8, &buf[at], w) && g[7] == 0xEE && g[8 + w] == 0xEE, "accessor", "big_record_get of field %zu of record %zu gives other bytes", f, i); CHECK(buf == orig, "accessor", "big_record_get modified the records");
        big_record_set(o, base, i, f, v.data()); memcpy(&orig[at], v.data(), w); CHECK(buf == orig, "accessor", "big_record_set of field %zu of record %zu modified other bytes", f, i); c.st("accessors");
    }
    for(size_t f = 0; f < t.f.size(); f++) { BigArray a; memset(&a, 0x77, sizeof a); size_t m = r.below(n + 1); const RField &x = t.f[f]; CHECK(0 == big_record_view_field(o, f, &a, m, base), "view", "view of field %zu fails: %s", f, errmsg());
        CHECK(a.ndim == 2 && a.dims[0] == m && a.dims[1] == (size_t)x.nmemb && a.size == m * x.nmemb && (u8 *)a.data == base + x.off && a.strides[0] == t.itemsize && a.strides[1] == x.d.size && normalized(a.dtype) == x.d.str(), "view", "view of field %zu of %s is %s %dd %zux%zu strides %td %td at %td", f, t.desc().c_str(), a.dtype, a.ndim, a.dims[0], a.dims[1], a.strides[0], a.strides[1], (u8 *)a.data - base); c.st("views"); }
}
static map<string, Bytes> others(const string &root, const RT &t) { map<string, Bytes> m; for(auto &f : snapshot(root)) { bool field = false; for(auto &x : t.f) if(f.first.compare(0, x.name.size() + 1, x.name + "/") == 0) field = true; if(!field && f.first.back() != '/') m[f.first] = f.second; } return m; }

static void c21(Ctx &c) {
    Rng &r = c.r; RT t = gen_rt(r, ""); c.note(t.desc()); string root = c.dir + "/f"; BigFile bf; CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    { size_t s[] = {1, 7, 64, 4096, 65536}; big_file_set_buffer_size(s[r.below(5)]); }
    // other blocks, and a field's block that exists already
    BigBlock bb; MBlock o; o.name = r.chance(1, 2) ? "other" : "g0/other"; o.d = gen_dt(r); o.nmemb = 2; o.layout({3, 4}); must_create(c, &bf, &bb, o); BigBlockPtr p; write_rows(c, &bb, &p, o, 0, 7, o.d, 0); set_attr(c, &bb, o.attrs, gen_attr(r)); must_close(c, &bb);
    if(r.chance(1, 3)) { MBlock q; q.name = t.f[r.below(t.f.size())].name; q.d = gen_dt(r); q.nmemb = 3; q.layout(gen_fsize_nz(r, 30, 6)); must_create(c, &bf, &bb, q); write_rows(c, &bb, &p, q, 0, q.rows(), q.d, 0); must_close(c, &bb); c.st("replaced"); }
    map<string, Bytes> oth = others(root, t); Blocks bl; BigRecordType rt; build_rt(r, t, &rt); check_rt(t, &rt); accessors(c, t, &rt, r);
    vector<size_t> fs = gen_fsize(r, 40, 6); { string s; for(size_t x : fs) s += fmt("%zu ", x); c.note("create_records " + s); }
    CHECK(0 == big_file_create_records(&bf, &rt, "w+", fs.size(), fs.data()), "create-records-failed", "%s", errmsg());
    for(auto &x : t.f) { MBlock b; b.name = x.name; b.d = x.d; b.nmemb = x.nmemb; b.layout(fs); bl[x.name] = b; }
    size_t N = bl.begin()->second.rows(); int nops = r.range(2, 10), appended = 0, wrote = 0;
    for(int k = 0; k < nops; k++) switch(r.below(9)) {
        case 0: case 1: case 2: { RT u = vary_rt(r, t, true); BigRecordType ut; build_rt(r, u, &ut); size_t s, n; pick_range(r, bl.begin()->second, s, n); c.note(fmt("write [%zu,+%zu) of ", s, n) + u.desc()); Bytes rec; vector<Bytes> st; gen_records(r, u, n, bl, rec, st); Bytes buf(rec); buf.insert(buf.end(), 32, 0x5a); Bytes keep(buf);
            CHECK(0 == big_file_write_records(&bf, &ut, s, n, buf.data()), "write-records-failed", "%s", errmsg()); CHECK(buf == keep, "source-modified", "the written records were modified"); for(size_t f = 0; f < u.f.size(); f++) if(n) bl[u.f[f].name].put(s, n, st[f].data()); big_record_type_clear(&ut); c.st("records_written", n); wrote += n; break; }
        case 3: case 4: { RT u = vary_rt(r, t, true); BigRecordType ut; build_rt(r, u, &ut); size_t s, n; pick_range(r, bl.begin()->second, s, n); bool all = true; for(auto &x : u.f) all = all && bl[x.name].all_written(s, n); c.note(fmt("read [%zu,+%zu) of ", s, n) + u.desc()); Bytes buf(n * u.itemsize + 64); r.fill(buf.data(), buf.size()); Bytes keep(buf);
            int e = big_file_read_records(&bf, &ut, s, n, buf.data() + 32); big_record_type_clear(&ut); CHECK(e == 0 || !all, "read-records-failed", "%s", errmsg()); CHECK(!memcmp(buf.data(), keep.data(), 32) && !memcmp(&buf[32 + n * u.itemsize], &keep[32 + n * u.itemsize], 32), "guard", "memory outside of the records was modified"); if(e) break; check_records(u, s, n, bl, buf.data() + 32); c.st("records_read", n); break; }
        case 5: { RT u = t; if(r.chance(1, 2)) { u = t; } vector<size_t> add = gen_fsize(r, 20, 3); { string s; for(size_t x : add) s += fmt("%zu ", x); c.note("append " + s); } CHECK(0 == big_file_create_records(&bf, &rt, "a+", add.size(), add.data()), "append-records-failed", "%s", errmsg()); for(auto &x : bl) x.second.grow(add); N = bl.begin()->second.rows(); appended++; c.st("appends"); break; }
        case 6: { // one column on its own: the same as a record of one field
            auto it = bl.begin(); std::advance(it, r.below(bl.size())); MBlock &b = it->second; size_t s, n; pick_range(r, b, s, n); must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "field block"); write_rows(c, &bb, &p, b, s, n, b.d, 1); if(r.chance(1, 3)) set_attr(c, &bb, b.attrs, gen_attr(r)); must_close(c, &bb); c.st("columns"); break; }
        default: { // what must fail
            map<string, Bytes> snap = snapshot(root); int how = r.below(4); size_t one[2] = {1, 1}; big_file_set_error_message(NULL);
            if(how == 0) { static const vector<string> ms = {"w", "a", "r", "r+", "", "W+", "w++", "a+b"}; string m = r.pick(ms); c.note("mode '" + m + "'"); CHECK(0 != big_file_create_records(&bf, &rt, m.c_str(), 2, one), "accepted", "mode '%s' is accepted", m.c_str()); CHECK(snapshot(root) == snap, "failed-changed", "a refused mode changed the file"); }
            else if(how == 1) { size_t s = r.below(N + 1), n = N - s + r.range(1, 4); if(r.chance(1, 3)) { s = N + r.range(1, 5); n = r.range(1, 2); } Bytes buf(n * t.itemsize + 8); c.note(fmt("out of range [%zu,+%zu) of %zu", s, n, N)); if(r.chance(1, 2)) CHECK(0 != big_file_read_records(&bf, &rt, s, n, buf.data()), "accepted", "reading rows [%zu,+%zu) of %zu succeeds", s, n, N); else CHECK(0 != big_file_write_records(&bf, &rt, s, n, buf.data()), "accepted", "writing rows [%zu,+%zu) of %zu succeeds", s, n, N); CHECK(snapshot(root) == snap, "failed-changed", "an access out of range changed the file"); }
            else { RT u = t; RField x = {"nowhere", dt("<i4"), 1, 0}; bool first = r.chance(1, 2); if(first) u.f.insert(u.f.begin(), x); else u.f.push_back(x); u.layout(); BigRecordType ut; build_rt(r, u, &ut); Bytes buf((N + 1) * u.itemsize + 8); c.note("missing field"); bool rd = how == 2 || !first; CHECK(0 != (rd ? big_file_read_records(&bf, &ut, 0, N, buf.data()) : big_file_write_records(&bf, &ut, 0, N, buf.data())), "accepted", "a missing field is accepted"); if(r.chance(1, 2) && first) CHECK(0 != big_file_create_records(&bf, &ut, "a+", 1, one), "accepted", "appending to a missing field is accepted"); big_record_type_clear(&ut); CHECK(snapshot(root) == snap, "failed-changed", "access to a missing field changed the file"); }
            const char *m = big_file_get_error_message(); CHECK(m && *m, "no-message", "no message"); c.st("refused"); }
    }
    for(auto &x : bl) { check_disk_header(root + "/" + x.first, x.second, true); check_disk_data(root + "/" + x.first, x.second); must_open(c, &bf, &bb, x.first); check_desc(&bb, x.second, "at the end"); string e = attr_diff(api_attrs(&bb), x.second.attrs); CHECK(e.empty(), "attrs", "%s", e.c_str()); read_all(c, &bb, x.second); must_close(c, &bb); c.st("blocks_compared"); }
    CHECK(others(root, t) == oth, "other-blocks", "blocks that are not fields changed");
    big_record_type_clear(&rt); CHECK(rt.nfield == 0 && !rt.fields, "type-clear", "not empty after clear"); big_file_close(&bf); c.nontrivial = t.f.size() > 1 && wrote > 0; c.sig = c.desc;
}
#ifndef MODES
#define MODES {"C21", c21}
#endif
int main(int argc, char **argv) { return run_modes(argc, argv, {MODES}); }
