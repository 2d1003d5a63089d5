// Record types and arrays of records, and what each field's block should hold.
#pragma once
#include "model.h"

struct RField { string name; DT d; int nmemb; int off; };
struct RT {
    vector<RField> f; int itemsize;
    void layout() { itemsize = 0; for(auto &x : f) { x.off = itemsize; itemsize += x.d.size * x.nmemb; } }
    string desc() const { string s = "{"; for(auto &x : f) s += x.name + " " + x.d.str() + fmt("x%d, ", x.nmemb); return s + "}"; }
};
static RT gen_rt(Rng &r, const char *prefix) {
    RT t; int n = r.chance(1, 4) ? 1 : r.chance(1, 12) ? r.range(14, 70) : r.range(2, 6); int wide = r.chance(1, 25) ? (int)r.below(n) : -1; string deep = r.chance(1, 15) ? string(r.range(60, 200), 'n') : ""; for(int i = 0; i < n; i++) { RField f; f.name = string(prefix) + (r.chance(1, 3) ? fmt("g%d/f%d", (int)r.below(2), i) : fmt("f%d", i)); f.d = gen_dt(r); f.name += deep; f.nmemb = i == wide ? r.range(100, 9000) : r.chance(1, 2) ? 1 : r.range(2, 5); t.f.push_back(f); }
    t.layout(); return t;
}
// the same blocks in another order, some of them, in other types
static RT vary_rt(Rng &r, const RT &t, bool conv) {
    RT u = t; for(size_t i = u.f.size(); i > 1; i--) if(r.chance(1, 2)) std::swap(u.f[i - 1], u.f[r.below(i)]); if(r.chance(1, 2)) u.f.resize(r.range(1, u.f.size())); for(auto &x : u.f) if(conv && r.chance(1, 2)) x.d = mem_type(r, x.d, true);
    u.layout(); return u;
}
static void build_rt(Rng &r, const RT &t, BigRecordType *o) {
    if(r.chance(1, 2)) memset(o, 0, sizeof *o); else { memset(o, 0, sizeof *o); big_record_type_clear(o); }
    vector<string> sp; for(auto &x : t.f) sp.push_back(spell(r, x.d)); int how = r.below(3), n = t.f.size();
    if(how == 0) for(int i = 0; i < n; i++) { int k = big_record_type_add(o, t.f[i].name.c_str(), sp[i].c_str(), t.f[i].nmemb); CHECK(k == i, "type-add", "the index of field %d is given as %d", i, k); }
    else if(how == 1) for(int i = 0; i < n; i++) big_record_type_set(o, i, t.f[i].name.c_str(), sp[i].c_str(), t.f[i].nmemb);
    else { vector<int> ord(n); for(int i = 0; i < n; i++) ord[i] = i; for(int i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]); for(int i : ord) { if(r.chance(1, 3)) big_record_type_set(o, i, "provisional/name", "c16", 7); big_record_type_set(o, i, t.f[i].name.c_str(), sp[i].c_str(), t.f[i].nmemb); } }
    big_record_type_complete(o);
}
static void check_rt(const RT &t, const BigRecordType *o) {
    CHECK(o->nfield == t.f.size() && o->itemsize == t.itemsize, "type-layout", "%zu fields of %zu bytes, expected %zu fields of %d", (size_t)o->nfield, (size_t)o->itemsize, t.f.size(), t.itemsize);
    for(size_t i = 0; i < t.f.size(); i++) { const RField &x = t.f[i]; auto &y = o->fields[i];
        CHECK(x.name == y.name && x.nmemb == y.nmemb && x.off == y.offset && x.d.size == y.elsize, "type-layout", "field %zu of %s is %s x%d at %d of %d bytes", i, t.desc().c_str(), y.name, y.nmemb, (int)y.offset, (int)y.elsize); }
}
typedef map<string, MBlock> Blocks;
// n records for writing; stored[k] the bytes of field k in its block's type
static void gen_records(Rng &r, const RT &t, size_t n, const Blocks &bl, Bytes &rec, vector<Bytes> &stored) {
    rec.assign(n * t.itemsize, 0); stored.assign(t.f.size(), Bytes());
    for(size_t k = 0; k < t.f.size(); k++) { const RField &x = t.f[k]; const MBlock &b = bl.at(x.name); stored[k].resize(n * b.felsize());
        for(size_t i = 0; i < n; i++) for(int m = 0; m < x.nmemb; m++) { u8 *p = &rec[i * t.itemsize + x.off + m * x.d.size]; gen_value(r, x.d, p, &b.d); if(ref_convert(b.d, &stored[k][(i * x.nmemb + m) * b.d.size], x.d, p)) { fprintf(stderr, "HARNESS: bad conversion\n"); _exit(97); } } }
}
static void check_records(const RT &t, size_t start, size_t n, const Blocks &bl, const u8 *rec) {
    u8 want[512];
    for(auto &x : t.f) { const MBlock &b = bl.at(x.name); bool cv = x.d.base() != b.d.base();
        for(size_t i = 0; i < n; i++) if(b.written[start + i]) for(int m = 0; m < x.nmemb; m++) {
            if(2 == ref_convert(x.d, want, b.d, &b.data[((start + i) * b.nmemb + m) * b.d.size])) continue;
            const u8 *got = rec + i * t.itemsize + x.off + m * x.d.size; CHECK(same_value(x.d, want, got, cv), "record-mismatch", "record %zu of %s: field %s member %d is %s, expected %s", start + i, t.desc().c_str(), x.name.c_str(), m, hexs(got, x.d.size).c_str(), hexs(want, x.d.size).c_str()); } }
}
