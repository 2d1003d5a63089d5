// Reference-model monitors for the serial C library: C01..C09, C28.
#include "model.h"

// ------------------------------------------------------------------ C01
static void c01_sparse(Ctx &c) {
    // offsets beyond 2 and 4 GiB in sparse files
    Rng &r = c.r; MBlock b; b.name = "big"; b.d = gen_dt(r); b.nmemb = gen_nmemb(r);
    size_t f = b.felsize(); int nf = r.range(1, 3); vector<size_t> fs;
    for(int i = 0; i < nf; i++) fs.push_back(r.chance(1, 4) ? r.below(4) : ((1ull << r.range(31, 33)) / f) + r.below(1000) + (r.chance(1, 3) ? (9ull << 32) / f : 0));
    if(r.chance(1, 2)) fs.push_back(r.below(5));
    size_t N = 0; vector<size_t> mark; for(size_t s : fs) { mark.push_back(N); for(int p = 29; p <= 34; p++) { mark.push_back(N + (1ull << p) / f); mark.push_back(N + (1ull << p)); } N += s; } mark.push_back(N);
    b.fsize = fs;
    BigFile bf; CHECK(0 == big_file_create(&bf, (c.dir + "/f").c_str()), "create-failed", "%s", errmsg());
    set_buffer(r, f); BigBlock bb; must_create(c, &bf, &bb, b);
    map<size_t, Bytes> rows; bool opened = true;
    for(int op = 0; op < 25; op++) {
        if(r.chance(1, 6)) { must_close(c, &bb); must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "sparse reopen"); set_buffer(r, f); }
        size_t n = r.range(1, 12), start = r.pick(mark); size_t back = r.below(n + 1); start = start > back ? start - back : 0;
        if(r.chance(1, 4)) start = r.below(N);
        if(start + n > N) { if(n > N) n = N; start = N - n; }
        BigBlockPtr p; CHECK(0 == big_block_seek(&bb, &p, r.chance(1, 6) && start < N ? (ptrdiff_t)start - (ptrdiff_t)N : (ptrdiff_t)start), "seek-failed", "seek %zu of %s: %s", start, b.desc().c_str(), errmsg());
        if(r.chance(3, 5)) {
            MemArr m; mk_array(m, r, b.d, n, b.nmemb, 1, false, spell(r, b.d));
            for(size_t i = 0; i < m.L.n; i++) gen_value(r, b.d, &m.buf[m.L.off[i]]);
            c.note(fmt("write [%zu:+%zu]", start, n));
            CHECK(0 == big_block_write(&bb, &p, &m.a), "write-failed", "write [%zu,+%zu) of %s: %s", start, n, b.desc().c_str(), errmsg());
            for(size_t k = 0; k < n; k++) { Bytes v(f); for(int j = 0; j < b.nmemb; j++) memcpy(&v[j * b.d.size], &m.buf[m.L.off[k * b.nmemb + j]], b.d.size); rows[start + k] = v; }
            c.st("writes");
        } else if(rows.size()) {
            auto it = rows.lower_bound(start); if(it == rows.end()) it = rows.begin();
            start = it->first; n = 0; while(it != rows.end() && it->first == start + n) { n++; ++it; }
            CHECK(0 == big_block_seek(&bb, &p, start), "seek-failed", "seek");
            DT md = mem_type(r, b.d, false); MemArr m; mk_array(m, r, md, n, b.nmemb, 1, false, md.str());
            c.note(fmt("read [%zu:+%zu]", start, n));
            CHECK(0 == big_block_read(&bb, &p, &m.a), "read-failed", "read [%zu,+%zu) of %s: %s", start, n, b.desc().c_str(), errmsg());
            for(size_t i = 0; i < m.L.n; i++) { u8 w[64]; ref_convert(md, w, b.d, &rows[start + i / b.nmemb][(i % b.nmemb) * b.d.size]);
                CHECK(!memcmp(w, &m.buf[m.L.off[i]], md.size), "read-mismatch", "sparse read of row %zu of %s is %s, expected %s", start + i / b.nmemb, b.desc().c_str(), hexs(&m.buf[m.L.off[i]], md.size).c_str(), hexs(w, md.size).c_str()); }
            c.st("reads"); c.st("rows_compared", n);
        }
    }
    must_close(c, &bb); check_disk_header(c.dir + "/f/" + b.name, b, false); must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "sparse reopen");
    for(auto &kv : rows) {
        BigArray a; CHECK(0 == big_block_read_simple(&bb, kv.first, 1, &a, NULL), "read-failed", "read_simple row %zu: %s", kv.first, errmsg());
        bool same = !memcmp(a.data, kv.second.data(), f); free(a.data);
        CHECK(same, "read-mismatch", "row %zu of %s differs after reopen", kv.first, b.desc().c_str()); c.st("rows_compared");
    }
    must_close(c, &bb); big_file_close(&bf); (void)opened;
    c.st("sparse_cases"); c.sig = "sparse" + b.desc(); c.nontrivial = rows.size() > 3;
}
// transfers of 10^5 to 10^6 elements by one call, at once or in chunks, and rows of many members
static void large(Ctx &c, bool conv) {
    Rng &r = c.r; string root = c.dir + "/f"; BigFile bf; BigBlock bb; BigBlockPtr p; CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    MBlock b; b.name = "large"; b.d = gen_dt(r); size_t E = r.chance(1, 4) ? r.range(1050000, 2200000) : r.range(66000, 300000);
    if(E * b.d.size > (12u << 20)) E = (12u << 20) / b.d.size;
    { static const vector<int> nm = {1, 1, 3, 255, 257, 1000, 33000, 65536, 66000, 140000}; b.nmemb = r.pick(nm); } size_t N = std::max((size_t)1, E / b.nmemb), left = N;
    vector<size_t> fs; while(left && fs.size() < 3) { size_t s = r.chance(1, 2) ? left : 1 + r.below(left); fs.push_back(s); left -= s; } if(left) fs.push_back(left);
    b.layout(fs); must_create(c, &bf, &bb, b); c.note(fmt("large: %zu elements", N * b.nmemb));
    auto buffer = [&]() { size_t f = b.felsize(), s[] = {(size_t)64 << 20, (size_t)64 << 20, (size_t)1 << 20, 65536 * f, 65537 * f + 1, 300000, f * (N / 2 + 1)}; big_file_set_buffer_size(std::min(s[r.below(7)], (size_t)128 << 20)); };
    for(int op = 0; op < 3; op++) {
        size_t s = 0, n = N; if(op == 1) { s = r.below(N); n = r.range(1, N - s); }
        DT md = mem_type(r, b.d, conv); MemArr m; mk_array(m, r, md, n, b.nmemb, r.chance(1, 3), false, spell(r, md)); Bytes st(n * b.felsize());
        if(op < 2) {
            for(size_t i = 0; i < m.L.n; i++) { gen_value(r, md, &m.buf[m.L.off[i]], &b.d); if(ref_convert(b.d, &st[i * b.d.size], md, &m.buf[m.L.off[i]])) FAIL("harness", "bad conversion"); }
            m.orig = m.buf; buffer(); c.note(fmt("write [%zu:+%zu] from %s %s", s, n, md.str().c_str(), m.L.desc.c_str()));
            CHECK(0 == big_block_seek(&bb, &p, s) && 0 == big_block_write(&bb, &p, &m.a), "write-failed", "write [%zu,+%zu) of %s: %s", s, n, b.desc().c_str(), errmsg());
            CHECK(m.buf == m.orig, "source-modified", "a write of %zu rows of %s from %s changed the source", n, b.desc().c_str(), md.str().c_str());
            b.put(s, n, st.data());
        }
        buffer(); s = r.below(N); n = r.range(1, N - s); if(r.chance(1, 2)) { s = 0; n = N; }
        read_rows(c, &bb, &p, b, s, n, mem_type(r, b.d, conv), r.chance(1, 3), r.chance(1, 3));
        for(size_t i = 0; i < b.ck.size(); i++) CHECK(bb.fchecksum[i] == b.ck[i], "checksum", "checksum of file %zu is %u, expected %u (%s)", i, bb.fchecksum[i], b.ck[i], b.desc().c_str());
    }
    if(r.chance(1, 2)) { AttrVal v; v.name = "wide"; v.dtype = "f8"; v.nmemb = r.range(5000, 70000); v.data.resize(v.nmemb * 8); r.fill(v.data.data(), v.data.size()); set_attr(c, &bb, b.attrs, v); }
    must_close(c, &bb); check_disk_data(root + "/large", b); check_disk_header(root + "/large", b, true);
    must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "large"); buffer(); read_all(c, &bb, b);
    string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "attr-map", "after reopening: %s", e.c_str());
    must_close(c, &bb); big_file_close(&bf); c.st("large_blocks"); c.sig = c.desc; c.nontrivial = true;
}
static void c01(Ctx &c) {
    Rng &r = c.r;
    if(c.index % 40 == 13) { c01_sparse(c); return; }
    if(c.index % 251 == 31) { large(c, false); return; }
    BigFile bf; CHECK(0 == big_file_create(&bf, (c.dir + "/f").c_str()), "create-failed", "%s", errmsg());
    int nb = r.range(1, 3); vector<MBlock> B(nb); vector<BigBlock> H(nb); vector<BigBlockPtr> P(nb); vector<size_t> at(nb, 0);
    bool manyfiles = c.index % 25 == 7;
    for(int i = 0; i < nb; i++) {
        B[i].name = fmt("b%d", i); B[i].d = gen_dt(r); B[i].nmemb = gen_nmemb(r);
        vector<size_t> fs = gen_fsize(r, r.chance(1, 6) ? 600 : 80);
        if(manyfiles && i == 0) { int nf = r.chance(1, 20) ? 4200 : r.range(250, 620); fs.assign(nf, 0); for(auto &s : fs) s = r.chance(1, 3) ? r.below(4) : 0; fs[nf - 1] = 2; }
        B[i].layout(fs); must_create(c, &bf, &H[i], B[i]);
        for(int k = r.below(4); k > 0; k--) set_attr(c, &H[i], B[i].attrs, gen_attr(r));
        CHECK(0 == big_block_seek(&H[i], &P[i], 0), "seek-failed", "seek 0");
    }
    int spanning = 0, nops = r.range(4, 24); size_t bytes = 0;
    for(int op = 0; op < nops; op++) {
        int i = r.below(nb); MBlock &b = B[i]; size_t start, n;
        if(r.chance(1, 3)) set_buffer(r, b.felsize());
        pick_range(r, b, start, n);
        bool seek = true;
        if(r.chance(1, 4)) { start = at[i]; n = std::min(n, b.rows() - start); seek = false; } // go on where the last transfer ended
        if(op == 0 && r.chance(2, 3)) { start = 0; n = b.rows(); seek = true; }
        int what = r.below(10);
        size_t o = 0; for(size_t s : b.fsize) { if(s && start < o && start + n > o) spanning++; o += s; }
        if(what < 4) { write_rows(c, &H[i], &P[i], b, start, n, mem_type(r, b.d, false), 1, seek); at[i] = start + n; bytes += n; }
        else if(what < 8) { bool simple = seek && r.chance(1, 3); read_rows(c, &H[i], &P[i], b, start, n, mem_type(r, b.d, false), 1, simple, seek); if(!simple) { if(b.all_written(start, n)) at[i] = start + n; else { at[i] = 0; big_block_seek(&H[i], &P[i], 0); } } }
        else if(what < 9) { must_close(c, &H[i]); must_open(c, &bf, &H[i], b.name); check_desc(&H[i], b, "reopen"); CHECK(0 == big_block_seek(&H[i], &P[i], at[i]), "seek-failed", "seek %zu", at[i]); }
        else { must_flush(c, &H[i]); if(r.chance(1, 2)) read_all(c, &H[i], b); }
    }
    for(int i = 0; i < nb; i++) { if(r.chance(1, 2)) set_buffer(r, B[i].felsize()); read_all(c, &H[i], B[i]); must_close(c, &H[i]); }
    big_file_close(&bf);
    CHECK(0 == big_file_open(&bf, (c.dir + "/f").c_str()), "open-failed", "%s", errmsg());
    for(int i = 0; i < nb; i++) {
        must_open(c, &bf, &H[i], B[i].name); check_desc(&H[i], B[i], "after reopening"); read_all(c, &H[i], B[i]);
        string e = attr_diff(api_attrs(&H[i]), B[i].attrs); CHECK(e.empty(), "attr", "attributes of %s changed by writing: %s", B[i].name.c_str(), e.c_str());
        must_close(c, &H[i]);
    }
    big_file_close(&bf);
    c.st("spanning_transfers", spanning); c.sig = c.desc; c.nontrivial = bytes > 0 && spanning > 0;
}

// ------------------------------------------------------------------ C02
static void c02(Ctx &c) {
    if(c.index % 501 == 31) { large(c, false); return; }
    if(c.index % 101 == 17) { c01_sparse(c); return; }
    Rng &r = c.r; MBlock b; static const vector<string> names = {"x", "0/Position", "a/b/c", "Mass"};
    b.name = r.pick(names); b.d = gen_dt(r); b.nmemb = r.chance(1, 12) ? 0 : gen_nmemb(r);
    vector<size_t> fs = gen_fsize(r, r.chance(1, 5) ? 300 : 60);
    if(c.index % 20 == 3) { fs.assign(r.range(255, 520), 0); for(auto &s : fs) s = r.chance(1, 4); fs.back() = 1; }
    if(c.index % 400 == 41) { fs.assign(r.range(4096, 4400), 0); for(auto &s : fs) s = r.chance(1, 9); fs.back() = 1; }
    if(r.chance(1, 15)) fs.clear();
    b.layout(fs); string root = c.dir + "/f", dir = root + "/" + b.name; set_buffer(r, b.felsize() ? b.felsize() : 1);
    BigFile bf; BigBlock bb; BigBlockPtr p;
    if(c.index % 2 == 0) { // library writes, independent reader
        CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
        must_create(c, &bf, &bb, b); size_t N = b.rows();
        if(b.nmemb) {
            // each row once, in pieces and random order, so that the checksums are those of the files
            vector<std::pair<size_t, size_t>> pieces; size_t o = 0; while(o < N) { size_t n = 1 + r.below(r.chance(1, 3) ? N : 9); if(n > N - o) n = N - o; pieces.push_back({o, n}); o += n; }
            for(size_t i = pieces.size(); i > 1; i--) std::swap(pieces[i - 1], pieces[r.below(i)]);
            if(r.chance(1, 4) && pieces.size() > 1) pieces.pop_back();
            for(auto &q : pieces) { write_rows(c, &bb, &p, b, q.first, q.second, mem_type(r, b.d, true), 1); if(r.chance(1, 10)) { must_close(c, &bb); if(r.chance(1, 2)) steer_checksums(c, dir, b); must_open(c, &bf, &bb, b.name); } }
        }
        for(int k = r.chance(1, 5) ? r.range(15, 50) : r.below(6); k > 0; k--) set_attr(c, &bb, b.attrs, gen_attr(r));
        must_close(c, &bb); big_file_close(&bf);
        check_disk_header(dir, b, b.nmemb > 0);
        if(b.nmemb) check_disk_data(dir, b);
        map<string, RAttr> got; string e = disk_attrs(dir, got); CHECK(e.empty(), "disk-attr", "attr-v2: %s", e.c_str());
        e = attr_diff(got, b.attrs); CHECK(e.empty(), "disk-attr", "attr-v2: %s", e.c_str());
        set<string> want = {"header"}; for(size_t i = 0; i < b.fsize.size(); i++) want.insert(fmt("%06zX", i));
        for(auto &s : snapshot(dir)) if(s.first != "attr-v2") { CHECK(want.erase(s.first), "disk-files", "unexpected file %s in the block directory", s.first.c_str()); }
        CHECK(want.empty(), "disk-files", "missing file %s", want.begin()->c_str());
        if(!b.attrs.empty()) CHECK(exists(dir + "/attr-v2"), "disk-files", "no attr-v2");
        c.st("files_decoded", b.fsize.size() + 2);
    } else { // independent writer, library reads
        for(size_t i = 0; i < b.rows(); i++) { Bytes v(b.felsize()); for(int k = 0; k < b.nmemb; k++) gen_value(r, b.d, &v[k * b.d.size]); if(b.nmemb) b.put(i, 1, v.data()); }
        bool legacy = r.chance(1, 3), shuffle = r.chance(1, 2);
        for(int k = r.chance(1, 5) ? r.range(15, 50) : r.below(6); k > 0; k--) { AttrVal v = gen_attr_v(r, legacy); RAttr a; a.dtype = normalized(v.dtype); a.nmemb = v.nmemb; a.data = v.data; b.attrs[v.name] = a; }
        ref_write_block(r, dir, b, legacy, shuffle); c.note(fmt("written independently: %s legacy=%d shuffled=%d attrs=%zu", b.desc().c_str(), legacy, shuffle, b.attrs.size()));
        CHECK(0 == big_file_open(&bf, root.c_str()), "open-failed", "%s", errmsg());
        must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "foreign file");
        for(size_t i = 0; i < b.fsize.size(); i++) CHECK(bb.fchecksum[i] == b.ck[i], "foreign-checksum", "checksum of file %zu read as %u, stored %u", i, bb.fchecksum[i], b.ck[i]);
        string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "foreign-attr", "%s attributes: %s", legacy ? "legacy" : "v2", e.c_str());
        if(b.nmemb) { read_all(c, &bb, b); for(int k = 0; k < 4; k++) { size_t s, n; pick_range(r, b, s, n); read_rows(c, &bb, &p, b, s, n, mem_type(r, b.d, true), 1, r.chance(1, 3)); } }
        // what is changed through the library is read back by the independent reader too
        if(r.chance(1, 2)) {
            set_attr(c, &bb, b.attrs, gen_attr(r)); must_close(c, &bb);
            map<string, RAttr> got; e = disk_attrs(dir, got); CHECK(e.empty(), "disk-attr", "attr-v2: %s", e.c_str());
            e = attr_diff(got, b.attrs); CHECK(e.empty(), "disk-attr", "attr-v2 after changing a foreign file: %s", e.c_str());
            check_disk_header(dir, b, true); must_open(c, &bf, &bb, b.name);
            e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "foreign-attr", "attributes after the change: %s", e.c_str());
        }
        must_close(c, &bb); big_file_close(&bf); c.st("files_encoded", b.fsize.size() + 2); if(legacy) c.st("legacy_attr_files");
    }
    c.sig = c.desc; c.nontrivial = b.rows() > 1 || b.attrs.size() > 0;
}

// ------------------------------------------------------------------ C03
static void c03(Ctx &c) {
    Rng &r = c.r; if(c.index % 251 == 31) { large(c, true); return; }
    static vector<DT> all; if(all.empty()) for(const char *s : {"i4", "i8", "u4", "u8", "f4", "f8", "b1", "c8", "c16", "i1", "u1", "i2", "u2", "f2", "f16", "S1", "S4", "S8"}) { all.push_back(dt(s)); if(all.back().size > 1 && all.back().kind != 'S') { DT x = all.back(); x.order = '>'; all.push_back(x); } }
    // the cases walk through all ordered pairs
    size_t np = all.size() * all.size(), k = c.index % np; DT A = all[k / all.size()], Bt = all[k % all.size()];
    bool sup = ref_supported(Bt, A); // A -> Bt
    BigFile bf; BigBlock bb; BigBlockPtr p; CHECK(0 == big_file_create(&bf, (c.dir + "/f").c_str()), "create-failed", "%s", errmsg());
    int nmemb = r.range(1, 4); size_t rows = r.range(1, 40);
    vector<size_t> fs; size_t left = rows; while(left) { size_t s = r.chance(1, 4) ? 0 : 1 + r.below(left); fs.push_back(s); left -= s; }
    // 1. write memory A into stored Bt
    MBlock b; b.name = "w"; b.d = Bt; b.nmemb = nmemb; b.layout(fs);
    set_buffer(r, b.felsize()); must_create(c, &bf, &bb, b);
    if(sup) { write_rows(c, &bb, &p, b, 0, rows, A, 1); read_all(c, &bb, b); must_close(c, &bb); check_disk_data(c.dir + "/f/w", b, "write-conversion"); c.st("values_written", rows * nmemb); }
    else {
        MemArr m; mk_array(m, r, A, rows, nmemb, 1, false, spell(r, A)); for(size_t i = 0; i < m.L.n; i++) gen_value(r, A, &m.buf[m.L.off[i]]);
        CHECK(0 == big_block_seek(&bb, &p, 0), "seek-failed", "seek");
        c.note(fmt("unsupported write %s -> %s", A.str().c_str(), Bt.str().c_str()));
        CHECK(0 != big_block_write(&bb, &p, &m.a), "unsupported-accepted", "writing %s into a %s block reported success", A.str().c_str(), Bt.str().c_str());
        must_close(c, &bb); c.st("unsupported_refused");
    }
    // 2. read stored A into memory Bt
    MBlock s; s.name = "r"; s.d = A; s.nmemb = nmemb; s.layout(fs); must_create(c, &bf, &bb, s);
    { MemArr m; mk_array(m, r, A, rows, nmemb, 0, false, A.str()); Bytes st(rows * s.felsize());
      for(size_t i = 0; i < m.L.n; i++) { gen_value(r, A, &m.buf[m.L.off[i]], sup ? &Bt : NULL); memcpy(&st[i * A.size], &m.buf[m.L.off[i]], A.size); }
      CHECK(0 == big_block_seek(&bb, &p, 0), "seek-failed", "seek"); CHECK(0 == big_block_write(&bb, &p, &m.a), "write-failed", "%s", errmsg()); s.put(0, rows, st.data()); }
    set_buffer(r, s.felsize());
    if(sup) {
        read_rows(c, &bb, &p, s, 0, rows, Bt, 1, false); read_rows(c, &bb, &p, s, 0, rows, Bt, 1, true);
        size_t st, n; pick_range(r, s, st, n); read_rows(c, &bb, &p, s, st, n, Bt, 1, false); c.st("values_read", rows * nmemb);
    } else {
        MemArr m; mk_array(m, r, Bt, rows, nmemb, 1, false, spell(r, Bt)); CHECK(0 == big_block_seek(&bb, &p, 0), "seek-failed", "seek");
        c.note(fmt("unsupported read %s -> %s", A.str().c_str(), Bt.str().c_str()));
        CHECK(0 != big_block_read(&bb, &p, &m.a), "unsupported-accepted", "reading a %s block as %s reported success", A.str().c_str(), Bt.str().c_str());
        BigArray a; int rt = big_block_read_simple(&bb, 0, rows, &a, Bt.str().c_str()); if(rt == 0) free(a.data);
        CHECK(rt != 0, "unsupported-accepted", "read_simple of a %s block as %s reported success", A.str().c_str(), Bt.str().c_str());
    }
    // 3. attributes: stored A, read as Bt
    { int n = r.range(1, 12); Bytes src(n * A.size + 1), dst(n * Bt.size + 1); for(int i = 0; i < n; i++) gen_value(r, A, &src[i * A.size], sup ? &Bt : NULL);
      CHECK(0 == big_block_set_attr(&bb, "v", src.data(), spell(r, A).c_str(), n), "set-attr-failed", "%s", errmsg());
      if(r.chance(1, 2)) { must_close(c, &bb); must_open(c, &bf, &bb, "r"); }
      for(int rep = 0; rep < 2; rep++) {
      int rt = big_block_get_attr(&bb, "v", dst.data(), spell(r, Bt).c_str(), n);
      if(!sup) { CHECK(rt != 0, "unsupported-accepted", "attribute %s read as %s reported success", A.str().c_str(), Bt.str().c_str()); continue; }
      CHECK(rt == 0, "get-attr-failed", "get_attr %s as %s: %s", A.str().c_str(), Bt.str().c_str(), errmsg());
      for(int i = 0; i < n; i++) { u8 w[32]; if(ref_convert(Bt, w, A, &src[i * A.size])) continue; c.st("attr_values");
        CHECK(same_value(Bt, w, &dst[i * Bt.size], A.base() != Bt.base()), "attr-conversion", "attribute %s value %s read as %s is %s, expected %s", A.str().c_str(), hexs(&src[i * A.size], A.size).c_str(), Bt.str().c_str(), hexs(&dst[i * Bt.size], Bt.size).c_str(), hexs(w, Bt.size).c_str()); } }
      if(A.base() == Bt.base()) c.st("byte_order_pairs"); }
    must_close(c, &bb); big_file_close(&bf);
    c.sig = A.str() + ">" + Bt.str() + fmt("%d/%zu/%llu", nmemb, rows, (unsigned long long)c.index / np); c.nontrivial = true;
}

// ------------------------------------------------------------------ C04
// memory outside the elements must not change; the whole of a source must not change
static void guards_same(const MemArr &m, const char *what) {
    vector<u8> el(m.buf.size(), 0); for(auto o : m.L.off) for(int k = 0; k < m.L.item; k++) el[o + k] = 1;
    for(size_t i = 0; i < m.buf.size(); i++) if(!el[i] && m.buf[i] != m.orig[i]) FAIL("target-overrun", "%s changed byte %zu of the destination buffer (%zu bytes), which belongs to no element: %s %s", what, i, m.buf.size(), m.d.str().c_str(), m.L.desc.c_str());
}
static void c04(Ctx &c) {
    if(c.index % 251 == 31) { large(c, true); return; }
    Rng &r = c.r; BigFile bf; BigBlock bb; BigBlockPtr p; string root = c.dir + "/f"; CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    MBlock b; b.name = "b"; b.d = gen_dt(r); b.nmemb = gen_nmemb(r); b.layout(gen_fsize_nz(r, 60)); must_create(c, &bf, &bb, b); set_buffer(r, b.felsize());
    { // write everything first
      size_t N = b.rows(); write_rows(c, &bb, &p, b, 0, N, mem_type(r, b.d, true), 1); }
    bool odd = false;
    for(int op = 0; op < 12; op++) {
        if(r.chance(1, 4)) set_buffer(r, b.felsize());
        size_t s, n; pick_range(r, b, s, n);
        switch(r.below(6)) {
        case 0: case 1: { // the source of a write
            DT md = mem_type(r, b.d, true); MemArr m; mk_array(m, r, md, n, b.nmemb, 1, true, spell(r, md)); Bytes st(n * b.felsize());
            for(size_t i = 0; i < m.L.n; i++) gen_value(r, md, &m.buf[m.L.off[i]], &b.d);
            for(size_t i = 0; i < m.L.n; i++) ref_convert(b.d, &st[i * b.d.size], md, &m.buf[m.L.off[i]]);
            m.orig = m.buf; c.note(fmt("write [%zu:+%zu] from %s %s", s, n, md.str().c_str(), m.L.desc.c_str()));
            BigArray before = m.a;
            CHECK(0 == big_block_seek(&bb, &p, s), "seek-failed", "seek"); CHECK(0 == big_block_write(&bb, &p, &m.a), "write-failed", "%s", errmsg());
            CHECK(m.buf == m.orig, "source-modified", "writing %s from %s %s changed the source", b.desc().c_str(), md.str().c_str(), m.L.desc.c_str());
            CHECK(!memcmp(&before, &m.a, sizeof before), "source-modified", "writing changed the array description");
            if(n) b.put(s, n, st.data()); c.st("sources_compared"); if(md.order == '>' && m.L.desc[4] != '0') odd = true; break; }
        case 2: case 3: { // the destination of a read, twice
            DT md = mem_type(r, b.d, true); MemArr m; mk_array(m, r, md, n, b.nmemb, 1, false, spell(r, md)); Bytes first;
            map<string, Bytes> disk; bool look = r.chance(1, 4); if(look) disk = snapshot(root);
            for(int rep = 0; rep < 2; rep++) {
                c.note(fmt("read [%zu:+%zu] into %s %s", s, n, md.str().c_str(), m.L.desc.c_str()));
                CHECK(0 == big_block_seek(&bb, &p, s), "seek-failed", "seek"); CHECK(0 == big_block_read(&bb, &p, &m.a), "read-failed", "%s", errmsg());
                guards_same(m, "read");
                if(rep == 0) first = m.buf; else CHECK(m.buf == first, "read-not-repeatable", "reading [%zu,+%zu) of %s again gives other data", s, n, b.desc().c_str());
                for(size_t i = 0; i < m.L.n; i++) { u8 w[32]; if(2 == ref_convert(md, w, b.d, &b.data[(s * b.nmemb + i) * b.d.size])) continue; CHECK(same_value(md, w, &m.buf[m.L.off[i]], md.base() != b.d.base()), "read-mismatch", "row %zu of %s read as %s is %s, expected %s", s + i / b.nmemb, b.desc().c_str(), md.str().c_str(), hexs(&m.buf[m.L.off[i]], md.size).c_str(), hexs(w, md.size).c_str()); }
            }
            if(look) CHECK(snapshot(root) == disk, "read-changed-disk", "reading changed the files");
            c.st("targets_compared", 2); break; }
        default: { // attributes
            AttrVal v = gen_attr(r); bool num = dt(normalized(v.dtype).c_str()).numeric() && v.nmemb < 400;
            Bytes src(v.data.size() + 64); r.fill(src.data(), src.size()); memcpy(src.data() + 32, v.data.data(), v.data.size()); Bytes orig = src;
            c.note(fmt("attr %s %s x%d", v.name.substr(0, 20).c_str(), v.dtype.c_str(), v.nmemb));
            CHECK(0 == big_block_set_attr(&bb, v.name.c_str(), src.data() + 32, v.dtype.c_str(), v.nmemb), "set-attr-failed", "%s", errmsg());
            CHECK(src == orig, "source-modified", "set_attr %s x%d changed the source", v.dtype.c_str(), v.nmemb);
            RAttr a; a.dtype = normalized(v.dtype); a.nmemb = v.nmemb; a.data = v.data; b.attrs[v.name] = a;
            string as = v.dtype; if(r.chance(1, 2) && num) { as = (r.chance(1, 2) ? ">" : "<") + dt(normalized(v.dtype).c_str()).base(); }
            Bytes d1; size_t sz = (size_t)itemsize_of(normalized(as)) * v.nmemb;
            for(int rep = 0; rep < 3; rep++) {
                Bytes dst(sz + 64, (u8)(17 + op)); CHECK(0 == big_block_get_attr(&bb, v.name.c_str(), dst.data() + 32, as.c_str(), v.nmemb), "get-attr-failed", "%s", errmsg());
                for(size_t i = 0; i < 32; i++) CHECK(dst[i] == 17 + op && dst[32 + sz + i] == 17 + op, "target-overrun", "get_attr %s x%d wrote outside the destination", as.c_str(), v.nmemb);
                if(rep == 0) d1 = dst; else CHECK(dst == d1, "read-not-repeatable", "get_attr %s as %s gives other data the second time", v.dtype.c_str(), as.c_str());
                if(rep == 1 && r.chance(1, 3)) { must_close(c, &bb); must_open(c, &bf, &bb, b.name); }
            }
            string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "read-changed-attr", "after reading attributes: %s", e.c_str()); c.st("attrs_compared"); } }
    }
    must_close(c, &bb); big_file_close(&bf); c.sig = c.desc; c.nontrivial = odd || b.attrs.size();
}

// ------------------------------------------------------------------ C05
static void check_ptr(const MBlock &b, const BigBlock &bb, BigBlockPtr &p, size_t want, const char *how) {
    CHECK(p.aoffset == (ptrdiff_t)want, "position", "%s: pointer at %td, expected %zu of %s", how, p.aoffset, want, b.desc().c_str());
    CHECK(p.fileid >= 0 && p.fileid <= (int)b.fsize.size() && (ptrdiff_t)bb.foffset[p.fileid] + p.roffset == (ptrdiff_t)want, "position", "%s: file %d offset %td is not row %zu of %s", how, p.fileid, p.roffset, want, b.desc().c_str());
    CHECK(!!big_block_eof((BigBlock *)&bb, &p) == (want >= b.rows()), "eof", "%s: eof is %d at row %zu of %zu", how, big_block_eof((BigBlock *)&bb, &p), want, b.rows());
}
// more rows than 32 bits can count: nothing is written, or just a few rows of sparse files
static void c05_huge(Ctx &c, BigFile *bf) {
    Rng &r = c.r; BigBlock bb; BigBlockPtr p; MBlock b; b.name = "huge"; do b.d = gen_dt(r); while(b.d.size > 8); b.nmemb = b.d.size < 3 ? r.range(1, 3) : 1; vector<size_t> fs;
    for(int i = r.range(1, 5); i > 0; i--) fs.push_back(r.chance(1, 3) ? r.below(3) : (1ull << r.range(28, 33)) + r.below(100)); if(r.chance(1, 3)) fs.push_back(0);
    b.fsize = fs; must_create(c, bf, &bb, b); set_buffer(r, b.felsize()); ptrdiff_t N = 0; vector<ptrdiff_t> mark = {0}; for(size_t s : fs) { N += s; mark.push_back(N); } for(int k = 27; k <= 37; k++) mark.push_back((ptrdiff_t)1 << k);
    bool again = r.chance(1, 2); if(again) { must_close(c, &bb); must_open(c, bf, &bb, b.name); } check_desc(&bb, b, "huge"); c.note("huge " + b.desc());
    vector<ptrdiff_t> offs = {PTRDIFF_MAX, PTRDIFF_MIN, -N - 1, -N, -N + 1, N - 1, N + 1, N / 2}; for(ptrdiff_t m : mark) for(int k = -2; k <= 2; k++) { offs.push_back(m + k); offs.push_back(m + k - N); offs.push_back(-m + k); offs.push_back(N + m + k); }
    auto want_ptr = [&](ptrdiff_t w, const char *how, ptrdiff_t o) { CHECK((ptrdiff_t)bb.foffset[p.fileid] + p.roffset == w && p.aoffset == w, "pointer", "%s %td of %td rows leads to file %d row %td (%td)", how, o, N, p.fileid, p.roffset, p.aoffset); CHECK(!!big_block_eof(&bb, &p) == (w == N), "eof", "end of file at %td of %td", w, N); };
    for(ptrdiff_t o : offs) {
        ptrdiff_t w = o < 0 ? o + N : o; bool ok = w >= 0 && w <= N; int rt = big_block_seek(&bb, &p, o); c.st("seeks");
        CHECK((rt == 0) == ok, "seek-range", "seek(%td) in %s of %td rows returned %d", o, b.desc().c_str(), N, rt); if(!ok) { c.st("refused"); continue; } want_ptr(w, "seek", o);
        ptrdiff_t to = r.pick(mark) - r.below(3); if(to < 0 || to > N) to = N - (N > 0 ? r.below(std::min(N, (ptrdiff_t)9)) : 0);
        CHECK(0 == big_block_seek_rel(&bb, &p, to - w), "seek-rel", "seek_rel from %td to %td of %td: %s", w, to, N, errmsg()); want_ptr(to, "seek_rel", to - w);
        BigBlockPtr q = p; CHECK(0 != big_block_seek_rel(&bb, &q, N - to + 1), "seek-rel", "seek_rel beyond the end of %td rows", N);
    }
    for(int k = 0; k < 12; k++) { // a few rows across the end, or in range
        ptrdiff_t s = r.chance(1, 2) ? N - (ptrdiff_t)r.below(std::min(N + 1, (ptrdiff_t)6)) : std::min(N, std::max((ptrdiff_t)0, r.pick(mark) - (ptrdiff_t)r.below(4))); size_t n = r.range(1, 6); bool in = s + (ptrdiff_t)n <= N;
        CHECK(0 == big_block_seek(&bb, &p, s), "seek-failed", "seek %td of %td: %s", s, N, errmsg());
        MemArr m; mk_array(m, r, b.d, n, b.nmemb, 1, false, spell(r, b.d)); for(auto o : m.L.off) gen_value(r, b.d, &m.buf[o]); Bytes src = m.buf; BigBlockPtr q = p;
        int rt = big_block_write(&bb, &q, &m.a); CHECK((rt == 0) == in, in ? "write-failed" : "beyond-end", "write of %zu rows at %td of %td returned %d", n, s, N, rt);
        if(!in) { rt = big_block_read(&bb, &p, &m.a); CHECK(rt != 0 && m.buf == src, "beyond-end", "read of %zu rows at %td of %td", n, s, N); BigArray a; memset(&a, 0, sizeof a); CHECK(0 != big_block_read_simple(&bb, N + 1 + r.below(3), 1, &a, NULL), "read-simple", "beyond %td rows", N); c.st("refused"); continue; }
        p = q; want_ptr(s + n, "write at", s); BigArray a; memset(&a, 0, sizeof a); ptrdiff_t arg = r.chance(1, 2) && s < N ? s - N : s; bool end = s + (ptrdiff_t)n == N;
        CHECK(0 == big_block_read_simple(&bb, arg, end ? PTRDIFF_MAX - (ptrdiff_t)r.below(3) : (ptrdiff_t)n, &a, NULL), "read-simple", "read_simple(%td) of %td rows: %s", arg, N, errmsg());
        bool same = a.dims[0] == n; for(size_t i = 0; same && i < m.L.n; i++) same = !memcmp((char *)a.data + i * b.d.size, &m.buf[m.L.off[i]], b.d.size); free(a.data); CHECK(same, "read-simple", "rows at %td of %td differ", s, N); c.st("read_simple");
    }
    must_close(c, &bb); c.st("huge_blocks"); c.sig = c.desc; c.nontrivial = true;
}
static void c05(Ctx &c) {
    Rng &r = c.r; string root = c.dir + "/f"; BigFile bf; BigBlock bb; BigBlockPtr p; CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    if(r.chance(1, 6)) { // the block of a group of blocks: no rows, no files
        bool sub = r.chance(1, 2); BigBlock g; BigBlockPtr q; const char *gn = sub ? "grp" : "."; c.note(string("meta ") + gn);
        for(int pass = 0; pass < 2; pass++) {
            if(pass == 0) CHECK(0 == big_file_create_block(&bf, &g, gn, NULL, 0, 0, NULL), "create-failed", "meta block: %s", errmsg()); else CHECK(0 == big_file_open_block(&bf, &g, gn), "open-failed", "meta block: %s", errmsg());
            CHECK(0 == big_block_seek(&g, &q, 0), "seek-failed", "seek 0 of a meta block: %s", errmsg()); CHECK(big_block_eof(&g, &q), "eof", "a block without rows is not at its end");
            for(ptrdiff_t o : {(ptrdiff_t)1, (ptrdiff_t)-1, (ptrdiff_t)r.range(2, 1000), PTRDIFF_MAX, PTRDIFF_MIN}) { BigBlockPtr z = q; CHECK(0 != big_block_seek(&g, &z, o), "seek-range", "seek(%td) of a block without rows", o); z = q; if(o > 0) CHECK(0 != big_block_seek_rel(&g, &z, o), "seek-rel", "seek_rel(%td) of a block without rows", o); }
            CHECK(0 == big_block_seek_rel(&g, &q, 0), "seek-rel", "seek_rel 0 of a block without rows"); CHECK(0 == big_block_close(&g), "close-failed", "meta block: %s", errmsg()); c.st("meta_blocks");
        }
    }
    if(c.index % 20 == 9) { c05_huge(c, &bf); big_file_close(&bf); return; }
    MBlock b; b.name = "b"; b.d = gen_dt(r); b.nmemb = gen_nmemb(r); vector<size_t> fs = gen_fsize(r, 40); if(r.chance(1, 12)) fs.clear(); else if(r.chance(1, 10)) std::fill(fs.begin(), fs.end(), 0); if(r.chance(1, 4)) fs.insert(fs.end(), r.below(4), 0); if(r.chance(1, 4)) fs.insert(fs.begin(), r.below(4), 0);
    b.layout(fs); must_create(c, &bf, &bb, b); set_buffer(r, b.felsize()); ptrdiff_t N = b.rows();
    if(N) write_rows(c, &bb, &p, b, 0, N, b.d, 0);
    else { MemArr m; mk_array(m, r, b.d, 0, b.nmemb, 0, false, b.d.str()); CHECK(0 == big_block_seek(&bb, &p, 0), "seek-failed", "seek 0 of an empty block: %s", errmsg()); CHECK(0 == big_block_write(&bb, &p, &m.a) && 0 == big_block_read(&bb, &p, &m.a), "empty-transfer", "transfer of no rows failed: %s", errmsg()); }
    must_close(c, &bb); must_open(c, &bf, &bb, b.name);
    map<string, Bytes> disk = snapshot(root);
    vector<ptrdiff_t> offs; for(ptrdiff_t o = -N - 3; o <= N + 3; o++) offs.push_back(o);
    for(ptrdiff_t o : {(ptrdiff_t)PTRDIFF_MAX, (ptrdiff_t)PTRDIFF_MIN, (ptrdiff_t)PTRDIFF_MAX - N, (ptrdiff_t)PTRDIFF_MIN + N, (ptrdiff_t)1 << 31, (ptrdiff_t)1 << 32, -((ptrdiff_t)1 << 31), -((ptrdiff_t)1 << 32), ((ptrdiff_t)1 << 32) + 1, (ptrdiff_t)1 << 62}) offs.push_back(o);
    for(ptrdiff_t o : offs) {
        ptrdiff_t want = o < 0 ? o + N : o; bool ok = want >= 0 && want <= N;
        int rt = big_block_seek(&bb, &p, o); c.st("seeks");
        CHECK((rt == 0) == ok, "seek-range", "seek(%td) in %s returned %d", o, b.desc().c_str(), rt);
        if(ok) check_ptr(b, bb, p, want, fmt("seek(%td)", o).c_str()); else c.st("refused");
    }
    CHECK(0 == big_block_seek(&bb, &p, 0), "seek-failed", "seek 0"); size_t cur = 0;
    bool changed = false;
    for(int op = 0; op < 40; op++) {
        if(r.chance(1, 6)) set_buffer(r, b.felsize());
        switch(r.below(6)) {
        case 0: { size_t to = r.below(N + 1); c.note(fmt("seek_rel %td", (ptrdiff_t)to - (ptrdiff_t)cur)); CHECK(0 == big_block_seek_rel(&bb, &p, (ptrdiff_t)to - (ptrdiff_t)cur), "seek-rel", "seek_rel from %zu to %zu in %s: %s", cur, to, b.desc().c_str(), errmsg()); cur = to; check_ptr(b, bb, p, cur, "seek_rel"); break; }
        case 1: { ptrdiff_t beyond = N - (ptrdiff_t)cur + 1 + r.below(5); BigBlockPtr q = p; c.note(fmt("seek_rel %td (refused)", beyond)); CHECK(0 != big_block_seek_rel(&bb, &q, beyond), "seek-rel", "seek_rel(%td) from %zu of %td accepted", beyond, cur, N); c.st("refused"); break; }
        case 2: case 3: { // transfer in range from the current position
            size_t n = r.below(N - cur + 1); bool wr = r.chance(1, 2); if(wr) { write_rows(c, &bb, &p, b, cur, n, b.d, 1, false); changed |= n > 0; } else read_rows(c, &bb, &p, b, cur, n, b.d, 1, false, false);
            cur += n; check_ptr(b, bb, p, cur, wr ? "after write" : "after read"); if(wr && n) disk.clear(); break; }
        case 4: { // out of range
            size_t n = N - cur + 1 + (r.chance(1, 3) ? r.below(2000) : r.below(4)); DT md = mem_type(r, b.d, true); MemArr m; mk_array(m, r, md, n, b.nmemb, 1, false, spell(r, md)); for(auto o : m.L.off) gen_value(r, md, &m.buf[o], &b.d); m.orig = m.buf;
            if(disk.empty()) disk = snapshot(root);
            bool wr = r.chance(1, 2); BigBlockPtr q = p; vector<uint32_t> ck(bb.fchecksum, bb.fchecksum + bb.Nfile); c.note(fmt("%s %zu rows at %zu (refused)", wr ? "write" : "read", n, cur));
            int rt = wr ? big_block_write(&bb, &q, &m.a) : big_block_read(&bb, &q, &m.a);
            CHECK(rt != 0, "beyond-end", "%s of %zu rows at %zu of %s reported success", wr ? "write" : "read", n, cur, b.desc().c_str());
            CHECK(m.buf == m.orig, "failed-read-touched", "refused %s changed the caller's memory", wr ? "write" : "read");
            CHECK(snapshot(root) == disk, "failed-write-touched", "refused %s of %zu rows at %zu of %s changed the files", wr ? "write" : "read", n, cur, b.desc().c_str());
            for(size_t i = 0; i < ck.size(); i++) CHECK(ck[i] == bb.fchecksum[i], "failed-write-touched", "refused access changed a checksum");
            c.st("refused"); break; }
        default: { // read_simple
            ptrdiff_t s = r.below(N + 1), n = r.chance(1, 4) ? (r.chance(1, 2) ? PTRDIFF_MAX - r.below(3) : ((ptrdiff_t)1 << 40)) : (ptrdiff_t)r.below(2 * N + 3); ptrdiff_t arg = r.chance(1, 3) && s < N ? s - N : s; BigArray a; memset(&a, 0, sizeof a);
            ptrdiff_t want = std::min(n, N - s); c.note(fmt("read_simple(%td, %td)", arg, n));
            int rt = big_block_read_simple(&bb, arg, n, &a, NULL); CHECK(rt == 0, "read-simple", "read_simple(%td, %td) of %s: %s", arg, n, b.desc().c_str(), errmsg());
            size_t got = a.dims[0]; bool same = (ptrdiff_t)got == want && (want == 0 || !memcmp(a.data, &b.data[s * b.felsize()], want * b.felsize())); free(a.data);
            CHECK((ptrdiff_t)got == want, "read-simple", "read_simple(%td, %td) of %s returned %zu rows, expected %td", arg, n, b.desc().c_str(), got, want);
            CHECK(same, "read-simple", "read_simple(%td, %td) of %s returned other rows", arg, n, b.desc().c_str());
            ptrdiff_t bad = N + 1 + r.below(3); if(r.chance(1, 2)) bad = -N - 1 - (ptrdiff_t)r.below(3); rt = big_block_read_simple(&bb, bad, 1, &a, NULL); if(rt == 0) free(a.data);
            CHECK(rt != 0, "read-simple", "read_simple(%td, 1) of %s reported success", bad, b.desc().c_str()); c.st("read_simple"); } }
    }
    CHECK(0 == big_block_seek(&bb, &p, 0), "unusable", "block is not usable after refused accesses: %s", errmsg()); read_all(c, &bb, b); must_close(c, &bb);
    must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "after refused accesses"); read_all(c, &bb, b); must_close(c, &bb); big_file_close(&bf);
    c.sig = c.desc; c.nontrivial = N > 0 && b.fsize.size() > 1;
}

// ------------------------------------------------------------------ C06
static void verify_attrs(Ctx &c, BigBlock *bb, const map<string, RAttr> &m, const char *when) {
    string e = attr_diff(api_attrs(bb), m); CHECK(e.empty(), "attr-map", "%s: %s", when, e.c_str());
    int k = 0;
    for(auto &a : m) {
        if(c.r.chance(1, 3) || k < 2) {
            k++; BigAttr *f = big_block_lookup_attr(bb, a.first.c_str()); CHECK(f && a.first == f->name && f->nmemb == a.second.nmemb && a.second.dtype == f->dtype && !memcmp(f->data, a.second.data.data(), a.second.data.size()), "attr-lookup", "%s: lookup of %s", when, a.first.c_str());
            Bytes d(a.second.data.size() + 1, 0xee); CHECK(0 == big_block_get_attr(bb, a.first.c_str(), d.data(), a.second.dtype.c_str(), a.second.nmemb), "attr-get", "%s: get %s: %s", when, a.first.c_str(), errmsg());
            d.resize(d.size() - 1); CHECK(d == a.second.data, "attr-get", "%s: get %s gives %s, expected %s", when, a.first.c_str(), hexs(d.data(), d.size()).c_str(), hexs(a.second.data.data(), d.size()).c_str());
            Bytes w(d.size() * 2 + 64); CHECK(0 != big_block_get_attr(bb, a.first.c_str(), w.data(), a.second.dtype.c_str(), a.second.nmemb + (c.r.chance(1, 2) || a.second.nmemb == 0 ? 1 : -1)), "attr-count", "get of %s with a wrong member count was accepted", a.first.c_str());
        }
    }
    c.st("attr_maps_compared"); c.st("attrs_compared", m.size());
}
static void c06(Ctx &c) {
    Rng &r = c.r; string root = c.dir + "/f"; BigFile bf; CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    vector<string> names = {"x", "y", "g/z"}; if(r.chance(1, 2)) names.push_back("."); if(r.chance(1, 2)) names.push_back("g/.");
    int n = names.size(); vector<BigBlock> H(n); vector<map<string, RAttr>> M(n);
    for(int i = 0; i < n; i++) {
        c.note("create " + names[i]); size_t fs[2] = {1, 2};
        if(names[i] == ".") { CHECK(0 == big_file_open_block(&bf, &H[i], "."), "open-failed", "meta: %s", errmsg()); }
        else CHECK(0 == big_file_create_block(&bf, &H[i], names[i].c_str(), names[i] == "g/." ? NULL : "f8", names[i] == "g/." ? 0 : 1, names[i] == "g/." ? 0 : 2, fs), "create-failed", "%s: %s", names[i].c_str(), errmsg());
    }
    bool many = r.chance(1, 5); int nops = many ? 150 : r.range(5, 40); int overwrites = 0, removes = 0; size_t maxn = 0;
    for(int op = 0; op < nops; op++) {
        int i = r.below(n); if(many) i = 0; map<string, RAttr> &m = M[i]; BigBlock *bb = &H[i];
        switch(r.below(many ? 14 : 11)) {
        case 0: case 1: case 2: default: { AttrVal v = gen_attr(r); if(many) { v.name = fmt("n%llu", (unsigned long long)r.u64() % 300); if(v.data.size() > 400) continue; } if(m.count(v.name)) overwrites++; set_attr(c, bb, m, v); break; }
        case 3: if(m.size()) { auto it = m.begin(); std::advance(it, r.below(m.size())); AttrVal v = gen_attr(r); v.name = it->first; overwrites++; set_attr(c, bb, m, v); } break;
        case 4: if(m.size() && (!many || r.chance(1, 2))) { auto it = m.begin(); std::advance(it, r.below(m.size())); string nm = it->first; c.note("remove " + nm.substr(0, 30)); CHECK(0 == big_block_remove_attr(bb, nm.c_str()), "attr-remove", "remove %s: %s", nm.c_str(), errmsg()); m.erase(nm); removes++; } break;
        case 5: { string nm = gen_attr_name(r); if(m.count(nm)) break; c.note("absent " + nm.substr(0, 30)); u8 d[8]; CHECK(!big_block_lookup_attr(bb, nm.c_str()), "attr-absent", "lookup finds absent %s", nm.c_str()); CHECK(0 != big_block_get_attr(bb, nm.c_str(), d, "f8", 1), "attr-absent", "get of absent %s succeeds", nm.c_str()); CHECK(0 != big_block_remove_attr(bb, nm.c_str()), "attr-absent", "remove of absent %s succeeds", nm.c_str()); break; }
        case 6: { static const vector<string> bad = {"", " ", "a b", "\t", "a\n", "x\ty", " lead", "trail ", "n\nl"}; string nm = r.pick(bad); double v = 1; c.note("refused name"); CHECK(0 != big_block_set_attr(bb, nm.c_str(), &v, "f8", 1), "attr-badname", "name '%s' was accepted", nm.c_str()); CHECK(!big_block_lookup_attr(bb, nm.c_str()), "attr-badname", "refused name is found"); break; }
        case 7: must_flush(c, bb); break;
        case 8: if(!many || r.chance(1, 3)) { must_close(c, bb); must_open(c, &bf, bb, names[i]); verify_attrs(c, bb, m, "after reopen"); } break;
        case 9: verify_attrs(c, bb, m, "in session"); break;
        case 10: { // another handle sees what has been flushed
            must_flush(c, bb); BigBlock o; must_open(c, &bf, &o, names[i]); verify_attrs(c, &o, m, "second handle after flush"); must_close(c, &o); break; }
        }
        maxn = std::max(maxn, M[i].size());
    }
    for(int i = 0; i < n; i++) { verify_attrs(c, &H[i], M[i], "before close"); must_close(c, &H[i]); }
    for(int rep = 0; rep < 2; rep++) for(int i = 0; i < n; i++) { must_open(c, &bf, &H[i], names[i]); verify_attrs(c, &H[i], M[i], rep ? "second reopen" : "after closing"); must_close(c, &H[i]); }
    big_file_close(&bf); c.st("overwrites", overwrites); c.st("removes", removes); c.st("max_attrs_over_32", maxn > 32); c.sig = c.desc; c.nontrivial = overwrites + removes > 0;
}

// ------------------------------------------------------------------ C07
static void c07(Ctx &c) {
    Rng &r = c.r; string root = c.dir + "/f"; BigFile bf; BigBlock bb; BigBlockPtr p; CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    MBlock b; b.name = "g"; b.d = gen_dt(r); b.nmemb = gen_nmemb(r); vector<size_t> fs = gen_fsize(r, 30, 5); if(r.chance(1, 6)) fs.clear(); b.layout(fs);
    string dir = root + "/g";
    if(r.chance(1, 3)) { // left over from an earlier, larger block of that name
        mkdirs(dir); for(int i = 0; i < 40; i += r.range(1, 3)) { Bytes junk(r.range(1, 900)); r.fill(junk.data(), junk.size()); write_file(disk_datafile(dir, i), junk.data(), junk.size()); } c.note("stale data files present"); c.st("with_stale_files"); }
    must_create(c, &bf, &bb, b); MBlock fl = b; fl.attrs.clear(); // what is on disk
    int grows = 0; bool wrote = false; vector<std::function<void()>> replay;
    struct W { size_t s, n; Bytes d; }; vector<W> ws; bool dirty = false;
    for(int op = 0; op < 18; op++) {
        size_t N = b.rows(); if(r.chance(1, 5)) set_buffer(r, b.felsize());
        switch(r.below(8)) {
        case 0: case 1: {
            vector<size_t> g = gen_fsize(r, 20, r.chance(1, 8) ? 40 : 4); if(r.chance(1, 8)) g.clear(); if(r.chance(1, 8)) std::fill(g.begin(), g.end(), 0);
            if(r.chance(1, 60)) g.assign(300, 1);
            c.note(fmt("grow by %zu files", g.size())); CHECK(0 == big_block_grow(&bb, g.size(), g.data()), "grow-failed", "grow %s: %s", b.desc().c_str(), errmsg());
            b.grow(g); grows++; dirty = true; check_desc(&bb, b, "after grow"); 
            { size_t o = N; BigBlockPtr q; CHECK(0 == big_block_seek(&bb, &q, o) && q.aoffset == (ptrdiff_t)o, "grow-seek", "seek to %zu after grow of %s: %s", o, b.desc().c_str(), errmsg()); CHECK(0 == big_block_seek(&bb, &q, b.rows()) || b.rows() == 0, "grow-seek", "seek to the new end of %s: %s", b.desc().c_str(), errmsg()); }
            for(size_t i = 0; i < b.ck.size(); i++) CHECK(bb.fchecksum[i] == b.ck[i], "checksum", "after grow: checksum of file %zu is %u, expected %u (%s)", i, bb.fchecksum[i], b.ck[i], b.desc().c_str());
            string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "attr", "after grow: %s", e.c_str()); break; }
        case 2: case 3: if(N) { size_t s, n; pick_range(r, b, s, n); if(r.chance(1, 3)) { s = 0; n = N; } write_rows(c, &bb, &p, b, s, n, mem_type(r, b.d, true), 1); if(n) { W w = {s, n, Bytes(b.data.begin() + s * b.felsize(), b.data.begin() + (s + n) * b.felsize())}; ws.push_back(w); wrote = true; dirty = true; } } break;
        case 4: if(N) { size_t s, n; pick_range(r, b, s, n); read_rows(c, &bb, &p, b, s, n, mem_type(r, b.d, true), 1, r.chance(1, 4)); } break;
        case 5: set_attr(c, &bb, b.attrs, gen_attr(r)); break;
        case 6: if(r.chance(1, 2)) must_flush(c, &bb); else { must_close(c, &bb); must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "reopened"); read_all(c, &bb, b); string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "attr", "reopened: %s", e.c_str()); }
            fl = b; dirty = false; check_disk_header(dir, b, true); break;
        case 7: { // a second handle sees the last flushed layout, and the rows of that part
            BigBlock o; must_open(c, &bf, &o, b.name); MBlock v = fl; size_t have = v.rows(); check_desc(&o, v, "second handle before flush");
            for(size_t i = 0; i < have; i++) { v.written[i] = b.written[i]; } memcpy(v.data.data(), b.data.data(), v.data.size());
            read_all(c, &o, v); BigBlockPtr q; if(v.rows() < b.rows()) CHECK(0 != big_block_seek(&o, &q, v.rows() + 1), "unflushed-visible", "rows of an unflushed grow are visible"); c.st("second_handles"); CHECK(0 == big_block_close(&o), "close-failed", "%s", errmsg()); break; }
        }
    }
    if(r.chance(1, 2) && b.rows()) write_rows(c, &bb, &p, b, 0, b.rows(), b.d, 1), ws.push_back({0, b.rows(), b.data});
    must_close(c, &bb); must_open(c, &bf, &bb, b.name); check_desc(&bb, b, "final"); read_all(c, &bb, b); string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "attr", "final: %s", e.c_str()); must_close(c, &bb);
    check_disk_header(dir, b, true); check_disk_data(dir, b);
    // the twin created with the whole layout at once
    BigBlock tw; MBlock t; t.name = "twin"; t.d = b.d; t.nmemb = b.nmemb; t.layout(b.fsize); must_create(c, &bf, &tw, t);
    for(auto &w : ws) { MemArr m; mk_array(m, r, b.d, w.n, b.nmemb, 0, false, b.d.str()); memcpy(m.a.data, w.d.data(), w.d.size()); CHECK(0 == big_block_seek(&tw, &p, w.s) && 0 == big_block_write(&tw, &p, &m.a), "write-failed", "twin: %s", errmsg()); }
    for(auto &a : b.attrs) CHECK(0 == big_block_set_attr(&tw, a.first.c_str(), a.second.data.data(), a.second.dtype.c_str(), a.second.nmemb), "set-attr-failed", "twin");
    must_close(c, &tw); big_file_close(&bf);
    DiskBlock d1 = disk_header(dir), d2 = disk_header(root + "/twin"); CHECK(d1.err.empty() && d2.err.empty(), "disk-header", "%s %s", d1.err.c_str(), d2.err.c_str());
    for(long i = 0; i < d2.nfile; i++) {
        CHECK(d1.files[i].size == d2.files[i].size && d1.files[i].ck == d2.files[i].ck && d1.files[i].sysv == d2.files[i].sysv, "twin", "file %ld of the grown block is recorded as %llu:%u, of the twin %llu:%u", i, (unsigned long long)d1.files[i].size, d1.files[i].ck, (unsigned long long)d2.files[i].size, d2.files[i].ck);
        Bytes x, y; read_file(disk_datafile(dir, i), x); read_file(disk_datafile(root + "/twin", i), y); CHECK(x == y, "twin", "file %ld of the grown block (%zu bytes) differs from the twin's (%zu bytes)", i, x.size(), y.size());
    }
    map<string, RAttr> a1, a2; disk_attrs(dir, a1); disk_attrs(root + "/twin", a2); CHECK(a1 == a2, "twin", "attributes differ from the twin's");
    c.st("grows", grows); c.sig = c.desc; c.nontrivial = grows > 0 && wrote; (void)dirty;
}

// ------------------------------------------------------------------ C08
static void c08(Ctx &c) {
    if(c.index % 251 == 31) { large(c, false); return; }
    Rng &r = c.r; string root = c.dir + "/f"; BigFile bf; BigBlock bb; BigBlockPtr p; CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg());
    MBlock b; b.name = "k"; b.d = gen_dt(r); b.nmemb = gen_nmemb(r); bool large = c.index % 30 == 11;
    if(large) { b.d = dt("f8"); b.nmemb = 3; }
    b.layout(large ? vector<size_t>{(size_t)r.range(4000, 9000), 0, (size_t)r.range(1, 4000)} : gen_fsize_nz(r, 60)); string dir = root + "/k"; must_create(c, &bf, &bb, b);
    bool once = r.chance(1, 2); int nw = 0; set_buffer(r, b.felsize());
    auto check = [&](const char *when) { for(size_t i = 0; i < b.ck.size(); i++) CHECK(bb.fchecksum[i] == b.ck[i], "checksum", "%s: checksum of file %zu is %u, expected %u (%s)", when, i, bb.fchecksum[i], b.ck[i], b.desc().c_str()); };
    for(int op = 0; op < (large ? 8 : 22); op++) {
        if(r.chance(1, 3)) set_buffer(r, b.felsize());
        size_t N = b.rows(), s, n; pick_range(r, b, s, n);
        switch(r.below(9)) {
        case 0: case 1: case 2: case 3:
            if(once) { while(s < N && b.written[s]) s++; if(s == N) { s = 0; while(s < N && b.written[s]) s++; } size_t e = s; while(e < N && !b.written[e] && e - s < std::max(n, (size_t)1)) e++; n = e - s; }
            if(large && r.chance(1, 2) && n) { // bytes of 0xff make the sums large
                MemArr m; mk_array(m, r, b.d, n, b.nmemb, 0, false, b.d.str()); memset(m.a.data, 0xff, n * b.felsize()); CHECK(0 == big_block_seek(&bb, &p, s) && 0 == big_block_write(&bb, &p, &m.a), "write-failed", "%s", errmsg()); Bytes st(n * b.felsize(), 0xff); b.put(s, n, st.data()); c.note(fmt("write 0xff [%zu:+%zu]", s, n));
            } else write_rows(c, &bb, &p, b, s, n, mem_type(r, b.d, true), 1);
            nw += n > 0; check("after write"); break;
        case 4: if(N) { read_rows(c, &bb, &p, b, s, n, mem_type(r, b.d, true), 1, r.chance(1, 3)); check("after read"); } break;
        case 5: for(int k = r.range(1, 3); k > 0; k--) must_flush(c, &bb); check("after flush"); check_disk_header(dir, b, true); break;
        case 6: must_close(c, &bb); check_disk_header(dir, b, true); if(!once && r.chance(1, 2)) steer_checksums(c, dir, b); must_open(c, &bf, &bb, b.name); check("after reopen"); break;
        case 7: set_attr(c, &bb, b.attrs, gen_attr(r)); check("after set_attr"); break;
        case 8: if(r.chance(1, 2)) { vector<size_t> g = gen_fsize(r, 20, 3); CHECK(0 == big_block_grow(&bb, g.size(), g.data()), "grow-failed", "%s", errmsg()); c.note("grow"); b.grow(g); check("after grow"); }
            else { MemArr m; mk_array(m, r, b.d, N + 1, b.nmemb, 0, false, b.d.str()); CHECK(0 == big_block_seek(&bb, &p, 0) && 0 != big_block_write(&bb, &p, &m.a), "beyond-end", "write beyond the end accepted"); check("after a refused write"); } break;
        }
    }
    if(once) { // finish the block, each row once
        for(size_t s = 0; s < b.rows();) { if(b.written[s]) { s++; continue; } size_t e = s; while(e < b.rows() && !b.written[e]) e++; write_rows(c, &bb, &p, b, s, e - s, mem_type(r, b.d, true), 1); s = e; nw++; }
    }
    must_close(c, &bb); check_disk_header(dir, b, true);
    if(once) { DiskBlock d = disk_header(dir); for(long i = 0; i < d.nfile; i++) { Bytes f; CHECK(read_file(disk_datafile(dir, i), f), "disk-data", "no file %ld", i); uint32_t s = 0; for(u8 x : f) s += x; CHECK(s == d.files[i].ck, "checksum-file", "file %ld sums to %u, recorded %u", i, s, d.files[i].ck); CHECK(sysv16(s) == d.files[i].sysv, "sysv", "file %ld second sum %u, recorded %u", i, sysv16(s), d.files[i].sysv); c.st("files_summed"); } }
    // opening and closing without any change keeps the header
    Bytes h1, h2; read_file(dir + "/header", h1); must_open(c, &bf, &bb, b.name); if(b.rows()) read_all(c, &bb, b); must_close(c, &bb); read_file(dir + "/header", h2); CHECK(h1 == h2, "checksum", "reading changed the header");
    big_file_close(&bf); c.sig = c.desc; c.nontrivial = nw > 1;
}

// ------------------------------------------------------------------ C09
static string canon(const string &n) { string o; for(char ch : n) if(ch != '/' || (o.size() && o.back() != '/')) o += ch; while(o.size() && o.back() == '/') o.pop_back(); return o; }
static string respell_path(Rng &r, const string &n) { string o; for(char ch : n) { o += ch; if(ch == '/') while(r.chance(1, 4)) o += '/'; } if(r.chance(1, 5)) o += '/'; if(r.chance(1, 8)) o = "/" + o; return o; }
static void c09(Ctx &c) {
    Rng &r = c.r; string root = c.dir + "/f"; static const vector<string> roots = {"", "/", "//"}; BigFile bf; CHECK(0 == big_file_create(&bf, (root + r.pick(roots)).c_str()), "create-failed", "%s", errmsg());
    static const vector<string> comp = {"a", "ab", "abc", "b", "0", "1", "00001", "0000001", "Position", "Pos", "A", "x.y", "header2", "attr-v3", "head", "attrs", "-", "%s", "\xc3\xa9", "a-b", "~", "0A", "FFFFFF", "hea", "group..", "x~"};
    map<string, MBlock> M; map<string, map<string, RAttr>> G; set<string> ghost; // names that exist as directories only
    big_file_set_buffer_size(r.chance(1, 30) ? 64 << 20 : 1 + r.below(5000));
    bool big = c.index % 37 == 5; int nops = big ? 150 : r.range(8, 26), recreated = 0, nested = 0;
    for(int op = 0; op < nops; op++) {
        string name; int depth = r.chance(1, 12) ? 7 : r.range(1, 3); for(int k = 0; k < depth; k++) name += (k ? "/" : "") + (big ? fmt("n%d", (int)r.below(200)) : r.pick(comp));
        if(r.chance(1, 10)) name += string(200, 'z');
        if(r.chance(1, 25)) { name = ""; for(int k = r.range(2, 5); k > 0; k--) name += string(r.range(60, 250), "pq"[r.below(2)]) + "/"; name += r.pick(comp); }
        if(r.chance(1, 3) && M.size()) { auto it = M.begin(); std::advance(it, r.below(M.size())); name = it->first; if(r.chance(1, 3)) name += "/" + r.pick(comp); }
        switch(r.below(10)) {
        case 0: case 1: case 2: case 3: { // create or re-create
            MBlock b; b.name = name; b.d = gen_dt(r); b.nmemb = gen_nmemb(r); b.layout(gen_fsize(r, 20, 4)); if(M.count(name)) recreated++; for(auto &m : M) if(m.first.compare(0, name.size() + 1, name + "/") == 0 || name.compare(0, m.first.size() + 1, m.first + "/") == 0) nested++;
            MBlock as = b; as.name = respell_path(r, name); BigBlock bb; must_create(c, &bf, &bb, as);
            check_desc(&bb, b, "created"); CHECK(api_attrs(&bb).empty(), "recreate-attr", "new block %s has attributes", name.c_str());
            BigBlockPtr p; if(b.rows() && r.chance(2, 3)) { size_t s, n; pick_range(r, b, s, n); write_rows(c, &bb, &p, b, s, n, b.d, 1); }
            if(r.chance(1, 2)) set_attr(c, &bb, b.attrs, gen_attr(r)); must_close(c, &bb); M[name] = b; c.st("creates"); break; }
        case 4: case 5: if(M.size()) { // modify one
            auto it = M.begin(); std::advance(it, r.below(M.size())); MBlock &b = it->second; BigBlock bb; BigBlockPtr p; must_open(c, &bf, &bb, respell_path(r, it->first)); check_desc(&bb, b, "opened");
            if(b.rows()) { size_t s, n; pick_range(r, b, s, n); write_rows(c, &bb, &p, b, s, n, b.d, 1); } if(r.chance(1, 2)) set_attr(c, &bb, b.attrs, gen_attr(r));
            if(r.chance(1, 3)) { vector<size_t> g = gen_fsize(r, 10, 3); CHECK(0 == big_block_grow(&bb, g.size(), g.data()), "grow-failed", "%s", errmsg()); b.grow(g); } must_close(c, &bb); } break;
        case 6: { // group attributes
            string g = "."; if(M.size() && r.chance(2, 3)) { auto it = M.begin(); std::advance(it, r.below(M.size())); size_t q = it->first.rfind('/'); if(q != string::npos) g = it->first.substr(0, q) + "/."; }
            BigBlock bb; c.note("group attr of " + g); if(M.count(canon(g.substr(0, g.size() - 1)))) break; // a block: its meta block is the block's own attributes
            if(r.chance(1, 2) || g == ".") must_open(c, &bf, &bb, g); else { CHECK(0 == big_file_create_block(&bf, &bb, g.c_str(), NULL, 0, 0, NULL), "create-failed", "group %s: %s", g.c_str(), errmsg()); G[g].clear(); }
            string e = attr_diff(api_attrs(&bb), G[g]); CHECK(e.empty(), "group-attr", "group %s: %s", g.c_str(), e.c_str()); set_attr(c, &bb, G[g], gen_attr(r)); must_close(c, &bb); c.st("group_attrs"); break; }
        case 7: { // names that were not created
            if(M.count(name)) break; BigBlock bb; c.note("absent " + name.substr(0, 40)); int rt = big_file_open_block(&bf, &bb, respell_path(r, name).c_str()); if(rt == 0) big_block_close(&bb); CHECK(rt != 0, "open-absent", "open of '%s' succeeded although it was not created", name.c_str()); c.st("absent"); break; }
        default: { // list
            char **l; int n; CHECK(0 == big_file_list(&bf, &l, &n), "list-failed", "%s", errmsg()); vector<string> got; for(int i = 0; i < n; i++) { got.push_back(canon(l[i])); free(l[i]); } free(l);
            set<string> want; for(auto &m : M) { bool inside = false; for(size_t q = m.first.find('/'); q != string::npos; q = m.first.find('/', q + 1)) if(M.count(m.first.substr(0, q))) inside = true; if(!inside) want.insert(m.first); }
            set<string> gs(got.begin(), got.end()); CHECK(gs.size() == got.size(), "list", "a block is listed twice");
            for(auto &w : want) CHECK(gs.count(w), "list", "block %s is not listed (%zu listed)", w.c_str(), gs.size()); for(auto &g : gs) CHECK(want.count(g), "list", "%s is listed, but is not a block to be listed", g.c_str()); c.st("lists"); c.st("listed_names", gs.size()); } }
        // a block's attribute file is shared with the meta block of the directory it lives in; groups turned blocks drop out
        for(auto it = G.begin(); it != G.end();) { string d = canon(it->first.substr(0, it->first.size() - 1)); if(d.size() && M.count(d)) it = G.erase(it); else ++it; }
    }
    for(auto &m : M) {
        BigBlock bb; BigBlockPtr p; must_open(c, &bf, &bb, respell_path(r, m.first)); MBlock &b = m.second; check_desc(&bb, b, "at the end"); read_all(c, &bb, b); string e = attr_diff(api_attrs(&bb), b.attrs); CHECK(e.empty(), "isolation", "attributes of %s: %s", m.first.c_str(), e.c_str());
        // rows never written since the block was (re-)created do not show older data
        for(size_t i = 0; i < b.rows(); i++) if(!b.written[i]) { BigArray a; if(0 == big_block_read_simple(&bb, i, 1, &a, NULL)) { bool z = true; for(size_t k = 0; k < b.felsize(); k++) z &= ((u8 *)a.data)[k] == 0; free(a.data); CHECK(z, "stale-data", "row %zu of %s was never written but reads as data", i, m.first.c_str()); } c.st("unwritten_rows"); }
        must_close(c, &bb); check_disk_header(root + "/" + m.first, b, true, "isolation"); c.st("blocks_verified");
    }
    for(auto &g : G) { BigBlock bb; must_open(c, &bf, &bb, g.first); string e = attr_diff(api_attrs(&bb), g.second); CHECK(e.empty(), "group-attr", "group %s at the end: %s", g.first.c_str(), e.c_str()); must_close(c, &bb); }
    big_file_close(&bf); c.st("recreated", recreated); c.sig = c.desc; c.nontrivial = M.size() > 1 && (recreated || nested || G.size());
}

// ------------------------------------------------------------------ C28
static string str_of(const char *f, ...) { va_list va; va_start(va, f); char b[512]; vsnprintf(b, sizeof b, f, va); va_end(va); return b; }
static void c28(Ctx &c) {
    Rng &r = c.r; static const vector<string> bases = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "b1", "a1"};
    DT d = dt(r.pick(bases).c_str()); if(d.size > 1 && r.chance(1, 2)) d.order = '>'; string sp = spell(r, d), b = d.base();
    for(int rep = 0; rep < 20; rep++) {
        u8 nat[32], v[64 + 32], v0[96]; r.fill(v, sizeof v); gen_value(r, d, nat); if(b == "a1") nat[0] = r.range(33, 126);
        memcpy(v + 32, nat, d.size); memcpy(v0, v, sizeof v); if(d.order == '>') { swap_comp(nat, d); }
        // the text printf gives
        string want, fmts; const char *f = NULL; int32_t i4 = 0; int64_t i8 = 0; uint32_t u4 = 0; uint64_t u8_ = 0; float f4 = 0; double f8 = 0; float c8[2] = {0}; double c16[2] = {0};
        bool custom = r.chance(1, 2);
        if(b == "i4") { memcpy(&i4, nat, 4); f = custom ? r.pick(vector<const char *>{"%08d", "%+d", "[%x]", "%-12d|"}) : NULL; want = str_of(f ? f : "%d", i4); }
        if(b == "i8") { memcpy(&i8, nat, 8); f = custom ? r.pick(vector<const char *>{"%020ld", "%+ld", "%lx"}) : NULL; want = str_of(f ? f : "%ld", i8); }
        if(b == "u4") { memcpy(&u4, nat, 4); f = custom ? r.pick(vector<const char *>{"%010u", "%x", "%o"}) : NULL; want = str_of(f ? f : "%u", u4); }
        if(b == "u8") { memcpy(&u8_, nat, 8); f = custom ? r.pick(vector<const char *>{"%020lu", "%lX"}) : NULL; want = str_of(f ? f : "%lu", u8_); }
        if(b == "f4") { memcpy(&f4, nat, 4); f = custom ? r.pick(vector<const char *>{"%.9g", "%a", "%e"}) : NULL; want = str_of(f ? f : "%g", f4); }
        if(b == "f8") { memcpy(&f8, nat, 8); f = custom ? r.pick(vector<const char *>{"%.17g", "%a", "%e"}) : NULL; want = str_of(f ? f : "%g", f8); }
        if(b == "c8") { memcpy(c8, nat, 8); f = custom ? r.pick(vector<const char *>{"(%.9g,%.9g)", "%.9g + %.9g I"}) : NULL; want = str_of(f ? f : "%g+%gI", c8[0], c8[1]); }
        if(b == "c16") { memcpy(c16, nat, 16); f = custom ? r.pick(vector<const char *>{"(%.17g,%.17g)", "%.17g + %.17g I"}) : NULL; want = str_of(f ? f : "%g+%gI", c16[0], c16[1]); }
        if(b == "b1") { want = str_of("%d", (signed char)nat[0]); }
        if(b == "a1") { want = string(1, (char)nat[0]); }
        char out[1024]; memset(out, 0x7e, sizeof out);
        big_file_dtype_format(out, sp.c_str(), v + 32, f); c.st("formatted");
        CHECK(strnlen(out, sizeof out) < sizeof out && want == out, "format", "value %s of %s with format %s gives '%.80s', expected '%s'", hexs(v + 32, d.size).c_str(), sp.c_str(), f ? f : "default", out, want.c_str());
        for(size_t k = want.size() + 1; k < sizeof out; k++) CHECK(out[k] == 0x7e, "format-overrun", "format of %s wrote beyond its text", sp.c_str());
        CHECK(!memcmp(v, v0, sizeof v), "format-source", "format changed the value");
        if(b == "b1") { continue; }
        // and back
        string text = out; const char *pf = NULL; bool exact = d.kind == 'i' || d.kind == 'u' || b == "a1";
        if(b == "f4") { text = str_of("%.9g", f4); exact = f4 == f4; } if(b == "f8") { text = str_of("%.17g", f8); exact = f8 == f8; }
        if(b == "c8") { text = !std::isfinite(c8[1]) || r.chance(1, 2) ? str_of("%.9g + %.9g I", c8[0], c8[1]) : str_of("%.9g+%.9gI", c8[0], c8[1]); exact = c8[0] == c8[0] && c8[1] == c8[1]; }
        if(b == "c16") { text = !std::isfinite(c16[1]) || r.chance(1, 2) ? str_of("%.17g + %.17g I", c16[0], c16[1]) : str_of("%.17g+%.17gI", c16[0], c16[1]); exact = c16[0] == c16[0] && c16[1] == c16[1]; }
        if(d.kind == 'i' || d.kind == 'u') { if(d.kind == 'i') text = str_of("%lld", b == "i4" ? (long long)i4 : (long long)i8); else text = str_of("%llu", b == "u4" ? (unsigned long long)u4 : (unsigned long long)u8_); }
        DT pd = d; if(d.size > 1 && r.chance(1, 2)) pd.order = pd.order == '<' ? '>' : '<';
        u8 w[96], w0[96]; r.fill(w, sizeof w); memcpy(w0, w, sizeof w); u8 expect[32]; memcpy(expect, nat, d.size); if(pd.order == '>') swap_comp(expect, pd);
        if(exact) {
            string psp = spell(r, pd); int rt = big_file_dtype_parse(text.c_str(), psp.c_str(), w + 32, pf); c.st("parsed");
            CHECK(rt == 0, "parse-refused", "text '%s' as %s was refused: %s", text.c_str(), psp.c_str(), errmsg());
            CHECK(!memcmp(w + 32, expect, d.size), "parse", "text '%s' as %s stores %s, expected %s", text.c_str(), psp.c_str(), hexs(w + 32, d.size).c_str(), hexs(expect, d.size).c_str());
            CHECK(!memcmp(w, w0, 32) && !memcmp(w + 32 + d.size, w0 + 32 + d.size, sizeof w - 32 - d.size), "parse-overrun", "parse of %s wrote outside the value", psp.c_str());
        }
        // text that is no value
        static const vector<string> bad = {"", "abc", "--1", "+", "x1", "e5", ".", "#", "I", "-", "\xff"}; memcpy(w, w0, sizeof w);
        if(b != "a1") { string t = r.pick(bad); CHECK(0 != big_file_dtype_parse(t.c_str(), sp.c_str(), w + 32, NULL), "parse-accepted", "text '%s' was accepted as %s", t.c_str(), sp.c_str()); CHECK(!memcmp(w, w0, sizeof w), "parse-failed-touched", "refused text '%s' changed the value of %s", t.c_str(), sp.c_str()); c.st("refused");
            if(d.kind == 'c') { CHECK(0 != big_file_dtype_parse("1.5", sp.c_str(), w + 32, NULL), "parse-accepted", "'1.5' was accepted as %s", sp.c_str()); CHECK(!memcmp(w, w0, sizeof w), "parse-failed-touched", "refused text changed the value"); } }
        static const vector<string> badt = {"i2", "u2", "S1", "S8", "b1", "f2", "f16", "V3", "x9", "i1", "u1", "", "i", "c4", "U4", ">i2", "<S4", "i16"}; string t = r.pick(badt);
        CHECK(0 != big_file_dtype_parse("1", t.c_str(), w + 32, NULL), "parse-accepted", "'1' was accepted as dtype '%s'", t.c_str()); CHECK(!memcmp(w, w0, sizeof w), "parse-failed-touched", "parse of dtype '%s' changed the value", t.c_str());
        // placeholder for types without a text form
        static const vector<string> unk = {"i2", ">i2", "u2", "S8", "f2", "f16", "V3", "i1", "S200", "V30", "U4", "S9999"}; t = r.pick(unk); Bytes val(std::min(itemsize_of(normalized(t)), 16384) + 0); r.fill(val.data(), val.size()); memset(out, 0x7e, sizeof out); Bytes val0 = val;
        big_file_dtype_format(out, t.c_str(), val.data(), NULL); c.st("placeholders");
        CHECK(strnlen(out, 64) < 64 && out[0] == '<' && strstr(out, dt(normalized(t).c_str()).base().c_str()), "format", "no placeholder for %s: '%.40s'", t.c_str(), out); CHECK(val == val0, "format-source", "format changed the value");
    }
    c.sig = d.str() + fmt("%llu", (unsigned long long)c.index); c.nontrivial = true; c.note("format/parse of 20 values of " + sp);
}

#ifndef MODES
#define MODES {"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C28", c28}
#endif
int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    return run_modes(argc, argv, {MODES});
}
