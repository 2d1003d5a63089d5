// C11 every system call failing, C12 killed at every system call, C13F resources under faults.
#include <sys/resource.h>
#include "model.h"
#include "track.h"
#include "inject.h"

enum OpT { O_CREATEF, O_OPENF, O_CREATE, O_OPENB, O_WRITEB, O_READB, O_READS, O_GROW, O_FLUSH, O_CLOSEB, O_SETATTR, O_DELATTR, O_RWRITE, O_RREAD, O_RCREATE, O_RAPPEND };
static const char *opname[] = {"create-file", "open-file", "create", "open", "write", "read", "read_simple", "grow", "flush", "close", "set_attr", "remove_attr", "write_records", "read_records", "create_records", "append_records"};
struct Op { int t, b; size_t start, n; Bytes stored, mem; vector<size_t> fs; AttrVal at; string md; };
struct Slot { BigBlock bb; bool open; MBlock m; bool ck_ok; MBlock flushed; bool has_flushed; };
struct Scen {
    string root; vector<MBlock> init; vector<Op> ops; vector<string> pre_dirs; size_t bufsize; bool records;
};
struct World { Scen *s; BigFile bf; bool fopen_; vector<Slot> sl; bool leaks; set<string> fds; long failed; };

static string op_desc(const Scen &s, const Op &o) { string r = opname[o.t]; if(o.t > O_OPENF) r += fmt(" b%d", o.b); if(o.t == O_WRITEB || o.t == O_READB || o.t == O_READS) r += fmt("[%zu:+%zu]", o.start, o.n); if(o.t == O_GROW) r += fmt("+%zu", o.fs.size()); return r; }

// mem: what is handed to the library; stored: the same in the block's type
static void gen_rows(Rng &r, const MBlock &b, Op &o) {
    DT md = b.d; if(r.chance(1, 3)) md = other_order(b.d); o.md = md.str(); o.mem.resize(o.n * b.felsize()); o.stored.resize(o.n * b.felsize());
    for(size_t i = 0; i < o.n * b.nmemb; i++) { gen_value(r, md, &o.mem[i * md.size]); ref_convert(b.d, &o.stored[i * md.size], md, &o.mem[i * md.size]); }
}
static BigRecordType rec_type(const Scen &s) { // the fields are the blocks 1..; all have the same layout
    BigRecordType rt; memset(&rt, 0, sizeof rt); big_record_type_clear(&rt);
    for(size_t i = 1; i < s.init.size(); i++) big_record_type_set(&rt, i - 1, s.init[i].name.c_str(), s.init[i].d.str().c_str(), s.init[i].nmemb);
    big_record_type_complete(&rt); return rt;
}

// one call of the library under test; returns its result.  Only this runs armed.
static int exec_op(World &w, Op &o, Bytes &out) {
    Slot *sl = o.t > O_OPENF ? &w.sl[o.b] : NULL; BigBlock *bb = sl ? &sl->bb : NULL; int rt = 0;
    BigBlockPtr p; memset(&p, 0, sizeof p); BigArray a; memset(&a, 0, sizeof a); Bytes mem; BigRecordType rty; vector<size_t> fs;
    if(o.t == O_WRITEB || o.t == O_READB) { size_t dims[2] = {o.n, (size_t)sl->m.nmemb}; mem = o.mem; if(o.t == O_READB) { mem.assign(o.n * sl->m.felsize() + 1, 0x5a); } big_array_init(&a, mem.data(), o.t == O_WRITEB ? o.md.c_str() : sl->m.d.str().c_str(), 2, dims, NULL); if(big_block_seek(bb, &p, o.start)) FAIL("seek-failed", "%s", errmsg()); }
    if(o.t >= O_RWRITE) { rty = rec_type(*w.s); mem = o.mem; if(o.t == O_RREAD) mem.assign(o.n * rty.itemsize + 1, 0x5a); }
    big_file_set_error_message(NULL); inj->armed = 1; track_op = inj->op; track_in = w.leaks;
    switch(o.t) {
        case O_CREATEF: rt = big_file_create(&w.bf, w.s->root.c_str()); break;
        case O_OPENF: rt = big_file_open(&w.bf, w.s->root.c_str()); break;
        case O_CREATE: rt = big_file_create_block(&w.bf, bb, sl->m.name.c_str(), sl->m.d.str().c_str(), sl->m.nmemb, o.fs.size(), o.fs.data()); break;
        case O_OPENB: rt = big_file_open_block(&w.bf, bb, sl->m.name.c_str()); break;
        case O_WRITEB: rt = big_block_write(bb, &p, &a); break;
        case O_READB: rt = big_block_read(bb, &p, &a); break;
        case O_READS: rt = big_block_read_simple(bb, o.start, o.n, &a, NULL); break;
        case O_GROW: rt = big_block_grow(bb, o.fs.size(), o.fs.data()); break;
        case O_FLUSH: rt = big_block_flush(bb); break;
        case O_CLOSEB: rt = big_block_close(bb); break;
        case O_SETATTR: rt = big_block_set_attr(bb, o.at.name.c_str(), o.at.data.data(), o.at.dtype.c_str(), o.at.nmemb); break;
        case O_DELATTR: rt = big_block_remove_attr(bb, o.at.name.c_str()); break;
        case O_RWRITE: rt = big_file_write_records(&w.bf, &rty, o.start, o.n, mem.data()); break;
        case O_RREAD: rt = big_file_read_records(&w.bf, &rty, o.start, o.n, mem.data()); break;
        case O_RCREATE: rt = big_file_create_records(&w.bf, &rty, "w+", o.fs.size(), o.fs.data()); break;
        case O_RAPPEND: rt = big_file_create_records(&w.bf, &rty, "a+", o.fs.size(), o.fs.data()); break;
    }
    track_in = 0; inj->armed = 0;
    if(rt) { const char *m = big_file_get_error_message(); CHECK(m && m[0], "no-message", "%s failed without a message", op_desc(*w.s, o).c_str()); }
    if(o.t == O_READS && rt == 0) { out.assign((u8 *)a.data, (u8 *)a.data + o.n * sl->m.felsize()); free(a.data); }
    if(o.t == O_READB) out = mem; if(o.t == O_RREAD) out = mem;
    if(o.t >= O_RWRITE) big_record_type_clear(&rty);
    if(w.leaks) { set<string> now = open_fds(); if(now != w.fds) FAIL("fd-leak", "after %s (result %d) %zu descriptors are open, %zu before", op_desc(*w.s, o).c_str(), rt, now.size(), w.fds.size()); }
    return rt;
}
static void rec_split(World &w, const Op &o, const Bytes &mem, std::function<void(int, size_t, const u8 *)> fn) {
    size_t off = 0, item = 0; for(size_t i = 1; i < w.sl.size(); i++) item += w.sl[i].m.felsize();
    for(size_t i = 1; i < w.sl.size(); i++) { size_t f = w.sl[i].m.felsize(); for(size_t k = 0; k < o.n; k++) fn(i, o.start + k, &mem[k * item + off]); off += f; }
}
// the model after a successful call
static void apply_op(World &w, Op &o, const Bytes &out, bool check) {
    Slot *sl = o.t > O_OPENF ? &w.sl[o.b] : NULL; auto layout = [&](Slot &s) { map<string, RAttr> none; s.m.layout(o.fs); s.m.attrs = none; s.ck_ok = true; s.flushed = s.m; s.has_flushed = true; };
    switch(o.t) {
        case O_CREATE: layout(*sl); sl->open = true; break;
        case O_OPENB: sl->open = true; if(check) { check_desc(&sl->bb, sl->m, "reopened"); string e = attr_diff(api_attrs(&sl->bb), sl->m.attrs); CHECK(e.empty(), "attrs", "open reported success: %s", e.c_str()); } break;
        case O_WRITEB: sl->m.put(o.start, o.n, o.stored.data()); break;
        case O_READB: case O_READS: if(check) for(size_t k = 0; k < o.n; k++) if(sl->m.written[o.start + k]) CHECK(!memcmp(&out[k * sl->m.felsize()], &sl->m.data[(o.start + k) * sl->m.felsize()], sl->m.felsize()), "read-mismatch", "%s reported success, row %zu is %s", op_desc(*w.s, o).c_str(), o.start + k, hexs(&out[k * sl->m.felsize()], sl->m.felsize()).c_str()); break;
        case O_GROW: sl->m.grow(o.fs); break;
        case O_FLUSH: sl->flushed = sl->m; sl->has_flushed = true; break;
        case O_CLOSEB: sl->open = false; sl->flushed = sl->m; sl->has_flushed = true; break;
        case O_SETATTR: { RAttr a; a.dtype = normalized(o.at.dtype); a.nmemb = o.at.nmemb; a.data = o.at.data; sl->m.attrs[o.at.name] = a; break; }
        case O_DELATTR: sl->m.attrs.erase(o.at.name); break;
        case O_RWRITE: rec_split(w, o, o.mem, [&](int i, size_t row, const u8 *p) { w.sl[i].m.put(row, 1, p); }); break;
        case O_RREAD: if(check) rec_split(w, o, out, [&](int i, size_t row, const u8 *p) { size_t f = w.sl[i].m.felsize(); if(w.sl[i].m.written[row]) CHECK(!memcmp(p, &w.sl[i].m.data[row * f], f), "read-mismatch", "records row %zu field %d", row, i); }); break;
        case O_RCREATE: for(size_t i = 1; i < w.sl.size(); i++) layout(w.sl[i]); break;
        case O_RAPPEND: for(size_t i = 1; i < w.sl.size(); i++) w.sl[i].m.grow(o.fs); break;
        default: ;
    }
}
static void must(World &w, Op &o, const char *why) {
    Bytes out; int rt = exec_op(w, o, out);
    if(rt) FAIL("retry-failed", "%s (%s) failed after the cause of the failure was gone: %s", op_desc(*w.s, o).c_str(), why, errmsg());
    apply_op(w, o, out, true);
}
// after a failed close (or a failed operation on records): the block is made again and everything is stored again
static void remake(World &w, int b) {
    Slot &s = w.sl[b]; MBlock m = s.m; Op o; o.b = b; o.t = O_CREATE; o.fs = m.fsize; must(w, o, "re-creating");
    for(size_t i = 0; i < m.rows(); i++) if(m.written[i]) { size_t j = i; while(j < m.rows() && m.written[j]) j++; o.t = O_WRITEB; o.start = i; o.n = j - i; o.md = m.d.str(); o.mem.assign(&m.data[i * m.felsize()], &m.data[i * m.felsize()] + (j - i) * m.felsize()); o.stored = o.mem; must(w, o, "writing again"); i = j; }
    for(auto &a : m.attrs) { o.t = O_SETATTR; o.at.name = a.first; o.at.dtype = a.second.dtype; o.at.nmemb = a.second.nmemb; o.at.data = a.second.data; o.at.data.reserve(1); must(w, o, "setting again"); }
    o.t = O_CLOSEB; must(w, o, "closing again");
}
static void final_check(World &w) { // everything that was reported stored is there, for a fresh handle and an independent reader
    BigFile bf; CHECK(0 == big_file_open(&bf, w.s->root.c_str()), "open-failed", "the file does not open: %s", errmsg());
    for(auto &s : w.sl) {
        if(!s.has_flushed) continue;
        BigBlock bb; CHECK(0 == big_file_open_block(&bf, &bb, s.m.name.c_str()), "open-failed", "every call succeeded, but %s does not open: %s", s.m.name.c_str(), errmsg());
        check_desc(&bb, s.m, "all calls succeeded"); string e = attr_diff(api_attrs(&bb), s.m.attrs); CHECK(e.empty(), "attrs", "all calls succeeded, but %s: %s", s.m.name.c_str(), e.c_str());
        for(size_t i = 0; i < s.m.rows(); i++) if(s.m.written[i]) {
            Bytes b(s.m.felsize()); size_t dims[2] = {1, (size_t)s.m.nmemb}; BigArray a; big_array_init(&a, b.data(), s.m.d.str().c_str(), 2, dims, NULL); BigBlockPtr p;
            CHECK(0 == big_block_seek(&bb, &p, i) && 0 == big_block_read(&bb, &p, &a), "data-lost", "all calls succeeded, but row %zu of %s cannot be read: %s", i, s.m.name.c_str(), errmsg());
            CHECK(!memcmp(b.data(), &s.m.data[i * s.m.felsize()], b.size()), "data-lost", "all calls succeeded, but row %zu of %s is %s, expected %s", i, s.m.name.c_str(), hexs(b.data(), b.size()).c_str(), hexs(&s.m.data[i * s.m.felsize()], b.size()).c_str());
        }
        big_block_close(&bb); string dir = w.s->root + "/" + s.m.name; check_disk_data(dir, s.m, "data-lost"); check_disk_header(dir, s.m, s.ck_ok, "header-lost");
        map<string, RAttr> got; e = disk_attrs(dir, got); CHECK(e.empty(), "attrs", "attr-v2 of %s: %s", s.m.name.c_str(), e.c_str()); e = attr_diff(got, s.m.attrs); CHECK(e.empty(), "attrs", "attr-v2 of %s: %s", s.m.name.c_str(), e.c_str());
    }
    big_file_close(&bf);
}
static void setup_world(World &w, Scen &s, bool leaks) {
    w.s = &s; w.leaks = leaks; w.failed = 0; w.fopen_ = false; w.sl.resize(s.init.size()); big_file_set_buffer_size(s.bufsize);
    for(size_t i = 0; i < s.init.size(); i++) { Slot &x = w.sl[i]; x.m = s.init[i]; x.open = false; x.ck_ok = true; x.has_flushed = exists(s.root + "/" + x.m.name + "/header"); if(x.has_flushed) x.flushed = x.m; memset(&x.bb, 0, sizeof x.bb); }
    if(leaks) { w.fds = open_fds(); track_reset(); }
}
// the whole scenario; at the first failure of a call the injection ends and the call is repeated
static void run_scen(Scen &s, bool leaks) {
    World w; setup_world(w, s, leaks); Bytes out;
    for(size_t k = 0; k < s.ops.size(); k++) {
        Op &o = s.ops[k]; inj->op = k; int rt = exec_op(w, o, out);
        if(rt == 0) { apply_op(w, o, out, true); continue; }
        inj->failed_op = k; inj->nfailed++; inj->kind = F_NONE; inj->persistent = 0; inj->pending_err = 0; inj->target = -1;
        CHECK(inj->fired > 0, "failed-without-cause", "%s failed although nothing was injected: %s", op_desc(s, o).c_str(), errmsg());
        if(o.t == O_CLOSEB) { remake(w, o.b); w.sl[o.b].open = false; }
        else if(o.t == O_RWRITE) { // closes blocks inside
            rec_split(w, o, o.mem, [&](int i, size_t row, const u8 *p) { w.sl[i].m.put(row, 1, p); }); for(size_t i = 1; i < w.sl.size(); i++) remake(w, i); }
        else if(o.t == O_RAPPEND) { apply_op(w, o, out, false); for(size_t i = 1; i < w.sl.size(); i++) remake(w, i); }
        else { if(o.t == O_WRITEB) w.sl[o.b].ck_ok = false; must(w, o, "repeating"); }
    }
    inj->op = s.ops.size();
    for(size_t i = 0; i < w.sl.size(); i++) if(w.sl[i].open) { Op o; o.t = O_CLOSEB; o.b = i; must(w, o, "closing at the end"); }
    final_check(w); track_in = leaks; big_file_close(&w.bf); track_in = 0;
    if(leaks && track_live) { string t; int n = 0; for(auto &x : track_tab) if(x.p && n++ < 6) t += fmt("%zu bytes from %s; ", x.n, x.op < (int)s.ops.size() ? op_desc(s, s.ops[x.op]).c_str() : "the end"); FAIL("memory-leak", "%ld allocations are alive at the end: %s", track_live, t.c_str()); }
}

static void random_block(Rng &r, MBlock &b, const char *name, size_t maxrows, int maxfile) { b.name = name; do b.d = gen_dt(r); while(b.d.size > 8); b.nmemb = r.range(1, 3); b.layout(gen_fsize_nz(r, maxrows, maxfile)); }
static AttrVal small_attr(Rng &r) { AttrVal v; do v = gen_attr(r); while(v.data.size() > 200 || v.name.size() > 60); v.data.reserve(16); return v; }
static Op rw_op(Rng &r, const MBlock &m, int b, bool write) { Op o; o.b = b; o.t = write ? O_WRITEB : r.chance(1, 2) ? O_READB : O_READS; pick_range(r, m, o.start, o.n); if(o.n == 0) { o.start = 0; o.n = m.rows(); } if(write) gen_rows(r, m, o); return o; }
// readable part only: rows that were written
static bool clip_written(const MBlock &m, Op &o) { size_t i = o.start, e = o.start + o.n; while(i < e && !m.written[i]) i++; size_t j = i; while(j < e && m.written[j]) j++; o.start = i; o.n = j - i; return o.n > 0; }

// what exists before: made by the library, not armed
static void initial(Ctx &c, Scen &s, Rng &r) {
    BigFile bf; CHECK(0 == big_file_create(&bf, s.root.c_str()), "create-failed", "%s", errmsg());
    for(auto &m : s.init) if(m.name[0] != '+') {
        BigBlock bb; BigBlockPtr p; must_create(c, &bf, &bb, m); write_rows(c, &bb, &p, m, 0, m.rows(), m.d, 0); for(int k = r.below(3); k > 0; k--) set_attr(c, &bb, m.attrs, small_attr(r)); must_close(c, &bb);
    } else m.name = m.name.substr(1);
    big_file_close(&bf);
}
static void gen_scen(Ctx &c, Scen &s, Rng &r) {
    s.root = c.dir + "/w/f"; mkdirs(c.dir + "/w"); s.records = c.index % 4 == 3; vector<MBlock> m; Op o; o.b = 0; o.start = o.n = 0;
    if(s.records) {
        s.init.resize(r.range(2, 3) + 0); random_block(r, s.init[0], "A", 8, 2); vector<size_t> fs = gen_fsize_nz(r, 8, 2);
        for(size_t i = 1; i < s.init.size(); i++) { random_block(r, s.init[i], i == 1 ? "+r/x" : "+y", 4, 2); s.init[i].layout(fs); }
        initial(c, s, r); size_t item = 0; for(size_t i = 1; i < s.init.size(); i++) item += s.init[i].felsize(); size_t N = 0; for(size_t x : fs) N += x;
        s.bufsize = r.range(1, 40);
        o.t = O_OPENF; s.ops.push_back(o); o.t = O_RCREATE; o.b = 1; o.fs = fs; s.ops.push_back(o);
        o.t = O_RWRITE; o.start = 0; o.n = N; o.mem.resize(N * item); for(auto &x : o.mem) x = r.below(2); s.ops.push_back(o);
        if(r.chance(1, 2)) { o.t = O_RAPPEND; o.fs = gen_fsize_nz(r, 5, 2); s.ops.push_back(o); }
        o.t = O_RREAD; o.start = r.below(N); o.n = 1 + r.below(N - o.start); s.ops.push_back(o);
        return;
    }
    s.init.resize(2); random_block(r, s.init[0], r.chance(1, 2) ? "A" : "g/A", 12, 3); random_block(r, s.init[1], r.chance(1, 2) ? "+B" : "+g/h/B", 10, 3);
    initial(c, s, r); m = s.init; m[1].layout({}); s.bufsize = r.chance(1, 3) ? 1 << 16 : (size_t)r.range(1, 48);
    o.t = r.chance(1, 2) ? O_OPENF : O_CREATEF; s.ops.push_back(o);
    bool openA = false, openB = false, madeB = false; int n = r.range(6, 11); vector<size_t> fsB = s.init[1].fsize;
    auto add = [&](Op q) { s.ops.push_back(q); World w; w.s = &s; w.sl.resize(2); for(int i = 0; i < 2; i++) { w.sl[i].m = m[i]; } apply_op(w, s.ops.back(), Bytes(), false); for(int i = 0; i < 2; i++) m[i] = w.sl[i].m; };
    for(int k = 0; k < n; k++) {
        int b = r.below(2); bool &op = b ? openB : openA; o = Op(); o.b = b; o.start = o.n = 0;
        if(!op) { if(b && (!madeB || r.chance(1, 4))) { o.t = O_CREATE; o.fs = madeB ? gen_fsize(r, 8, 2) : fsB; madeB = true; } else o.t = O_OPENB; op = true; add(o); k--; if(s.ops.size() > 14) break; continue; }
        switch(r.below(9)) {
            case 0: case 1: case 2: if(m[b].rows()) add(rw_op(r, m[b], b, true)); break;
            case 3: { if(!m[b].rows()) break; Op q = rw_op(r, m[b], b, false); if(clip_written(m[b], q)) add(q); break; }
            case 4: o.t = O_GROW; o.fs = gen_fsize(r, 6, 2); add(o); break;
            case 5: o.t = O_FLUSH; add(o); break;
            case 6: o.t = O_SETATTR; o.at = small_attr(r); add(o); break;
            case 7: if(m[b].attrs.size()) { o.t = O_DELATTR; o.at.name = m[b].attrs.begin()->first; add(o); } break;
            default: o.t = O_CLOSEB; add(o); op = false;
        }
    }
    for(int b = 0; b < 2; b++) if(b ? openB : openA) { o = Op(); o.b = b; o.t = O_CLOSEB; add(o); }
    o = Op(); o.b = 0; o.t = O_OPENB; add(o); Op q = rw_op(r, m[0], 0, false); if(clip_written(m[0], q)) add(q); o.t = O_CLOSEB; add(o);
}
struct Fault { long idx; int kind, err, persistent, cls; };
static vector<Fault> faults_of(const vector<SysRec> &log) {
    vector<Fault> v;
    for(long i = 0; i < (long)log.size(); i++) {
        const SysRec &l = log[i]; auto add = [&](int k, int e, int p = 0) { v.push_back({i, k, e, p ? l.cls + 1 : 0, l.cls}); };
        switch(l.cls) {
            case S_OPEN: add(F_ERR, EIO); add(F_ERR, EMFILE); add(F_ERR, EACCES); if(l.flags & 1) add(F_ERR, ENOSPC); else if(!(l.flags & 2)) add(F_ERR, ENOENT); add(F_ERR, EMFILE, 1); break;
            case S_READ: add(F_ERR, EIO); add(F_ERR, EINTR); add(F_SHORT, 0); add(F_ERR, EIO, 1); if(!(l.flags & 2)) add(F_EOF, 0); break;
            case S_WRITE: add(F_ERR, ENOSPC); add(F_ERR, EIO); add(F_ERR, EINTR); add(F_SHORT, 0); add(F_SHORT_ERR, ENOSPC); add(F_ERR, ENOSPC, 1); break;
            case S_SEEK: add(F_ERR, EIO); add(F_ERR, EINVAL); break;
            case S_STAT: add(F_ERR, EIO); add(F_ERR, EACCES); break;
            case S_MKDIR: add(F_ERR, ENOSPC); add(F_ERR, EACCES); add(F_ERR, EIO, 1); break;
            case S_CLOSE: add(F_CLOSE_ERR, EIO); if(l.flags & 4) add(F_CLOSE_LOST, ENOSPC); break;
            default: add(F_ERR, EIO);
        }
    }
    return v;
}
static void restore(const Scen &s, const map<string, Bytes> &snap) {
    rm_rf(s.root); mkdirs(s.root);
    for(auto &f : snap) if(f.first.back() == '/') mkdirs(s.root + "/" + f.first); else write_file(s.root + "/" + f.first, f.second.data(), f.second.size());
}
static void verdict(Ctx &c, const Scen &s, int st, const string &err, const string &what) {
    if(inj->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    string ops; for(auto &o : s.ops) ops += op_desc(s, o) + "; ";
    c.note(what + " | calls: " + ops);
    if(WIFEXITED(st) && WEXITSTATUS(st) == 97) FAIL("harness", "%s", err.c_str());
    if(inj->status == 2) throw Fail{inj->key, what + ": " + inj->msg};
    FAIL(crash_key(err, st), "%s: %s", what.c_str(), err.substr(0, 2500).c_str());
}
static void faults(Ctx &c, bool leaks) {
    Rng r = c.r; Scen s; inj_alloc(); inj_reset(); gen_scen(c, s, r); map<string, Bytes> snap = snapshot(s.root); string err; c.desc.clear(); track_init();
    // without faults: what is called
    int st = in_child(c, [&] { inj_install(); run_scen(s, leaks); }, err); verdict(c, s, st, err, "no fault");
    CHECK(inj->nfailed == 0, "failed-without-cause", "a call failed without a fault");
    vector<SysRec> log(inj->log, inj->log + inj->nlog); vector<Fault> fs = faults_of(log); c.st("scenarios"); c.st("syscalls_seen", log.size());
    size_t budget = c.tier ? 4000 : 260; // all of them, or an evenly spread part
    size_t step = fs.size() > budget ? fs.size() / budget + 1 : 1, first = step > 1 ? r.below(step) : 0; if(step == 1) c.st("scenarios_enumerated");
    for(size_t i = first; i < fs.size(); i += step) {
        const Fault &f = fs[i]; inj_reset(); restore(s, snap); c.prog->index = c.index; c.prog->running++;
        inj->target = f.idx; inj->kind = f.kind; inj->err = f.err; inj->persistent = f.persistent; int op = log[f.idx].op;
        string what = fmt("system call %ld (%s%s) of %s: %s %s%s", f.idx, sclass_name[f.cls], log[f.idx].flags & 2 ? " of an attribute file" : "", op < (int)s.ops.size() ? op_desc(s, s.ops[op]).c_str() : "the end", fkind_name[f.kind], f.err ? strerror(f.err) : "", f.persistent ? " and all later ones" : "");
        st = in_child(c, [&] { inj_install(); run_scen(s, leaks); }, err); verdict(c, s, st, err, what);
        c.st("faults"); c.st(fmt("fault_%s_%s", sclass_name[f.cls], fkind_name[f.kind])); c.st(inj->fired ? inj->nfailed ? "reported" : "absorbed" : "not_reached");
    }
    string ops; for(auto &o : s.ops) ops += op_desc(s, o) + "; "; c.note(fmt("%zu system calls, %zu faults: ", log.size(), fs.size()) + ops); c.sig = ops + fmt("%zu", log.size()); c.nontrivial = fs.size() > 20;
}
// real causes: full device, file-size limit, descriptor limit, files removed or replaced
static void limits(Ctx &c) {
    Rng &r = c.r; MBlock m; random_block(r, m, "A", 12, 3); string root = c.dir + "/f", dir = root + "/A"; BigFile bf; BigBlock bb; BigBlockPtr p; set_buffer(r, m.felsize()); big_file_set_buffer_size(r.range(1, 64));
    CHECK(0 == big_file_create(&bf, root.c_str()), "create-failed", "%s", errmsg()); must_create(c, &bf, &bb, m); write_rows(c, &bb, &p, m, 0, m.rows(), m.d, 0); set_attr(c, &bb, m.attrs, small_attr(r)); must_close(c, &bb); must_open(c, &bf, &bb, "A");
    size_t fid = 0, off = 0; do { fid = r.below(m.fsize.size()); } while(m.fsize[fid] == 0); for(size_t i = 0; i < fid; i++) off += m.fsize[i];
    Bytes rows(m.rows() * m.felsize()); size_t dims[2] = {m.rows(), (size_t)m.nmemb}; BigArray a; auto arr = [&](size_t start, size_t n) { dims[0] = n; big_array_init(&a, rows.data(), m.d.str().c_str(), 2, dims, NULL); CHECK(0 == big_block_seek(&bb, &p, start), "seek-failed", "%s", errmsg()); };
    auto fails = [&](int rt, const char *what) { CHECK(rt != 0, "failure-as-success", "%s reported success", what); const char *e = big_file_get_error_message(); CHECK(e && e[0], "no-message", "%s failed without a message", what); c.st("real_failures"); big_file_set_error_message(NULL); };
    string df = disk_datafile(dir, fid), keep = df + ".keep"; big_file_set_error_message(NULL); struct rlimit l0, l; bool closed = false;
    int kind = r.below(10); c.note(fmt("real failure %d of %s, file %zu", kind, m.desc().c_str(), fid));
    if(kind == 0) { rename(df.c_str(), keep.c_str()); symlink("/dev/full", df.c_str()); arr(off, m.fsize[fid]); fails(big_block_write(&bb, &p, &a), "write to a full device"); unlink(df.c_str()); rename(keep.c_str(), df.c_str()); }
    else if(kind == 1) { getrlimit(RLIMIT_FSIZE, &l0); l = l0; l.rlim_cur = r.below(m.fsize[fid] * m.felsize()); setrlimit(RLIMIT_FSIZE, &l); arr(off, m.fsize[fid]); int rt = big_block_write(&bb, &p, &a); setrlimit(RLIMIT_FSIZE, &l0); fails(rt, "write beyond the file size limit"); }
    else if(kind == 2) { getrlimit(RLIMIT_NOFILE, &l0); l = l0; l.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &l); BigBlock b2; arr(off, 1); int w = big_block_write(&bb, &p, &a), rd = big_block_read(&bb, &p, &a), op = big_file_open_block(&bf, &b2, "A"), cr = big_file_create_block(&bf, &b2, "C", "i4", 1, m.fsize.size(), m.fsize.data()), fl = (big_block_set_dirty(&bb, 1), big_block_flush(&bb)), g = big_block_grow(&bb, 1, m.fsize.data()); setrlimit(RLIMIT_NOFILE, &l0);
        fails(w, "write without descriptors"); }
    else if(kind == 3) { rename(df.c_str(), keep.c_str()); arr(off, 1); fails(big_block_read(&bb, &p, &a), "read of a missing file"); arr(off, 1); fails(big_block_write(&bb, &p, &a), "write to a missing file"); rename(keep.c_str(), df.c_str()); }
    else if(kind == 4 || kind == 5) { string h = dir + (kind == 4 ? "/header" : "/attr-v2"); set_attr(c, &bb, m.attrs, small_attr(r)); big_block_set_dirty(&bb, 1); rename(h.c_str(), keep.c_str()); symlink("/dev/full", h.c_str()); fails(big_block_flush(&bb), "flush to a full device"); if(r.chance(1, 2)) { unlink(h.c_str()); rename(keep.c_str(), h.c_str()); CHECK(0 == big_block_flush(&bb), "retry-failed", "flush after the cause was gone: %s", errmsg()); } else { fails(big_block_close(&bb), "close to a full device"); unlink(h.c_str()); rename(keep.c_str(), h.c_str()); closed = true; m.attrs.clear(); } }
    else if(kind == 6) { string nx = disk_datafile(dir, m.fsize.size() + 1); mkdir(nx.c_str(), 0755); size_t fs[2] = {2, 3}; fails(big_block_grow(&bb, 2, fs), "grow over a directory"); check_desc(&bb, m, "refused grow"); rmdir(nx.c_str()); CHECK(0 == big_block_grow(&bb, 2, fs), "retry-failed", "%s", errmsg()); m.grow({2, 3}); }
    else if(kind == 7) { string h = dir + "/attr-v2"; struct stat sb; stat(h.c_str(), &sb); if(sb.st_size) { truncate(h.c_str(), r.below(sb.st_size)); } BigBlock b2; memset(&b2, 0, sizeof b2); if(0 == big_file_open_block(&bf, &b2, "A")) big_block_close(&b2); big_block_set_dirty(&bb, 1); big_attrset_set_dirty(bb.attrset, 1); must_flush(c, &bb); }
    else if(kind == 8) { // another process is not allowed to read or write
        chmod(c.dir.c_str(), 0755); bool ro = r.chance(1, 2); chmod(df.c_str(), ro ? 0444 : 0000); inj_alloc(); inj_reset(); string err; Ctx c2 = c; c2.dir = c.dir + "/child"; big_file_set_error_message(NULL);
        int st = in_child(c, [&] { if(setgid(65534) || setuid(65534)) _exit(97); arr(off, 1); fails(big_block_write(&bb, &p, &a), "write to an unwritable file"); arr(off, 1); int rt = big_block_read(&bb, &p, &a); if(!ro) fails(rt, "read of an unreadable file"); size_t fs[1] = {1}; BigBlock b2; fails(big_file_create_block(&bf, &b2, "N", "i4", 1, 1, fs), "create in an unwritable directory"); big_block_set_dirty(&bb, 1); fails(big_block_flush(&bb), "flush to an unwritable directory"); }, err);
        chmod(df.c_str(), 0644); if(inj->status == 2) throw Fail{inj->key, inj->msg}; if(!(WIFEXITED(st) && !WEXITSTATUS(st) && inj->status == 1)) { if(WIFEXITED(st) && WEXITSTATUS(st) == 97) FAIL("harness", "no unprivileged user"); FAIL(crash_key(err, st), "%s", err.c_str()); } c.st("real_failures"); }
    else { rename((dir + "/header").c_str(), keep.c_str()); BigBlock b2; fails(big_file_open_block(&bf, &b2, "A"), "open without a header"); rename(keep.c_str(), (dir + "/header").c_str()); }
    // after the cause is gone everything works
    if(closed) { must_create(c, &bf, &bb, m); m.layout(vector<size_t>(m.fsize)); }
    write_rows(c, &bb, &p, m, 0, m.rows(), m.d, 0); must_close(c, &bb); must_open(c, &bf, &bb, "A"); check_desc(&bb, m, "after recovery"); read_all(c, &bb, m); must_close(c, &bb); check_disk_data(dir, m); big_file_close(&bf);
    c.sig = c.desc; c.nontrivial = true;
}
static void c11(Ctx &c) { if(c.index % 3 == 2) limits(c); else { uint64_t i = c.index; c.index = i - i / 3 - (i % 3 == 2); faults(c, false); c.index = i; } }
// only leaks are judged here; the rest is C11
static void c13f(Ctx &c) { try { faults(c, true); } catch(const Fail &f) { if(f.key == "fd-leak" || f.key == "memory-leak" || !f.key.compare(0, 5, "crash") || !f.key.compare(0, 7, "harness")) throw; c.st("not_judged"); } }

// ------------------------------------------------------------------ C12
static void kill_check(Ctx &c, Scen &s, const map<string, Bytes> &snap, const vector<map<string, Bytes>> &after, int killed_op, const vector<Extent> &ext, const string &what) {
    World w; setup_world(w, s, false); for(auto &x : w.sl) { x.open = false; }
    for(int k = 0; k < killed_op; k++) apply_op(w, s.ops[k], Bytes(), false);
    Op *cur = killed_op < (int)s.ops.size() ? &s.ops[killed_op] : NULL;
    map<string, Bytes> now = snapshot(s.root); BigFile bf; CHECK(0 == big_file_open(&bf, s.root.c_str()), "open-failed", "the file does not open: %s", errmsg());
    for(size_t i = 0; i < w.sl.size(); i++) {
        Slot &x = w.sl[i]; bool in_use = x.open || (cur && cur->t > O_OPENF && (cur->b == (int)i || (cur->t >= O_RWRITE && i >= 1))); if(!x.has_flushed) continue; string pre = x.m.name + "/";
        if(!in_use) { // closed and not touched: byte-identical to what it was when it was closed
            const map<string, Bytes> &ref = killed_op > 0 ? after[killed_op - 1] : snap;
            for(auto &f : ref) if(f.first.compare(0, pre.size(), pre) == 0) CHECK(now.count(f.first) && now[f.first] == f.second, "other-block-damaged", "closed block %s: file %s %s", x.m.name.c_str(), f.first.c_str(), now.count(f.first) ? "changed" : "is gone");
            for(auto &f : now) if(f.first.compare(0, pre.size(), pre) == 0) CHECK(ref.count(f.first), "other-block-damaged", "closed block %s: new file %s", x.m.name.c_str(), f.first.c_str());
            BigBlock bb; CHECK(0 == big_file_open_block(&bf, &bb, x.m.name.c_str()), "other-block-damaged", "closed block %s does not open: %s", x.m.name.c_str(), errmsg());
            check_desc(&bb, x.m, "closed block after the kill"); string e = attr_diff(api_attrs(&bb), x.m.attrs); CHECK(e.empty(), "other-block-damaged", "%s", e.c_str()); read_all(c, &bb, x.m); big_block_close(&bb); c.st("closed_blocks_checked"); continue;
        }
        // being written.  While its header or attributes are rewritten nothing is claimed
        if(cur && cur->t > O_OPENF && (cur->b == (int)i || cur->t >= O_RWRITE)) if(cur->t == O_FLUSH || cur->t == O_CLOSEB || cur->t == O_CREATE || cur->t >= O_RWRITE) { c.st("rewrites_skipped"); continue; }
        BigBlock bb; CHECK(0 == big_file_open_block(&bf, &bb, x.m.name.c_str()), "unreadable-after-kill", "block %s, last flushed as %s, does not open: %s", x.m.name.c_str(), x.flushed.desc().c_str(), errmsg());
        check_desc(&bb, x.flushed, "after the kill"); string e = attr_diff(api_attrs(&bb), x.flushed.attrs); CHECK(e.empty(), "attrs-after-kill", "block %s: %s", x.m.name.c_str(), e.c_str());
        size_t F = x.flushed.rows(), f = x.m.felsize(); vector<char> inrange(x.m.rows(), 0), mustnew(x.m.rows(), 0);
        if(cur && cur->t == O_WRITEB && cur->b == (int)i) {
            for(size_t k = 0; k < cur->n; k++) inrange[cur->start + k] = 1;
            // rows of this write that completed system calls have stored
            vector<size_t> fo(1, 0); for(size_t z : x.m.fsize) fo.push_back(fo.back() + z); int dh = dir_hash(s.root + "/" + x.m.name); vector<vector<char>> got(x.m.fsize.size());
            for(size_t k = 0; k < x.m.fsize.size(); k++) got[k].assign(x.m.fsize[k] * f, 0);
            for(auto &q : ext) if(q.op == killed_op && q.file == dh && q.fileid < (int)got.size()) for(long z = q.off; z < q.off + q.len && z < (long)got[q.fileid].size(); z++) got[q.fileid][z] = 1;
            for(size_t k = 0; k < got.size(); k++) for(size_t row = 0; row < x.m.fsize[k]; row++) { bool all = true; for(size_t z = 0; z < f; z++) all = all && got[k][row * f + z]; if(all) { CHECK(inrange[fo[k] + row], "other-rows-written", "row %zu of %s, outside the write of [%zu,+%zu), was written", fo[k] + row, x.m.name.c_str(), cur->start, cur->n); mustnew[fo[k] + row] = 1; } }
        }
        for(size_t row = 0; row < F; row++) {
            if(inrange[row] && !mustnew[row]) continue; if(!inrange[row] && !x.m.written[row]) continue;
            const u8 *want = inrange[row] ? &cur->stored[(row - cur->start) * f] : &x.m.data[row * f];
            Bytes b(f); size_t dims[2] = {1, (size_t)x.m.nmemb}; BigArray a; big_array_init(&a, b.data(), x.m.d.str().c_str(), 2, dims, NULL); BigBlockPtr p;
            CHECK(0 == big_block_seek(&bb, &p, row) && 0 == big_block_read(&bb, &p, &a), "row-lost", "%srow %zu of %s cannot be read: %s", inrange[row] ? "completed " : "untouched ", row, x.m.name.c_str(), errmsg());
            CHECK(!memcmp(b.data(), want, f), "row-lost", "%srow %zu of %s is %s, expected %s", inrange[row] ? "completed " : "untouched ", row, x.m.name.c_str(), hexs(b.data(), f).c_str(), hexs(want, f).c_str());
            c.st(inrange[row] ? "completed_rows_checked" : "untouched_rows_checked");
        }
        big_block_close(&bb); c.st("interrupted_blocks_checked");
    }
    // group attributes set before stay
    for(auto &f : snap) if(f.first == "g/attr-v2" || f.first == "attr-v2") CHECK(now.count(f.first) && now[f.first] == f.second, "other-block-damaged", "group attributes %s changed", f.first.c_str());
    big_file_close(&bf);
}
static void c12(Ctx &c) {
    Rng r = c.r; Scen s; inj_alloc(); inj_reset(); gen_scen(c, s, r);
    { BigFile bf; BigBlock bb; CHECK(0 == big_file_open(&bf, s.root.c_str()), "open-failed", "%s", errmsg()); map<string, RAttr> at; if(r.chance(1, 2)) mkdirs(s.root + "/g"); string g = exists(s.root + "/g") ? "g/." : "."; CHECK(0 == big_file_open_block(&bf, &bb, g.c_str()), "open-failed", "%s", errmsg()); set_attr(c, &bb, at, small_attr(r)); must_close(c, &bb); big_file_close(&bf); }
    map<string, Bytes> snap = snapshot(s.root); string err; c.desc.clear(); string ops; for(auto &o : s.ops) ops += op_desc(s, o) + "; ";
    // without a kill; the directory after every call
    string ref = c.dir + "/ref"; vector<map<string, Bytes>> after(s.ops.size());
    { World w; setup_world(w, s, false); Bytes out; for(size_t k = 0; k < s.ops.size(); k++) { int rt = exec_op(w, s.ops[k], out); CHECK(rt == 0, "failed-without-cause", "%s: %s", op_desc(s, s.ops[k]).c_str(), errmsg()); apply_op(w, s.ops[k], out, true); after[k] = snapshot(s.root); } big_file_close(&w.bf); }
    inj_reset(); restore(s, snap); int st = in_child(c, [&] { inj_install(); World w; setup_world(w, s, false); Bytes out; for(size_t k = 0; k < s.ops.size(); k++) { inj->op = k; int rt = exec_op(w, s.ops[k], out); CHECK(rt == 0, "failed-without-cause", "%s", errmsg()); apply_op(w, s.ops[k], out, true); } }, err); verdict(c, s, st, err, "no kill");
    long total = inj->count; vector<SysRec> log(inj->log, inj->log + inj->nlog); c.st("scenarios"); c.st("syscalls_seen", total);
    long budget = c.tier ? 100000 : 220, step = total > budget ? total / budget + 1 : 1, first = step > 1 ? r.below(step) : 0; if(step == 1) c.st("scenarios_enumerated");
    for(long n = first; n < total; n += step) {
        inj_reset(); restore(s, snap); inj->target = n; inj->kind = F_KILL; c.prog->running++;
        st = in_child(c, [&] { inj_install(); World w; setup_world(w, s, false); Bytes out; for(size_t k = 0; k < s.ops.size(); k++) { inj->op = k; int rt = exec_op(w, s.ops[k], out); if(rt) FAIL("failed-without-cause", "%s", errmsg()); apply_op(w, s.ops[k], out, false); } }, err);
        string what = fmt("killed before system call %ld (%s) of %s", n, sclass_name[log[n].cls], op_desc(s, s.ops[log[n].op]).c_str());
        if(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { verdict(c, s, st, err, what); FAIL("harness", "child was not killed: %s", what.c_str()); }
        vector<Extent> ext(inj->ext, inj->ext + inj->next);
        try { kill_check(c, s, snap, after, log[n].op, ext, what); } catch(Fail &f) { c.note(what + " | calls: " + ops); f.msg = what + ": " + f.msg; throw; }
        c.st("kills"); c.st(fmt("kill_in_%s", opname[s.ops[log[n].op].t])); c.desc.clear();
    }
    c.note(fmt("%ld system calls: ", total) + ops); c.sig = ops + fmt("%ld", total); c.nontrivial = total > 10;
}

#ifndef MODES
#define MODES {"C11", c11}, {"C12", c12}, {"C13F", c13f}
#endif
int main(int argc, char **argv) { signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN); return run_modes(argc, argv, {MODES}); }
