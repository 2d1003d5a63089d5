// Shared machinery of the harnesses: PRNG, case runner, reference model of types, of array
// layouts and of the on-disk format.  Nothing here is taken from the code under test; only its
// public headers are used by the harnesses.
#pragma once
#include <ctime>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <limits>

typedef uint8_t u8;
typedef std::vector<u8> Bytes;
using std::string;
using std::vector;
using std::map;
using std::set;

static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) {
    va_list va; va_start(va, f); int n = vsnprintf(NULL, 0, f, va); va_end(va);
    string s(n + 1, '\0'); va_start(va, f); vsnprintf(&s[0], n + 1, f, va); va_end(va);
    s.resize(n); return s;
}

struct Fail { string key, msg; };
#define FAIL(key, ...) throw Fail{key, fmt(__VA_ARGS__)}
#define CHECK(cond, key, ...) do { if(!(cond)) FAIL(key, __VA_ARGS__); } while(0)

static inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const u8 *c = (const u8 *)p; while(n--) { h ^= *c++; h *= 1099511628211ull; } return mix64(h);
}
static inline uint64_t hash_str(const string &s) { return hash_bytes(s.data(), s.size()); }

struct Rng {
    uint64_t s;
    Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    template<class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
    void fill(void *p, size_t n) { u8 *c = (u8 *)p; while(n >= 8) { uint64_t x = u64(); memcpy(c, &x, 8); c += 8; n -= 8; } if(n) { uint64_t x = u64(); memcpy(c, &x, n); } }
    // mostly small, now and then up to max
    int64_t skew(int64_t max) { if(max <= 0) return 0; int k = below(6); int64_t m = k < 2 ? 3 : k < 4 ? 12 : k < 5 ? 60 : max; if(m > max) m = max; return below(m + 1); }
};

static string hexs(const void *p, size_t n, size_t max = 48) {
    string s; const u8 *c = (const u8 *)p;
    for(size_t i = 0; i < n && i < max; i++) s += fmt("%02x", c[i]);
    if(n > max) s += "..";
    return s;
}
static string jstr(const string &s) {
    string r = "\"";
    for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; }
    return r + "\"";
}

// ------------------------------------------------------------------ files (scratch only)
static void rm_rf(const string &path) {
    struct stat st;
    if(lstat(path.c_str(), &st)) return;
    if(S_ISDIR(st.st_mode)) {
        chmod(path.c_str(), 0700);
        DIR *d = opendir(path.c_str());
        if(d) {
            vector<string> names;
            while(struct dirent *e = readdir(d)) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
            closedir(d);
            for(auto &n : names) rm_rf(path + "/" + n);
        }
        rmdir(path.c_str());
    } else unlink(path.c_str());
}
static bool read_file(const string &path, Bytes &out) {
    int fd = open(path.c_str(), O_RDONLY); if(fd < 0) return false;
    struct stat st; if(fstat(fd, &st) || !S_ISREG(st.st_mode)) { close(fd); return false; }
    out.resize(st.st_size); size_t got = 0;
    while(got < out.size()) { ssize_t r = read(fd, out.data() + got, out.size() - got); if(r <= 0) break; got += r; }
    out.resize(got); close(fd); return true;
}
static void write_file(const string &path, const void *p, size_t n) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd < 0) { fprintf(stderr, "HARNESS: cannot write %s: %s\n", path.c_str(), strerror(errno)); _exit(97); }
    const char *c = (const char *)p;
    while(n) { ssize_t r = write(fd, c, n); if(r <= 0) _exit(97); c += r; n -= r; }
    close(fd);
}
static void mkdirs(const string &path) {
    string cur;
    for(size_t i = 0; i <= path.size(); i++) if(i == path.size() || path[i] == '/') { cur = path.substr(0, i); if(cur.size()) mkdir(cur.c_str(), 0755); }
}
static bool exists(const string &p) { struct stat st; return !stat(p.c_str(), &st); }
static void snap_r(const string &root, const string &rel, map<string, Bytes> &out) {
    DIR *d = opendir((root + "/" + rel).c_str()); if(!d) return;
    vector<string> names;
    while(struct dirent *e = readdir(d)) if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    for(auto &n : names) {
        string r = rel.empty() ? n : rel + "/" + n; struct stat st;
        if(lstat((root + "/" + r).c_str(), &st)) continue;
        if(S_ISDIR(st.st_mode)) { out[r + "/"] = Bytes(); snap_r(root, r, out); }
        else { Bytes b; read_file(root + "/" + r, b); out[r] = b; }
    }
}
// path (relative) -> content of every file below root; directories end with '/'
static map<string, Bytes> snapshot(const string &root) { map<string, Bytes> m; snap_r(root, "", m); return m; }

static set<string> open_fds() {
    set<string> s; DIR *d = opendir("/proc/self/fd"); if(!d) return s; int self = dirfd(d);
    while(struct dirent *e = readdir(d)) if(e->d_name[0] != '.' && atoi(e->d_name) != self) s.insert(e->d_name);
    closedir(d); return s;
}

// ------------------------------------------------------------------ types
struct DT {
    char order, kind; int size;
    string str() const { return fmt("%c%c%d", order, kind, size); }
    string base() const { return fmt("%c%d", kind, size); }
    bool numeric() const { string b = base(); return b == "i4" || b == "i8" || b == "u4" || b == "u8" || b == "f4" || b == "f8"; }
    bool native() const { return order == '<'; }
    bool operator==(const DT &o) const { return order == o.order && kind == o.kind && size == o.size; }
};
static inline DT dt(const char *s) { DT d; const char *p = s; if(strchr("<>=|", *p)) { d.order = *p == '>' ? '>' : '<'; p++; } else d.order = '<'; d.kind = *p; d.size = atoi(p + 1); return d; }
// another spelling of the same type
static string spell(Rng &r, const DT &d) {
    if(d.order == '>') return d.str();
    switch(r.below(4)) { case 0: return d.base(); case 1: return "=" + d.base(); case 2: return "|" + d.base(); default: return d.str(); }
}
static void swap_comp(u8 *p, const DT &d) {
    int nc = d.kind == 'c' ? 2 : 1, e = d.size / nc;
    if(d.kind == 'S' && d.size > 1) { /* reversed as a unit, like numbers */ }
    for(int k = 0; k < nc; k++, p += e) std::reverse(p, p + e);
}
// value conversion by the C rules.  returns 0 ok, 1 not a supported pair, 2 out of range (C undefined)
template<class D, class S> static int conv1(u8 *d, const u8 *s) {
    S x; memcpy(&x, s, sizeof x);
    if(std::numeric_limits<D>::is_integer && !std::numeric_limits<S>::is_integer) {
        double v = (double)x;
        if(!(v > (double)std::numeric_limits<D>::min() - 1.0 || v == (double)std::numeric_limits<D>::min())) return 2;
        if(!(v < ldexp(1.0, std::numeric_limits<D>::digits))) return 2;
    }
    D y = (D)x; memcpy(d, &y, sizeof y); return 0;
}
template<class D> static int convTo(u8 *d, const DT &sd, const u8 *s) {
    string b = sd.base();
    if(b == "i4") return conv1<D, int32_t>(d, s);
    if(b == "i8") return conv1<D, int64_t>(d, s);
    if(b == "u4") return conv1<D, uint32_t>(d, s);
    if(b == "u8") return conv1<D, uint64_t>(d, s);
    if(b == "f4") return conv1<D, float>(d, s);
    if(b == "f8") return conv1<D, double>(d, s);
    if(b == "b1") return conv1<D, signed char>(d, s);
    return 1;
}
static int ref_convert(const DT &dd, u8 *d, const DT &sd, const u8 *s0) {
    u8 s[512], t[512]; memcpy(s, s0, sd.size);
    if(sd.order == '>') swap_comp(s, sd);
    string b = dd.base(); int rt = 1;
    if(b == sd.base()) { memcpy(t, s, sd.size); rt = 0; }
    else if(b == "i4") rt = convTo<int32_t>(t, sd, s);
    else if(b == "i8") rt = convTo<int64_t>(t, sd, s);
    else if(b == "u4") rt = convTo<uint32_t>(t, sd, s);
    else if(b == "u8") rt = convTo<uint64_t>(t, sd, s);
    else if(b == "f4") rt = convTo<float>(t, sd, s);
    else if(b == "f8") rt = convTo<double>(t, sd, s);
    else if(b == "c8" && sd.base() == "c16") { rt = conv1<float, double>(t, s); conv1<float, double>(t + 4, s + 8); }
    else if(b == "c16" && sd.base() == "c8") { rt = conv1<double, float>(t, s); conv1<double, float>(t + 8, s + 4); }
    if(rt) return rt;
    if(dd.order == '>') swap_comp(t, dd);
    memcpy(d, t, dd.size); return 0;
}
static bool ref_supported(const DT &dd, const DT &sd) {
    if(dd.base() == sd.base()) return true;
    if(dd.numeric() && (sd.numeric() || sd.base() == "b1")) return true;
    if(dd.base() == "c8" && sd.base() == "c16") return true;
    if(dd.base() == "c16" && sd.base() == "c8") return true;
    return false;
}
// an interesting value of type sd such that converting it to dd is defined; bytes in sd's order
static void gen_value(Rng &r, const DT &sd, u8 *out, const DT *dd = NULL) {
    u8 tmp[512];
    for(int tries = 0; ; tries++) {
        string b = sd.base();
        if(tries > 8) { // something every type can hold
            memset(out, 0, sd.size);
            int v = r.below(100);
            if(b == "f4") { float x = v; memcpy(out, &x, 4); } else if(b == "f8") { double x = v; memcpy(out, &x, 8); }
            else if(b == "b1") out[0] = v & 1; else out[0] = v;
        } else if(b == "b1") out[0] = r.below(2);
        else if(sd.kind == 'i' || sd.kind == 'u') {
            switch(r.below(6)) {
                case 0: memset(out, 0, sd.size); out[0] = r.below(128); break;
                case 1: memset(out, 0xff, sd.size); if(r.chance(1, 2)) out[sd.size - 1] = 0x7f; break;
                case 2: memset(out, 0, sd.size); out[sd.size - 1] = 0x80; break;
                case 3: { int64_t v = -(int64_t)r.below(1000); u8 w[16]; memset(w, v < 0 ? 0xff : 0, 16); memcpy(w, &v, 8); memcpy(out, w, sd.size > 16 ? 16 : sd.size); break; }
                case 4: { uint64_t v = (1ull << r.below(64)) + (int64_t)r.range(-1, 1); u8 w[16] = {0}; memcpy(w, &v, 8); memcpy(out, w, sd.size > 16 ? 16 : sd.size); break; }
                default: r.fill(out, sd.size);
            }
        } else if(b == "f4" || b == "f8" || b == "c8" || b == "c16") {
            bool f4 = b == "f4" || b == "c8"; int e = f4 ? 4 : 8;
            for(int k = 0; k < sd.size; k += e) {
                double v; bool raw = false;
                switch(r.below(9)) {
                    case 0: v = (double)r.range(-1000, 1000); break;
                    case 1: v = r.chance(1, 2) ? 0.0 : -0.0; break;
                    case 2: v = r.chance(1, 2) ? INFINITY : -INFINITY; break;
                    case 3: v = (double)(int64_t)r.u64(); break;
                    case 4: v = ldexp((double)r.range(-4096, 4096), (int)r.range(-60, 60)); break;
                    case 5: v = ldexp(1.0, (int)r.range(20, 63)) + r.range(-1, 1); if(r.chance(1, 2)) v = -v; break;
                    case 6: v = r.range(-300, 300) + 0.5; break;
                    default: raw = true; v = 0;
                }
                if(raw) r.fill(out + k, e); else if(f4) { float x = (float)v; memcpy(out + k, &x, 4); } else memcpy(out + k, &v, 8);
            }
        } else r.fill(out, sd.size);
        if(sd.order == '>') swap_comp(out, sd);
        if(!dd || ref_convert(*dd, tmp, sd, out) != 2) return;
    }
}
// equality of converted values: bitwise, but a NaN made by a float<->float conversion may be any NaN
static bool same_value(const DT &d, const u8 *a, const u8 *b, bool converted) {
    if(!memcmp(a, b, d.size)) return true;
    if(!converted) return false;
    string k = d.base(); u8 x[16], y[16];
    if(k != "f4" && k != "f8" && k != "c8" && k != "c16") return false;
    memcpy(x, a, d.size); memcpy(y, b, d.size);
    if(d.order == '>') { swap_comp(x, d); swap_comp(y, d); }
    int e = (k == "f4" || k == "c8") ? 4 : 8;
    for(int i = 0; i < d.size; i += e) {
        if(!memcmp(x + i, y + i, e)) continue;
        if(e == 4) { float p, q; memcpy(&p, x + i, 4); memcpy(&q, y + i, 4); if(!(p != p && q != q)) return false; }
        else { double p, q; memcpy(&p, x + i, 8); memcpy(&q, y + i, 8); if(!(p != p && q != q)) return false; }
    }
    return true;
}
static const vector<string> &num_bases() { static vector<string> v = {"i4", "i8", "u4", "u8", "f4", "f8"}; return v; }
static DT gen_dt(Rng &r, bool any = true) {
    static const vector<string> common = {"i4", "i8", "u4", "u8", "f4", "f8", "f8", "c8", "c16", "b1"};
    static const vector<string> odd = {"i1", "u1", "i2", "u2", "f2", "f16", "S1", "S5", "S16", "i16", "u16"};
    DT d = dt((any && r.chance(1, 4) ? r.pick(odd) : r.pick(common)).c_str());
    d.order = r.chance(1, 3) && d.kind != 'S' && d.size > 1 ? '>' : '<';
    return d;
}

// ------------------------------------------------------------------ array layouts
struct Layout {
    int ndim; size_t dims[32]; ptrdiff_t strides[32];
    bool nullstrides; ptrdiff_t base; size_t bytes; size_t n; int item; string desc;
    vector<ptrdiff_t> off; // of each element in C order, relative to the buffer
};
// n rows x m members of item bytes.  style 0 simple; 1 any; 2 two-dimensional only (MPI)
static Layout gen_layout(Rng &r, size_t rows, size_t m, int item, int style, bool bcast = false) {
    Layout L; L.item = item; L.n = rows * m; L.nullstrides = false;
    vector<size_t> dims;
    if(style == 0 || style == 2) dims = {rows, m};
    else switch(r.below(5)) {
        case 0: dims = {rows, m}; break;
        case 1: dims = {rows * m}; break;
        case 2: { size_t a = 1; for(size_t k = 2; k <= 8; k++) if(rows && rows % k == 0 && r.chance(1, 2)) { a = k; break; } dims = {rows ? a : 0, rows ? rows / a : 1, m}; break; }
        case 3: { size_t a = 1; for(size_t k = 2; k <= 8; k++) if(m % k == 0 && r.chance(1, 2)) { a = k; break; } dims = {rows, a, m / a}; if(r.chance(1, 3)) dims = {a, rows, m / a}; break; }
        default: dims = {rows, m}; for(int k = r.chance(1, 4) ? r.range(4, 20) : r.range(1, 3); k > 0; k--) dims.insert(dims.begin() + r.below(dims.size() + 1), 1);
    }
    if(style == 1 && r.chance(1, 8)) // split axes further
        for(size_t d = 0; d < dims.size() && dims.size() < 30;) { size_t k = 2; while(k <= 7 && (dims[d] <= k || dims[d] % k)) k++; if(k <= 7) { dims[d] /= k; dims.insert(dims.begin() + d, k); d += r.below(2); } else d++; }
    L.ndim = dims.size();
    for(int i = 0; i < L.ndim; i++) L.dims[i] = dims[i];
    vector<int> order; for(int i = L.ndim - 1; i >= 0; i--) order.push_back(i); // fastest first
    int kind = style == 0 ? 0 : (int)r.below(6);
    if(kind == 2 || kind == 5) for(int i = L.ndim - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    ptrdiff_t cur = item, base = 0;
    for(int d : order) {
        if((kind == 1 || kind == 5) && r.chance(1, 2)) cur += item * r.range(0, 3);
        ptrdiff_t st = cur; cur = st * (dims[d] ? dims[d] : 1);
        if((kind == 1 || kind == 3 || kind == 5) && r.chance(1, 2)) cur += item * r.range(0, 3);
        if((kind == 3 || kind == 5 || kind == 4) && r.chance(1, 2) && dims[d]) { base += st * (dims[d] - 1); st = -st; }
        L.strides[d] = st;
    }
    if(bcast && kind == 5 && r.chance(1, 3)) { int d = r.below(L.ndim); if(L.strides[d] > 0) L.strides[d] = 0; }
    L.nullstrides = kind == 0;
    size_t guard = 64; L.base = base + guard; L.bytes = cur + 2 * guard;
    L.off.resize(L.n); vector<size_t> pos(L.ndim, 0);
    for(size_t i = 0; i < L.n; i++) {
        ptrdiff_t o = L.base; for(int d = 0; d < L.ndim; d++) o += (ptrdiff_t)pos[d] * L.strides[d];
        L.off[i] = o;
        for(int d = L.ndim - 1; d >= 0; d--) { if(++pos[d] < dims[d]) break; pos[d] = 0; }
    }
    L.desc = fmt("kind%d[", kind); for(int d = 0; d < L.ndim; d++) L.desc += fmt("%zu:%td,", L.dims[d], L.strides[d]); L.desc += "]";
    return L;
}

// ------------------------------------------------------------------ on-disk format, read and written independently
struct DiskFile { uint64_t size; uint32_t ck, sysv; };
struct DiskBlock { string dtype; long nmemb, nfile; map<long, DiskFile> files; string err; };
static bool tok(const Bytes &b, size_t &i, string &t) {
    while(i < b.size() && isspace(b[i])) i++;
    t.clear(); while(i < b.size() && !isspace(b[i])) t += (char)b[i++];
    return !t.empty();
}
// plain decimal digits only: no sign, no blanks
static bool digits(const string &t) { return !t.empty() && t.size() < 20 && t.find_first_not_of("0123456789") == string::npos; }
static DiskBlock disk_header(const string &dir) {
    DiskBlock d; d.nmemb = d.nfile = -1; Bytes b;
    if(!read_file(dir + "/header", b)) { d.err = "no header"; return d; }
    size_t i = 0; string t; char *e;
    auto want = [&](const char *s) { if(!tok(b, i, t) || t != s) { if(d.err.empty()) d.err = string("expected ") + s + " got " + t; } };
    want("DTYPE:"); if(!tok(b, i, d.dtype)) d.err = "no dtype";
    want("NMEMB:"); tok(b, i, t); d.nmemb = strtol(t.c_str(), &e, 10); if(*e) d.err = "bad nmemb " + t;
    want("NFILE:"); tok(b, i, t); d.nfile = strtol(t.c_str(), &e, 10); if(*e) d.err = "bad nfile " + t;
    while(d.err.empty() && tok(b, i, t)) {
        if(t.size() != 7 || t[6] != ':' || t.substr(0, 6).find_first_not_of("0123456789ABCDEF") != string::npos) { d.err = "bad file id " + t; break; }
        long id = strtol(t.c_str(), NULL, 16); DiskFile f;
        tok(b, i, t); f.size = strtoull(t.c_str(), &e, 10); if(!digits(t)) d.err = "bad size " + t;
        want(":"); tok(b, i, t); f.ck = strtoul(t.c_str(), &e, 10); if(!digits(t) || strtoull(t.c_str(), &e, 10) > 0xffffffffULL) d.err = "bad checksum " + t;
        want(":"); tok(b, i, t); f.sysv = strtoul(t.c_str(), &e, 10); if(!digits(t)) d.err = "bad sysv " + t;
        if(d.files.count(id)) d.err = fmt("file %lX twice", id);
        d.files[id] = f;
    }
    if(d.err.empty()) { if((long)d.files.size() != d.nfile) d.err = fmt("%zu file records for NFILE %ld", d.files.size(), d.nfile);
        else for(long k = 0; k < d.nfile; k++) if(!d.files.count(k)) d.err = fmt("no record of file %ld", k); }
    return d;
}
static uint32_t sysv16(uint32_t s) { uint32_t r = (s & 0xffff) + (s >> 16); return (r & 0xffff) + (r >> 16); }
static string disk_datafile(const string &dir, long id) { return dir + fmt("/%06lX", id); }

struct RAttr { string dtype; long nmemb; Bytes data; bool operator==(const RAttr &o) const { return dtype == o.dtype && nmemb == o.nmemb && data == o.data; } };
static int itemsize_of(const string &dtype) { return atoi(dtype.c_str() + 2); }
// one line per attribute: name dtype nmemb HEX [#...].  returns error text
static string disk_attrs(const string &dir, map<string, RAttr> &out, vector<string> *order = NULL) {
    Bytes b; out.clear();
    if(!read_file(dir + "/attr-v2", b)) return "";
    size_t i = 0;
    while(i < b.size()) {
        size_t e = i; while(e < b.size() && b[e] != '\n') e++;
        if(e == b.size()) return "last line not terminated";
        string line(b.begin() + i, b.begin() + e); i = e + 1;
        vector<string> f; size_t p = 0;
        while(f.size() < 4) { while(p < line.size() && (line[p] == ' ' || line[p] == '\t')) p++; size_t q = p; while(q < line.size() && line[q] != ' ' && line[q] != '\t') q++; if(q == p) break; f.push_back(line.substr(p, q - p)); p = q; }
        if(f.size() < 3) return "short line: " + line.substr(0, 60);
        RAttr a; a.dtype = f[1]; char *ep; a.nmemb = strtol(f[2].c_str(), &ep, 10); if(*ep || a.nmemb < 0) return "bad count: " + line.substr(0, 60);
        if(a.dtype.size() < 3 || (a.dtype[0] != '<' && a.dtype[0] != '>')) return "dtype not normalized: " + a.dtype;
        size_t nb = (size_t)itemsize_of(a.dtype) * a.nmemb;
        string h = nb ? (f.size() > 3 ? f[3] : "") : "";
        if(h.size() != nb * 2) return fmt("%zu hex digits for %zu bytes in attribute %s", h.size(), nb, f[0].c_str());
        for(size_t k = 0; k < nb; k++) {
            int v = 0; for(int j = 0; j < 2; j++) { char c = h[2 * k + j]; if(c >= '0' && c <= '9') v = v * 16 + c - '0'; else if(c >= 'A' && c <= 'F') v = v * 16 + c - 'A' + 10; else return fmt("bad hex digit '%c'", c); }
            a.data.push_back(v);
        }
        if(out.count(f[0])) return "attribute twice: " + f[0];
        out[f[0]] = a; if(order) order->push_back(f[0]);
    }
    return "";
}

// ------------------------------------------------------------------ case runner
struct Progress { volatile uint64_t index; volatile uint64_t running; char note[4064]; };
struct Ctx {
    Rng r; uint64_t seed, index; int tier; string dir; // dir: scratch of this case, empty at the start
    map<string, long> stat; string sig; bool nontrivial; string desc; Progress *prog;
    void st(const string &k, long n = 1) { stat[k] += n; }
    void note(const string &s) { desc += s + "; "; if(desc.size() > 6000) desc = "..." + desc.substr(desc.size() - 4000); size_t n = std::min(desc.size(), (size_t)3900); memcpy(prog->note, desc.data() + desc.size() - n, n); prog->note[n] = 0; }
};
typedef void (*CaseFn)(Ctx &);
struct Mode { const char *name; CaseFn fn; };

// the orchestrator's deadline: no case is started after it (the first always is)
static bool late() { static const char *e = getenv("VF_DEADLINE"); static long t = e ? atol(e) : 0; return t && time(NULL) >= t; }
static int run_modes(int argc, char **argv, const vector<Mode> &modes, std::function<void(Ctx &)> atend = nullptr) {
    map<string, string> a;
    for(int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    Ctx c; c.tier = atoi(a["--tier"].c_str());
    uint64_t seed = strtoull(a["--seed"].c_str(), NULL, 10), start = strtoull(a["--start"].c_str(), NULL, 10);
    uint64_t stride = strtoull(a["--stride"].c_str(), NULL, 10), cases = strtoull(a["--cases"].c_str(), NULL, 10);
    CaseFn fn = NULL; for(auto &m : modes) if(a["--mode"] == m.name) fn = m.fn;
    if(!fn || !stride || a["--dir"].empty()) { fprintf(stderr, "HARNESS: bad arguments\n"); return 98; }
    int pf = open(a["--progress"].c_str(), O_RDWR | O_CREAT, 0600);
    if(pf < 0 || ftruncate(pf, sizeof(Progress))) { perror("progress"); return 98; }
    c.prog = (Progress *)mmap(NULL, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0);
    close(pf);
    FILE *dist = fopen(a["--dist"].c_str(), "ab");
    int nviol = 0, nsample = 0; uint64_t done = 0;
    for(uint64_t i = start; i < cases; i += stride) {
        if(done && late()) { printf("CUT\n"); break; }
        c.index = i; c.seed = seed; c.r = Rng(mix64(seed) ^ mix64(hash_str(a["--mode"]) + i));
        c.sig.clear(); c.desc.clear(); c.nontrivial = false; c.prog->note[0] = 0;
        c.dir = a["--dir"] + fmt("/c%llu", (unsigned long long)i);
        rm_rf(c.dir); if(mkdir(c.dir.c_str(), 0755)) { perror(c.dir.c_str()); return 97; }
        c.prog->index = i; c.prog->running = 1;
        try { fn(c); }
        catch(const Fail &f) {
            string m = f.msg, d = c.desc; for(char &ch : m) if(ch == '\n' || ch == '\t') ch = ' '; for(char &ch : d) if(ch == '\n' || ch == '\t') ch = ' ';
            if(m.size() > 3000) m.resize(3000);
            printf("VIOL\t%llu\t%s\t%s\t%s\n", (unsigned long long)i, f.key.c_str(), m.c_str(), d.c_str()); fflush(stdout);
            if(++nviol >= 5) { rm_rf(c.dir); break; }
        }
        c.prog->running = 0;
        rm_rf(c.dir);
        done++;
        uint64_t h = hash_str(c.sig);
        u8 rec[9]; memcpy(rec, &h, 8); rec[8] = c.nontrivial; if(dist) fwrite(rec, 9, 1, dist);
        if(c.nontrivial && nsample < 2) { nsample++; printf("SAMPLE\t{\"case\":%llu,\"trace\":%s}\n", (unsigned long long)i, jstr(c.desc.substr(0, 700)).c_str()); }
    }
    if(atend) { try { atend(c); } catch(const Fail &f) { printf("VIOL\t%llu\t%s\t%s\t\n", (unsigned long long)c.index, f.key.c_str(), f.msg.c_str()); } }
    if(dist) fclose(dist);
    for(auto &s : c.stat) printf("STAT\t%s\t%ld\n", s.first.c_str(), s.second);
    printf("DONE\t%llu\n", (unsigned long long)done);
    fflush(stdout);
    return 0;
}
