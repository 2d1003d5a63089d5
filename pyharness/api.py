"""C23: the Python file and attribute interface against dictionaries and numpy arrays."""
import gc, os, warnings
import numpy as np
from vfpy import *
warnings.simplefilter("ignore")
import bigfile
from bigfile import File, Column, Dataset, Error, ColumnClosedError, set_buffer_size

NAMES = ["A", "B", "AB", "A/x", "sub/one", "sub/two", "sub/deep/er", "Position", "0/Mass", "1/Mass", "ü", "100%s"]


# ------------------------------------------------------------------ attribute values
def gen_text(r):
    k = r.random()
    if k < .1:
        return ""
    n = r.choice([1, 2, 5, 20, 20, 200, 3000])
    if k < .5:
        return "".join(chr(r.randint(32, 126)) for _ in range(n))
    return "".join(r.choice(["a", "Z", " ", "\n", "\t", "#", "%s", "%n", "é", "中", "😀", "\0", "\x7f", "\\", '"', "[", "]"]) for _ in range(n))


def gen_attr_value(r):
    """(value, what is read back or None if it must be refused, or "either")"""
    k = r.random()
    if k < .3:
        s = gen_text(r)
        return s, s
    if k < .45:
        l = [gen_text(r).rstrip("\0") for _ in range(r.randint(1, 5))]
        if r.random() < .2:
            l = [""] * r.randint(1, 3)
        a = np.array([x.encode() for x in l])
        if a.dtype.itemsize > 9999:
            return "x", "x"
        if r.random() < .2 and all("\0" not in x for x in l):
            return np.array(l), l
        return l, l
    if k < .6:
        v = r.choice([r.randint(-2 ** 63, 2 ** 63 - 1), r.randint(-5, 5), r.random(), float("nan"), float("inf"), -0.0, 1e308, True, False, 2.5 - 1j, np.float32(r.random()),
                      np.int32(-7), np.uint64(2 ** 64 - 1), np.bool_(True), np.complex64(1 + 2j), np.int8(-3), np.uint16(77), 2 ** 63])
        return v, np.array(v).ravel()
    if k < .88:
        dt = gen_dtype(r, STORED[:15] + ["S3"] if r.random() < .5 else None)
        shape = r.choice([(), (1,), (r.randint(0, 9),), (r.randint(1, 4), r.randint(1, 4)), (2, 2, 3), (r.randint(10, 400),)])
        a = relayout(r, gen_values(r, dt, shape))
        if dt.kind == "S":
            return a, [x.decode() for x in a.ravel()]
        return (a.tolist() if r.random() < .1 and dt.str[1:] in ("i8", "f8") and a.size else a), a.ravel()
    if k < .97:
        v = r.choice([None, object(), {"a": 1}, {1, 2}, np.array([1, None]), [1, [2, 3]], "\ud800", np.zeros(0, "O"), 2 ** 70, [object()], np.zeros(2, "M8[25ns]"), lambda: 0])
        return v, None
    return r.choice([np.zeros(2, "m8[s]"), np.zeros(2, "M8[ns]"), np.zeros(1, "f2"), np.ones(2, "f16"), np.ones(2, "c32"), np.zeros(2, "V4")]), "either"


def attr_equal(got, want):
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(want, list):
        return isinstance(got, list) and got == want
    return isinstance(got, np.ndarray) and same(got, want)


def gen_attr_name(r, have):
    k = r.random()
    if have and k < .4:
        return r.choice(sorted(have))
    return r.choice(["a", "b", "name", "Name", "name2", "x" * r.randint(1, 200), "é", "a.b", "%s", "#x", "-", "0", "long" * 20] + ["k%d" % i for i in range(20)])


class Block:
    def __init__(self, arr, attrs=None):
        self.arr, self.attrs = arr, attrs or {}


class World:
    def __init__(self, c):
        self.c, self.r = c, c.r
        self.root = c.dir + "/f"
        self.b = {}
        self.h = {}       # at most one live column per block
        self.once = {}    # blocks whose rows were each written once

    def drop(self, name=None):
        """release the live columns (of a block), properly closed or just forgotten."""
        for k in [name] if name else list(self.h):
            if k in self.h:
                # a column that is still referred to elsewhere is not destroyed here
                if self.r.random() < .4 or sys.getrefcount(self.h[k]) > 2:
                    self.h[k].close()
                else:
                    self.c.st("destroyed")
                del self.h[k]
        gc.collect() if self.r.random() < .1 else None

    def col(self, name):
        if name not in self.h:
            self.h[name] = self.f.open(name)
        elif self.r.random() < .2:
            self.drop(name)
            self.h[name] = self.f[name]
        return self.h[name]


def brief(a):
    if isinstance(a, (np.ndarray, np.generic)):
        return "%s%s %s" % (a.dtype, np.shape(a), np.ravel(a)[:12].tolist())
    return repr(a)[:200]


def check_attrs(c, col, want, what):
    a = col.attrs
    check(a.keys() == sorted(want) and list(a) == sorted(want), "attr-keys", "%s: the attributes are %r, expected %r", what, a.keys(), sorted(want))
    for k in want:
        check(k in a, "attr-in", "%s: %r is not in the attributes", what, k)
        got = a[k]
        check(attr_equal(got, want[k]), "attr-value", "%s: attribute %r is %s, expected %s", what, k, brief(got), brief(want[k]))
    c.st("attr_maps")


def check_all(c, w, what, disk=False):
    r = c.r
    w.drop()
    f = File(w.root)
    have = set(w.b)
    # blocks inside of other blocks are not listed
    top = {k for k in have if not any(k != o and k.startswith(o + "/") for o in have)}
    check(set(f.blocks) == top and len(f.blocks) == len(top) and list(f) == f.blocks and f.keys() == f.blocks, "blocks", "%s: the blocks are %r, expected %r", what, f.blocks, sorted(top))
    for k, b in w.b.items():
        check((k in f) == (k in top), "contains", "%s: %r in f", what, k)
        col = f[k]
        n = 0 if b.arr is None else len(b.arr)
        check(col.size == n, "size", "%s: %s has %d rows, expected %d", what, k, col.size, n)
        if b.arr is not None:
            check(col.dtype == np.dtype((b.arr.dtype, b.arr.shape[1:])), "dtype", "%s: %s has dtype %r, expected %r %r", what, k, col.dtype, b.arr.dtype, b.arr.shape)
            got = col[...]
            check(same(got, b.arr), "rows", "%s: %s holds %s, expected %s", what, k, brief(got), brief(b.arr))
        check_attrs(c, col, b.attrs, what + " " + k)
        repr(col), repr(col.attrs), repr(f)
        c.st("blocks_verified")
        if disk:
            d = read_block(os.path.join(w.root, k))
            if b.arr is not None:
                check(same(rows_of(d), b.arr), "disk-rows", "%s: the files of %s differ", what, k)
                if w.once.get(k):
                    check(d["sums"] == [sum(x) & 0xffffffff for x in d["data"]], "checksum", "%s: the checksums of %s are %r, the bytes sum up to %r", what, k, d["sums"], [sum(x) for x in d["data"]])
                    c.st("checksums")
            check(set(d["attrs"]) == set(b.attrs), "disk-attrs", "%s: the attribute file of %s has %r", what, k, sorted(d["attrs"]))
    # sub-files
    for s in sorted({k.split("/")[0] for k in top if "/" in k}):
        sub = f[s + "/"] if r.random() < .5 else f.subfile(s) if r.random() < .5 else f["/" + s + "/"]
        want = {k[len(s) + 1:] for k in top if k.startswith(s + "/")}
        check(set(sub.blocks) == want, "subfile", "%s: the blocks of %s/ are %r, expected %r", what, s, sub.blocks, sorted(want))
        k = r.choice(sorted(want))
        b = w.b[s + "/" + k]
        if b.arr is not None:
            check(same(sub[k][...], b.arr), "subfile-rows", "%s: %s in the sub-file differs", what, k)
        c.st("subfiles")
    return f


def raises(c, key, f, types=Exception):
    try:
        f()
    except types as e:
        check(len(str(e)) > 0, "no-message", "%s raises %r without a message", key, e)
        c.st("raised")
        c.st("raised_" + key)
        return e
    except Exception as e:
        raise Fail("wrong-exception", "%s raises %r" % (key, e))
    raise Fail("not-raised", "%s does not raise" % key)


def gen_array(r, n=None):
    n = r.choice([0, 1, 2, r.randint(3, 30), r.randint(3, 200)]) if n is None else n
    nm = r.choice([1, 1, 1, 2, 3])
    return gen_values(r, gen_dtype(r), (n,) if nm == 1 else (n, nm))


def clashes(w, k):
    """whether k is inside of a block or has blocks inside; keep those apart."""
    return any(o != k and (o.startswith(k + "/") or k.startswith(o + "/")) for o in w.b)


class Lazy:
    """an array that is only made when it is sliced."""
    def __init__(self, n, tail, k, dtype):
        self.n, self.k, self.dtype, self.shape, self.ndim, self.asked = n, k, np.dtype(dtype), (n,) + tail, 1 + len(tail), 0

    def __len__(self):
        return self.n

    def __getitem__(self, s):
        i, e, _ = s.indices(self.n)
        self.asked = max(self.asked, e - i)
        a = ((np.arange(i, e) * self.k) >> 5).astype(self.dtype)
        return a if self.ndim == 1 else np.repeat(a[:, None], self.shape[1], 1)


def many(c):
    """more rows than the default number of files holds in one."""
    r = c.r
    set_buffer_size(r.choice([4096, 65536, 1 << 20, 3000001]))
    f = File(c.dir + "/f", create=True)
    per = 32 << 20
    n = per * r.choice([1, 1, 2]) + r.choice([0, 1, 1, -1, r.randint(2, 1 << 20)])
    a = Lazy(n, r.choice([(), (), (2,)]) if n < per + 9 else (), r.choice([1, 3, 77, 1001]), r.choice(["u1", "i1"]))
    nf = r.choice([None, None, None, 1, 3])
    lim = r.choice([1 << 28, 1 << 24, (1 << 22) + 77])
    c.note("many %r %s Nfile %r memorylimit %d" % (a.shape, a.dtype, nf, lim))
    col = f.create_from_array("big", a, Nfile=nf, memorylimit=lim)
    want = (n + per - 1) // per if nf is None else nf
    check(col.Nfile == want and col.size == n, "Nfile", "%d rows in %d files, expected %d in %d", col.size, col.Nfile, n, want)
    check(a.asked * a.dtype.itemsize * (a.shape[1] if a.ndim > 1 else 1) <= max(lim, 1), "memorylimit", "%d rows were asked for at once, the limit is %d bytes", a.asked, lim)
    marks = {0, 1, n - 1, n} | {n * i // want for i in range(want + 1)} | {r.randint(0, n) for _ in range(3)}
    for m in sorted(marks):
        lo, hi = max(0, m - r.randint(0, 3000)), min(n, m + r.randint(0, 3000))
        check(same(col[lo:hi], a[lo:hi]), "rows", "rows %d to %d are %s, expected %s", lo, hi, brief(col[lo:hi]), brief(a[lo:hi]))
    check(same(col[...], a[:]), "rows", "the rows differ")
    col.close()
    d = [os.path.getsize(os.path.join(c.dir, "f", "big", "%06X" % i)) for i in range(want)]
    row = a.dtype.itemsize * (a.shape[1] if a.ndim > 1 else 1)
    check(d == [(n * (i + 1) // want - n * i // want) * row for i in range(want)], "disk-sizes", "the files have %r bytes", d)
    c.st("many_rows")
    c.nontrivial = True


def case(c):
    r = c.r
    if c.index % 300 == 17:
        return many(c)
    w = World(c)
    set_buffer_size(r.choice([1, 7, 64, 1000, 65536]))
    w.f = File(w.root, create=True)
    check(w.f.blocks == [], "blocks", "a new file has blocks %r", w.f.blocks)
    ops = r.randint(5, 30)
    for _ in range(ops):
        col = a = None
        k = r.random()
        names = sorted(w.b)
        data = [x for x in names if w.b[x].arr is not None]
        if k < .2 or not names:
            name = r.choice(NAMES)
            if clashes(w, name):
                continue
            w.drop(name)
            a = gen_array(r)
            nf = r.choice([None, 1, 2, 5]) if len(a) else r.choice([None, 0, 1])
            how = r.choice(["array", "array", "create", "meta"])
            c.note("%s %s %s%s Nfile %r" % (how, name, a.dtype, a.shape, nf))
            if how == "array":
                v = relayout(r, a)
                lim = r.choice([1, 10, 100, 1 << 28, a.dtype.itemsize * 1024 + 5])
                col = w.f.create_from_array(name, v, Nfile=nf, memorylimit=lim)
                check(same(v, a), "source-modified", "create_from_array modified the array")
                want = (len(a) + (32 << 20) - 1) // (32 << 20) if nf is None else nf
                check(col.Nfile == want, "Nfile", "%d files, %r requested", col.Nfile, nf)
                w.b[name] = Block(a)
                w.once[name] = True
                c.st("arrays")
            elif how == "create":
                nf = 1 if nf is None else nf
                col = w.f.create(name, np.dtype((a.dtype, a.shape[1:])) if a.ndim > 1 else a.dtype, len(a), nf)
                check(col.Nfile == nf and col.size == len(a), "Nfile", "%d files, %d rows", col.Nfile, col.size)
                cut = sorted({0, len(a)} | {r.randint(0, len(a)) for _ in range(r.randint(0, 4))})
                parts = list(zip(cut, cut[1:]))
                r.shuffle(parts)
                for s, e in parts:
                    col.write(s, relayout(r, a[s:e]))
                w.b[name] = Block(a)
                w.once[name] = True
            else:
                col = w.f.create(name)
                check(col.size == 0, "size", "a block without data has %d rows", col.size)
                w.b[name] = Block(None)
                c.st("metas")
            w.h[name] = col
            check(name in w.f, "contains", "%r is not in the file after it was created", name)
        elif k < .45:
            name = r.choice(names)
            col, attrs = w.col(name), w.b[name].attrs
            a = col.attrs
            if r.random() < .1:
                # the attributes keep their column alive
                w.h.pop(name)
                del col
                gc.collect()
            for _ in range(r.randint(1, 6)):
                n = gen_attr_name(r, attrs)
                k2 = r.random()
                if k2 < .7:
                    v, want = gen_attr_value(r)
                    if n in attrs or r.random() < .95:
                        pass
                    else:
                        n, want = r.choice(["", "a b", " ", "x\ty", "a\nb"]), None
                    c.note("%s.%s = %s" % (name, n[:20], brief(v)))
                    raw = v.tobytes() if isinstance(v, np.ndarray) and not v.dtype.hasobject else None
                    try:
                        a[n] = v
                        ok = True
                    except Exception as e:
                        ok, err = False, e
                    if raw is not None:
                        check(v.tobytes() == raw, "source-modified", "setting an attribute modified its value")
                    if ok:
                        check(want is not None, "attr-accepted", "the attribute %r = %s is accepted", n, brief(v))
                        if isinstance(want, str) and want == "either":
                            want = np.array(v).ravel() if not isinstance(v, str) else v
                        attrs[n] = want
                        c.st("attr_sets")
                    else:
                        check(want is None or isinstance(want, str) and want == "either" and not isinstance(v, str) or isinstance(want, np.ndarray) and want.dtype.hasobject, "attr-raises", "the attribute %r = %s raises %r", n, brief(v), err)
                        c.st("attr_refused")
                elif k2 < .85:
                    c.note("del %s.%s" % (name, n[:20]))
                    if n in attrs:
                        del a[n]
                        del attrs[n]
                        c.st("attr_deletes")
                    else:
                        raises(c, "del-attr", lambda: a.__delitem__(n), KeyError)
                else:
                    if n in attrs:
                        check(attr_equal(a[n], attrs[n]), "attr-value", "attribute %r is %s, expected %s", n, brief(a[n]), brief(attrs[n]))
                        check(attr_equal(a[n], attrs[n]), "attr-reread", "attribute %r changes when it is read", n)
                    else:
                        check(n not in a, "attr-in", "%r is in the attributes", n)
                        raises(c, "get-attr", lambda: a[n], KeyError)
            check_attrs(c, a.bb, attrs, "after setting attributes of " + name)
            del a
        elif k < .55 and data:
            name = r.choice(data)
            b = w.b[name]
            col = w.col(name)
            new = gen_values(r, b.arr.dtype, (r.choice([0, 1, r.randint(1, 40)]),) + b.arr.shape[1:])
            nf = r.randint(1, 3) if len(new) else r.randint(0, 2)
            nfile = col.Nfile
            c.note("append %d to %s Nfile %d" % (len(new), name, nf))
            v = relayout(r, new)
            col.append(v, nf)
            b.arr = np.concatenate([b.arr, new]).astype(b.arr.dtype)
            check(col.size == len(b.arr) and col.Nfile == nfile + nf, "append-size", "%d rows in %d files after appending, expected %d in %d", col.size, col.Nfile, len(b.arr), nfile + nf)
            check(same(col[...], b.arr), "append-rows", "%s holds %s after appending, expected %s", name, brief(col[...]), brief(b.arr))
            check(w.f.open(name).size == len(b.arr), "append-open", "opening again shows another size")
            c.st("appends")
        elif k < .62 and data:
            name = r.choice(data)
            b, col = w.b[name], w.col(name)
            n = len(b.arr)
            s = r.randint(0, n)
            e = r.randint(s, n)
            v = gen_values(r, b.arr.dtype, (e - s,) + b.arr.shape[1:])
            c.note("write %s[%d:%d]" % (name, s, e))
            if r.random() < .3:
                bad = gen_values(r, b.arr.dtype, (n - s + r.randint(1, 3),) + b.arr.shape[1:])
                raises(c, "write-beyond", lambda: col.write(s, bad), Error)
                raises(c, "write-beyond", lambda: col.write(n + 1, v), Error)
            col.write(s, relayout(r, v))
            b.arr = b.arr.copy()
            b.arr[s:e] = v
            if e > s:
                w.once[name] = False
            check(same(col[...], b.arr), "rows", "%s differs after writing", name)
        elif k < .75 and data:
            size = len(w.b[r.choice(data)].arr)
            group = [x for x in data if len(w.b[x].arr) == size]
            sel = r.sample(group, r.randint(1, len(group)))
            other = [x for x in data if len(w.b[x].arr) != size]
            w.drop()
            c.note("dataset %r" % sel)
            if other:
                raises(c, "dataset-sizes", lambda: Dataset(w.f, sel + [r.choice(other)]), Error)
            ds = Dataset(w.f, sel)
            def rec(n):
                v = np.zeros(n, ds.dtype)
                for q in sel:
                    v[q] = gen_values(r, w.b[q].arr.dtype, (n,) + w.b[q].arr.shape[1:])
                return v
            def col_of(v, q):
                return np.ascontiguousarray(v[q])
            for _ in range(r.randint(1, 3)):
                k2 = r.random()
                n = ds.size
                s = r.randint(0, n)
                e = r.randint(s, n)
                if k2 < .3:
                    v = rec(e - s)
                    c.note("ds write %d:%d" % (s, e))
                    ds.write(s, relayout(r, v, ("c", "rev", "gap")))
                    for q in sel:
                        w.b[q].arr = w.b[q].arr.copy()
                        w.b[q].arr[s:e] = col_of(v, q)
                        if e > s:
                            w.once[q] = False
                    c.st("ds_writes")
                elif k2 < .6:
                    v = rec(r.choice([0, 1, r.randint(1, 20)]))
                    nf = r.randint(1, 3) if len(v) else r.randint(0, 2)
                    c.note("ds append %d Nfile %d" % (len(v), nf))
                    ds.append(relayout(r, v, ("c", "rev", "gap")), nf)
                    for q in sel:
                        w.b[q].arr = np.concatenate([w.b[q].arr, col_of(v, q)]).astype(w.b[q].arr.dtype)
                    check(ds.size == n + len(v) and ds.shape == (n + len(v),), "ds-size", "%d rows after appending, expected %d", ds.size, n + len(v))
                    c.st("ds_appends")
                elif k2 < .8:
                    base = rec((e - s) * 2 + 3)
                    keep = base.copy()
                    out = base[1:1 + 2 * (e - s):2] if r.random() < .5 else base[1:1 + e - s]
                    c.note("ds read %d:%d" % (s, e))
                    got = ds.read(s, e - s, out) if r.random() < .7 else ds.read(s, e - s)
                    for q in sel:
                        check(same(np.ascontiguousarray(got[q]), w.b[q].arr[s:e]), "ds-read", "field %s of rows %d:%d is %s, expected %s", q, s, e, brief(got[q]), brief(w.b[q].arr[s:e]))
                    mask = np.ones(len(base), bool)
                    if got is out:
                        mask[1:1 + 2 * (e - s):2 if out.strides[0] != base.strides[0] else 1] = False
                        if out.strides[0] == base.strides[0]:
                            mask[1 + e - s:] = True
                    check(base[mask].tobytes() == keep[mask].tobytes(), "ds-read-around", "records around the output were modified")
                    c.st("ds_reads")
                else:
                    v = rec(n - s + 1)
                    raises(c, "ds-write-beyond", lambda: ds.write(s, v), Error)
                    raises(c, "ds-read-beyond", lambda: ds.read(s, n - s + 1), Error)
                    raises(c, "ds-read-out", lambda: ds.read(s, 1, rec(2)), Exception)
                    raises(c, "ds-read-out", lambda: ds.read(s, 1, np.zeros(1, "i4,i4")), Exception)
            for q in sel:
                check(same(w.f[q][...], w.b[q].arr), "ds-content", "column %s is %s after using the dataset, expected %s", q, brief(w.f[q][...]), brief(w.b[q].arr))
            c.st("datasets")
        elif k < .9:
            hostile(c, w)
        elif k < .95:
            c.note("check")
            w.f = check_all(c, w, "midway")
        else:
            for q in list(w.h):
                r.choice([w.h[q].flush, w.h[q].close, lambda: w.h[q].__exit__(None, None, None)])()
    check_all(c, w, "at the end", disk=True)
    c.nontrivial = len(w.b) > 1


def hostile(c, w):
    """operations that must raise, and leave everything else as it was."""
    r = c.r
    f = w.f
    miss = r.choice(["missing", "missing/deep", "x" * 300, "%s%n", ""])
    k = r.randrange(13)
    c.note("hostile %d" % k)
    if k == 0:
        raises(c, "open-missing", lambda: f.open(miss or "no"), Error)
        raises(c, "getitem-missing", lambda: f[miss or "no"], Error)
    elif k == 1:
        col = Column()
        for q in (lambda: col[0:1], lambda: col.read(0, 1), lambda: col.write(0, np.zeros(1)), lambda: col.append(np.zeros(1)), lambda: col.attrs.keys(), lambda: col.attrs["a"],
                  lambda: "a" in col.attrs, lambda: col.attrs.__setitem__("a", 1), lambda: col.attrs.__delitem__("a"), col.flush, col.close, lambda: list(col.attrs)):
            raises(c, "never-opened", q, ColumnClosedError)
        check(col.size == 0 and col.Nfile == 0, "never-opened", "a column never opened has %d rows", col.size)
        check("Block" in repr(col), "repr", "a column never opened is %r", repr(col))
        raises(c, "no-file", lambda: col.open(None, "x"), TypeError)
        raises(c, "no-file", lambda: col.create(None, "x", "i4", 1), TypeError)
    elif k == 2:
        col = Column()
        raises(c, "open-missing", lambda: col.open(f, "missing"), Error)
        raises(c, "never-opened", lambda: col.read(0, 1), ColumnClosedError)
    elif k == 3 and w.b:
        # the same object for another block
        name = r.choice(sorted(w.b))
        w.drop(name)
        col = f.open(name)
        raises(c, "reopen-missing", lambda: col.open(f, "missing"), Error)
        raises(c, "reopen-closed", lambda: col.attrs.keys(), ColumnClosedError)
        col.open(f, name)
        other = r.choice(sorted(w.b))
        w.drop(other)
        col.open(f, other)
        check_attrs(c, col, w.b[other].attrs, "reopened as " + other)
        if w.b[other].arr is not None:
            check(same(col[...], w.b[other].arr), "reopen-rows", "a column reopened as %s holds %s", other, brief(col[...]))
    elif k == 4:
        raises(c, "file-missing", lambda: File(c.dir + "/nothing"), Error)
    elif k == 5:
        open(c.dir + "/plain", "w").close()
        raises(c, "file-uncreatable", lambda: File(c.dir + "/plain/f", create=True), Error)
    elif k == 6:
        dt = r.choice(["O", "U4", "M8[ns]", "i4,f8", "m8[us]", "c32"])
        raises(c, "create-dtype", lambda: f.create("bad%d" % r.randint(0, 9), np.dtype(dt), 4, 1))
        raises(c, "create-dtype", lambda: f.create_from_array("bad%d" % r.randint(0, 9), np.zeros(3, dt)))
    elif k == 7:
        raises(c, "create-Nfile", lambda: f.create("bad", "f8", 4, 0), ValueError)
        raises(c, "create-Nfile", lambda: f.create("bad", "f8", 4, -1), ValueError)
        raises(c, "create-Nfile", lambda: f.create_from_array("bad", np.zeros(4), Nfile=-2), ValueError)
    elif k == 8 and w.b:
        raises(c, "read-beyond", lambda: w.col(r.choice(sorted(w.b))).read(10 ** 6, 1), (Error, ValueError))
    elif k == 9 and w.b:
        name = r.choice(sorted(w.b))
        raises(c, "append-Nfile", lambda: w.col(name).append(np.zeros(3), -1), ValueError)
        raises(c, "append-Nfile", lambda: w.col(name).append(np.zeros(3), 0), ValueError)
    elif k == 10 and w.b:
        data = [x for x in w.b if w.b[x].arr is not None and len(w.b[x].arr)]
        if data:
            col = w.col(r.choice(sorted(data)))
            raises(c, "write-object", lambda: col.write(0, np.zeros((1,) + col.dtype.shape, "O")), Exception)
            raises(c, "write-type", lambda: col.write(0, [1, 2]), TypeError)
            raises(c, "read-out", lambda: col.read(0, 1, np.zeros((7,) + col.dtype.shape, col.dtype.base)), Exception)
    elif k == 11:
        raises(c, "bad-names", lambda: f.create("a" * 300, "i4", 1), Error)
        raises(c, "bad-names", lambda: f.create("ok/" + "a" * 300, "i4", 1), Error)
        raises(c, "bad-names", lambda: f.create(r.choice(["with space", "tab\t", "a/b c"]), "i4", 1), Error)
        raises(c, "bad-names", lambda: f.open(3), Exception)
        raises(c, "bad-names", lambda: f.create(None, "i4", 1), Exception)
    elif k == 12:
        # a column and its attributes outlive the file
        g = File(w.root)
        if w.b:
            name = r.choice(sorted(w.b))
            w.drop(name)
            col = g.open(name)
            del g
            gc.collect()
            check_attrs(c, col, w.b[name].attrs, "file gone")
            if w.b[name].arr is not None:
                check(same(col[...], w.b[name].arr), "rows", "%s differs when the file object is gone", name)
    c.st("hostile")


if __name__ == "__main__":
    sys.exit(main({"C23": case}))
