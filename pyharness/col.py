"""C22: indexing and assigning columns and datasets, against numpy."""
import gc, os, warnings
import numpy as np
from vfpy import *
warnings.simplefilter("ignore")
import bigfile
from bigfile import File, Dataset, set_buffer_size

INTS = [int, np.int64, np.int32, np.uint64, np.uint8, np.int8]


def gen_index(r, n):
    """(index, description): scalars, contiguous slices, Ellipsis, and what is refused."""
    k = r.random()
    if k < .25:
        i = r.choice([r.randint(-n - 3, n + 3), 0, -1, n - 1, n, -n, -n - 1])
        t = r.choice(INTS)
        try:
            j = t(i)
            if int(j) != i:
                j = i
        except OverflowError:
            j = i
        return j, "%s(%d)" % (type(j).__name__, i)
    if k < .3:
        return Ellipsis, "..."
    if k < .36:
        s = slice(r.choice([None, r.randint(-n, n)]), r.choice([None, r.randint(-n, n)]), r.choice([2, -1, 3, -2, n + 1]))
        return s, repr(s)
    if k < .40:
        j = r.choice([2.5, "a", [0, 1], None, (), np.zeros(2, int), 10 ** 30, -10 ** 30, 2 ** 63, -2 ** 63 - 1, (0, 1), 1j])
        return j, repr(j)

    def b():
        return r.choice([None, 0, n, -n, r.randint(-n - 5, n + 5), r.randint(0, n), r.randint(0, n), 2 ** 62, -2 ** 62])
    s = slice(b(), b(), r.choice([None, 1, None]))
    return s, repr(s)


def valid(index):
    """whether this is an index the property speaks of with a numpy equivalent; else it must raise."""
    if index is Ellipsis:
        return True
    if isinstance(index, slice):
        return index.step in (None, 1)
    return isinstance(index, (int, np.integer)) and not isinstance(index, bool)


def expected(m, index):
    if not valid(index):
        return None
    try:
        return np.asarray(m[index])
    except (IndexError, OverflowError):
        return None


def stored_cast(v, dt):
    """v as stored in dt; None if C does not define the conversion of all values."""
    if v.dtype.kind == dt.kind and v.dtype.itemsize == dt.itemsize:
        raw = lebytes(np.ascontiguousarray(v))
        a = np.frombuffer(raw, dt.newbyteorder("<")).reshape(v.shape)
        return a
    if v.dtype.kind in "fc" and dt.kind in "iu":
        if not np.all(np.isfinite(v)):
            return None
        lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max)
        t = np.trunc(v.astype("f8"))
        if v.size and (t.min() < float(lo) + 1025 or t.max() > float(hi) - 1025):
            return None
    with np.errstate(all="ignore"):
        return v.astype(dt)


def gen_value(r, dt, shape):
    """an array to assign, convertible to dt, and what it is stored as."""
    for _ in range(20):
        if r.random() < .5:
            v = gen_values(r, dt, shape)
            if r.random() < .3:
                v = v.astype(dt.newbyteorder(r.choice("<>"))) if dt.kind not in "S" else v
        else:
            src = r.choice([x for x in CONV + ["b1", "c8", "c16"] if castable(np.dtype(x), dt)] or [dt.str[1:]])
            d = np.dtype(src)
            d = d.newbyteorder(r.choice("<>"))
            v = gen_values(r, d, shape, tame=r.random() < .7)
        w = stored_cast(v, dt)
        if w is not None:
            return v, w
    v = gen_values(r, dt, shape, tame=True)
    return v, stored_cast(v, dt)


def verify(c, col, m, what):
    got = col[...]
    check(isinstance(got, np.ndarray) and same(got, m), "content", "%s: the column holds %s, expected %s", what, brief(got), brief(m))
    c.st("verified")


def brief(a):
    return "%s%s %s" % (a.dtype, a.shape, a.ravel()[:12].tolist()) if isinstance(a, (np.ndarray, np.generic)) else repr(a)


def new_column(c, f, name, n, dt, nm, sizes=None):
    """a column and its model, created through the API or by the independent writer."""
    r = c.r
    m = gen_values(r, dt, (n,) if nm == 1 else (n, nm))
    full = np.dtype((dt, (nm,))) if nm != 1 else dt
    if r.random() < .5:
        sizes = gen_sizes(r, n)
        write_block(os.path.join(f.basename, name), m, sizes)
        return f.open(name), m, "file %r" % sizes
    nf = r.randint(1, 5) if n else r.randint(0, 3)
    col = f.create(name, full, n, nf)
    col.write(0, m)
    if r.random() < .5:
        col.flush()
    return col, m, "Nfile %d" % nf


def case(c):
    r = c.r
    c.st("columns")
    n = r.choice([0, 1, 2, 3, r.randint(4, 12), r.randint(4, 60), r.randint(60, 300)])
    dt, nm = gen_dtype(r), r.choice([1, 1, 1, 2, 3, 5])
    set_buffer_size(r.choice([1, 7, 64, 1000, 65536]))
    f = File(c.dir + "/f", create=True)
    col, m, d = new_column(c, f, "C", n, dt, nm)
    c.note("C %s x %d, %d rows, %s" % (dt, nm, n, d))
    check(col.size == n and col.dtype == np.dtype((dt, (nm,)) if nm != 1 else dt), "description", "size %r dtype %r", col.size, col.dtype)
    for _ in range(r.randint(4, 24)):
        k = r.random()
        if k < .5:
            index, s = gen_index(r, n)
            want = expected(m, index)
            c.note("get " + s)
            try:
                got = col[index]
            except Exception as e:
                check(want is None, "get-raises", "[%s] of %d rows raises %r", s, n, e)
                c.st("get_refused")
                continue
            check(want is not None, "get-accepted", "[%s] of %d rows returns %s", s, n, brief(got))
            check(same(np.asarray(got), want), "get-differs", "[%s] of %d rows returns %s, expected %s", s, n, brief(got), brief(want))
            c.st("gets")
            if want.size == 0:
                c.st("empty_gets")
        elif k < .85:
            index, s = gen_index(r, n)
            want = expected(m, index)
            k2 = r.random()
            keep, alt = None, False
            if want is None:
                v, w = gen_value(r, dt, r.choice([(), (1,), (2,), m.shape[1:], (1,) + m.shape[1:]]))
            elif k2 < .12:
                # a size that does not fit: refused
                cnt = want.size + r.choice([1, 2, -1, nm, 5]) if want.size else r.choice([1, nm, 3])
                v, w = gen_value(r, dt, (max(cnt, 0),))
                if v.size == want.size:
                    continue
                want, alt = None, True
            elif k2 < .2:
                v = r.choice([1, 2.5, [1] * max(want.size, 1), "abc", None, (1, 2)])
                w, want, alt = None, None, True
            elif k2 < .28:
                bad = [x for x in ("i2", "S4", "c16", "M8[s]", "f2", "U3", "i4,i4", "O", "b1") if not castable(np.dtype(x), dt) and np.dtype(x) != dt]
                if want.size == 0 or not bad:
                    continue
                bad = r.choice(bad)
                c.note(bad)
                v = np.zeros(want.shape, bad)
                w, want = None, None
            else:
                shape = want.shape
                if valid(index) and not isinstance(index, slice) and index is not Ellipsis and r.random() < .5:
                    shape = (1,) + shape
                v, w = gen_value(r, dt, shape)
                v = relayout(r, v)
                if r.random() < .1 and v.ndim:
                    v = np.broadcast_to(v[:1], v.shape) if v.shape[0] else v
                    w = stored_cast(v, dt)
                    if w is None:
                        continue
                if r.random() < .3:
                    v = v.view()
                    v.flags.writeable = False
            if isinstance(v, np.ndarray):
                keep = (v.copy(), v.tobytes())
            c.note("set %s = %s" % (s, "%s%s" % (v.dtype, v.shape) if isinstance(v, np.ndarray) else repr(v)))
            try:
                col[index] = v
                ok = True
            except Exception as e:
                ok, err = False, e
            if keep:
                check(v.tobytes() == keep[1], "value-modified", "[%s] = modified the assigned array", s)
            if ok and alt:
                # raising is allowed, and so is what numpy does
                m2 = m.copy()
                try:
                    m2[index] = v
                except Exception:
                    m2 = None
                check(m2 is not None, "set-accepted", "[%s] = %s is accepted for %d rows", s, brief(v), n)
                m = m2
            elif ok:
                check(want is not None, "set-accepted", "[%s] = %s is accepted for %d rows", s, brief(v), n)
                m = m.copy()
                if isinstance(index, slice) or index is Ellipsis:
                    m[index] = w
                else:
                    m[index] = w.reshape(want.shape)
                c.st("sets")
            else:
                check(want is None, "set-raises", "[%s] = %s raises %r for %d rows", s, brief(v), err, n)
                c.st("set_refused")
            verify(c, col, m, "after [%s] =" % s)
        elif k < .93 and n:
            # low level read into a given array
            a = r.randint(0, n)
            ln = r.randint(0, n - a)
            base = np.full((ln * 3 + 7,) + m.shape[1:], 0, m.dtype) if nm == 1 else np.zeros((ln * 3 + 7, nm), m.dtype)
            base.view("u1")[...] = 0xa5
            out = base[3:3 + 2 * ln:2][:ln] if r.random() < .5 else base[3:3 + ln]
            c.note("read(%d, %d, out)" % (a, ln))
            res = col.read(a, ln, out)
            check(res is out or np.shares_memory(res, out) or ln == 0, "out", "read does not return the output array")
            check(same(out.copy(), m[a:a + ln]), "read-differs", "read(%d, %d, out) gives %s, expected %s", a, ln, brief(out), brief(m[a:a + ln]))
            out.flags.writeable = True
            t = np.zeros(base.shape, "?")
            t2 = (t[3:3 + 2 * ln:2][:ln] if out.strides[:1] == base[::2].strides[:1] and ln > 0 and out.strides[0] != base.strides[0] else t[3:3 + ln])
            t2[...] = True
            rest = base.reshape(len(base), -1)[~t.reshape(len(base), -1)[:, 0] if t.size else slice(0)]
            check(set(rest.tobytes()) <= {0xa5}, "read-around", "read(%d, %d, out) modified rows around the output", a, ln)
            for bad in (ln + 1,):
                try:
                    col.read(a, ln, np.zeros((bad,) + m.shape[1:], m.dtype))
                    check(False, "read-out-accepted", "an output of %d rows is accepted for %d rows", bad, ln)
                except Fail:
                    raise
                except Exception:
                    c.st("out_refused")
            c.st("reads_into")
        else:
            col.flush()
            k3 = r.random()
            if k3 < .5:
                del col
                gc.collect()
                col = f.open("C")
            c.note("reopen" if k3 < .5 else "flush")
            verify(c, col, m, "after reopening")
            c.st("reopens")
    col.close()
    check(same(rows_of(read_block(c.dir + "/f/C")), m), "disk", "the data files differ from the model")
    if n and r.random() < .4:
        short(c, f, m)
    c.nontrivial = n > 1


def short(c, f, m):
    """rows whose bytes are missing are not invented."""
    r = c.r
    b = read_block(c.dir + "/f/C")
    rows = b["dtype"].itemsize * b["nmemb"]
    full = [i for i, s in enumerate(b["sizes"]) if s]
    i = r.choice(full)
    left = r.randint(0, b["sizes"][i] * rows - 1)
    os.truncate(c.dir + "/f/C/%06X" % i, left)
    first = sum(b["sizes"][:i]) + left // rows
    last = sum(b["sizes"][:i + 1])
    col = f.open("C")
    n = len(m)
    for _ in range(6):
        a = r.randint(0, n - 1)
        e = r.randint(a + 1, n)
        c.note("short file %d from row %d to %d: [%d:%d]" % (i, first, last, a, e))
        try:
            got = col[a:e]
        except Exception:
            check(a < last and e > first, "short-raises", "[%d:%d] raises, rows %d to %d are missing", a, e, first, last)
            c.st("missing_refused")
            continue
        check(not (a < last and e > first), "short-invented", "[%d:%d] returns data, rows %d to %d are missing", a, e, first, last)
        check(same(got, m[a:e]), "short-differs", "[%d:%d] differs", a, e)
        c.st("present_read")


# ------------------------------------------------------------------ Dataset
def ds_case(c):
    r = c.r
    c.st("datasets")
    n = r.choice([0, 1, 2, r.randint(3, 12), r.randint(3, 80)])
    set_buffer_size(r.choice([1, 7, 64, 1000, 65536]))
    f = File(c.dir + "/f", create=True)
    names = r.sample(["Position", "Velocity", "ID", "a", "b", "0/Mass", "g/h/x", "Z"], r.randint(1, 5))
    cols = {}
    for k in names:
        dt, nm = gen_dtype(r), r.choice([1, 1, 2, 3])
        col, m, d = new_column(c, f, k, n, dt, nm)
        col.close()
        cols[k] = m
    f = File(c.dir + "/f")
    use = r.sample(names, r.randint(1, len(names))) if r.random() < .7 else None
    ds = Dataset(f, use)
    order = use if use is not None else sorted(names)
    c.note("%d rows of %r, dataset %r" % (n, [(k, m.dtype.str, m.shape[1:]) for k, m in cols.items()], use))
    check(list(ds.dtype.names) == order and ds.size == n and ds.shape == (n,), "ds-description", "%r %r %r", ds.dtype, ds.size, ds.shape)

    def model(sel):
        a = np.zeros(n, [(k, cols[k].dtype, cols[k].shape[1:]) for k in sel])
        for k in sel:
            a[k] = cols[k]
        return a

    def same_rec(got, want, s):
        got = np.asarray(got)
        check(got.dtype.names == want.dtype.names and got.shape == want.shape, "ds-shape", "[%s] returns %s%s, expected %s%s", s, got.dtype.names, got.shape, want.dtype.names, want.shape)
        for k in want.dtype.names:
            check(same(np.asarray(got[k]), np.asarray(want[k])), "ds-differs", "[%s] field %s is %s, expected %s", s, k, brief(np.asarray(got[k])), brief(np.asarray(want[k])))

    for _ in range(r.randint(4, 16)):
        k = r.random()
        index, s = gen_index(r, n)
        if isinstance(index, (str, list, tuple)):
            continue
        want = valid(index)
        if want:
            try:
                np.zeros(n)[index]
            except (IndexError, OverflowError):
                want = False
        if k < .25:
            sel = order
            get = lambda: ds[index]
        elif k < .4:
            sel = r.sample(order, r.randint(1, len(order)))
            get = (lambda: ds[sel, index]) if r.random() < .5 else (lambda: ds[index, sel])
            s = "%r, %s" % (sel, s)
        elif k < .5:
            sel = r.sample(order, r.randint(1, len(order)))
            get = lambda: ds[sel][index]
            s = "%r][%s" % (sel, s)
        elif k < .62:
            sel = r.choice(order)
            get = r.choice([lambda: ds[sel, index], lambda: ds[index, sel], lambda: ds[sel][index]])
            s = "%r, %s" % (sel, s)
        else:
            # assignment
            c.note("set " + s)
            if want:
                sh = np.zeros(n)[index].shape or (1,)
                v = np.zeros(sh, ds.dtype)
                for q in order:
                    v[q] = gen_values(r, cols[q].dtype, sh + cols[q].shape[1:])
                k2 = r.random()
                if k2 < .15:
                    v = np.concatenate([v, v, v[:1]]) if len(v) else np.zeros(2, ds.dtype)
                    want = False
                elif k2 < .3 and len(v) and len(order) > 1:
                    v = np.array(v[order[::-1]]) if order[::-1] != order else v
                    bad = np.zeros(len(v), [(q, v.dtype[q]) for q in order[::-1]])
                    v, want = bad, False
                else:
                    v = relayout(r, v, ("c", "rev", "gap"))
            else:
                v = np.zeros(r.randint(0, 3), ds.dtype)
            raw = v.tobytes()
            try:
                ds[index] = v
                ok = True
            except Exception as e:
                ok, err = False, e
            check(ok == want, "ds-set", "[%s] = %s %s", s, v.shape, "is accepted" if ok else "raises %r" % err)
            check(v.tobytes() == raw, "value-modified", "the assigned records were modified")
            if ok:
                for q in order:
                    cols[q] = cols[q].copy()
                    w = np.frombuffer(lebytes(np.ascontiguousarray(v[q])), cols[q].dtype.newbyteorder("<")).reshape(v[q].shape)
                    cols[q][index] = w if isinstance(index, slice) or index is Ellipsis else w[0]
                c.st("ds_sets")
            else:
                c.st("ds_set_refused")
            for q in names:
                check(same(f[q][...], cols[q]), "ds-content", "after [%s] = column %s is %s, expected %s", s, q, brief(f[q][...]), brief(cols[q]))
            continue
        c.note("get " + s)
        try:
            got = get()
        except Exception as e:
            check(not want, "ds-get-raises", "[%s] of %d rows raises %r", s, n, e)
            c.st("ds_get_refused")
            continue
        check(want, "ds-get-accepted", "[%s] of %d rows returns %s", s, n, type(got))
        if isinstance(sel, str):
            check(same(np.asarray(got), np.asarray(cols[sel][index])), "ds-differs", "[%s] is %s, expected %s", s, brief(got), brief(cols[sel][index]))
        else:
            same_rec(got, np.asarray(model(sel)[index]), s)
        c.st("ds_gets")
    c.nontrivial = n > 1 and len(order) > 1


def run(c):
    (ds_case if c.index % 3 == 2 else case)(c)


if __name__ == "__main__":
    sys.exit(main({"C22": run}))
