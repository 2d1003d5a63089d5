"""C30: Python threads working on the same file at the same time."""
import gc, os, pickle, threading, time
import numpy as np
from vfpy import *
import bigfile
from bigfile import File, Dataset, set_buffer_size


class Block:
    """name, rows before, rows after, which rows a thread writes, attributes."""


def new_block(c, root, name, n, r):
    b = Block()
    b.name = name
    dt = gen_dtype(r, ["i4", "i8", "u4", "u8", "f4", "f8", "c8", "i2", "S5"])
    b.dtype, b.nm = dt, r.choice([1, 1, 2, 3])
    shape = (n,) if b.nm == 1 else (n, b.nm)
    b.old, b.new = gen_values(r, dt, shape), gen_values(r, dt, shape)
    b.writer = np.full(n, -1)
    b.attrs = {"a%d" % k: gen_values(r, gen_dtype(r, ["i4", "f8", "S3"]), (r.randint(1, 5),)) for k in range(r.randint(0, 3))}
    b.sizes = gen_sizes(r, n)
    write_block(os.path.join(root, name), b.old, b.sizes, b.attrs)
    return b


def raw(a, n):
    """per row, the little-endian bytes."""
    return np.frombuffer(lebytes(np.ascontiguousarray(a)), "u1").reshape(n, -1)


def judge(b, s, got, what, done=None):
    """each item of the rows read is the one before or the one after the write that was going on."""
    n = len(got)
    if n == 0:
        return 0
    w = b.dtype.itemsize
    g, o, x = (raw(a, n).reshape(n, b.nm, w) for a in (got, b.old[s:s + n], b.new[s:s + n]))
    isold, isnew = (g == o).all(axis=2), (g == x).all(axis=2)
    wr = (b.writer[s:s + n] >= 0)[:, None]
    bad = ~(isold | (isnew & wr))
    if done is not None:
        bad |= (done[s:s + n][:, None]) & ~isnew
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Fail("row", "%s: row %d of %s is %r; before %r, after %r%s" % (what, s + i, b.name, got[i], b.old[s + i], b.new[s + i], "" if wr[i] else " (nobody writes it)"))
    return int((isnew & ~isold).any()) + 2 * int((isold & ~isnew).any())


class Gate:
    def __init__(self, n):
        self.b = threading.Barrier(n)


def slices(r, n):
    s = r.randint(0, n)
    k = min(n - s, r.choice([0, 1, 2, r.randint(0, n), n]))
    return s, k


def c30(c):
    r = c.r
    root = os.path.join(c.dir, "f")
    os.makedirs(root)
    n = r.choice([1, 7, 40, 300, r.randint(1, 2000)])
    blocks = [new_block(c, root, nm, n, r) for nm in r.sample(["a", "b", "g/c", "g/d", "e"], r.randint(1, 4))]
    c.note("%d rows, %s" % (n, " ".join("%s %s*%d %r" % (b.name, b.dtype.str, b.nm, b.sizes) for b in blocks)))
    set_buffer_size(r.choice([1, 64, 1000, 65536, 1 << 20]))
    f = File(root)
    shared = {b.name: f.open(b.name) for b in blocks}
    names = [b.name for b in blocks]
    data = Dataset(f, names)
    nth = r.randint(2, 7)
    roles = [r.choice(["read", "shared", "shared", "dataset", "write", "write", "write", "create", "list", "error", "pickle", "attr"]) for _ in range(nth)]
    if r.random() < .6:
        roles[:2] = ["write", r.choice(["read", "shared", "dataset"])]
    # disjoint ranges for the writers
    plan = {}
    for t, role in enumerate(roles):
        if role == "write":
            b = r.choice(blocks)
            free = np.flatnonzero(b.writer < 0)
            if len(free) == 0:
                continue
            k = r.randrange(len(free))
            s = e = int(free[k])
            want = r.choice([1, 3, n // 4 + 1, n])
            while e < n and b.writer[e] < 0 and e - s < want:
                e += 1
            b.writer[s:e] = t
            plan[t] = (b, s, e)
    c.note("threads " + " ".join(roles))
    done = {b.name: np.zeros(n, bool) for b in blocks}
    keep, fails, own = [None] * nth, [], {}
    rs = [random.Random("%d/%d" % (r.getrandbits(40), t)) for t in range(nth)]
    pieces = [rs[t].randint(2, 8) for t in range(nth)]
    start = threading.Barrier(nth)
    stats = [dict() for _ in range(nth)]

    def st(t, k, m=1):
        stats[t][k] = stats[t].get(k, 0) + m

    def work(t):
        q, role = rs[t], roles[t]
        try:
            start.wait(60)
            if q.random() < .3:
                time.sleep(q.random() * .002)
            todo(t, q, role)
        except Fail as e:
            fails.append((e.key, "thread %d (%s): %s" % (t, role, e.msg)))
        except Exception as e:
            fails.append(("unexpected-" + type(e).__name__, "thread %d (%s): %s" % (t, role, traceback.format_exc().replace("\n", " | ")[-1500:])))

    def look(t, b, s, k, got, what, d):
        check(isinstance(got, np.ndarray) and got.shape == b.old[s:s + k].shape and got.dtype.base == b.dtype, "shape", "%s of rows [%d,%d) of %s gives %s %s", what, s, s + k, b.name, got.dtype, got.shape)
        m = judge(b, s, got, what, d)
        if m & 1 and (b.writer[s:s + k] >= 0).any():
            st(t, "read_new")
        if m == 3 and (b.writer[s:s + k] >= 0).all():
            st(t, "read_mixed")

    def todo(t, q, role):
        if role == "write" and t in plan:
            b, s, e = plan[t]
            ff = f if q.random() < .5 else File(root)
            col = ff.open(b.name)
            keep[t] = col          # flushed and closed after everybody is done
            at = s
            while at < e:
                k = q.randint(1, max(1, (e - s) // 3 + 1))
                k = min(k, e - at)
                v = relayout(q, b.new[at:at + k])
                if b.dtype.kind != "S" and q.random() < .3:
                    v = v.astype(v.dtype.newbyteorder(">" if b.dtype.str[0] == "<" else "<")) if b.dtype.kind in "iu" else v
                if q.random() < .5:
                    col.write(at, v)
                else:
                    col[at:at + k] = v
                done[b.name][at:at + k] = True
                st(t, "writes")
                at += k
        elif role in ("read", "shared", "write"):
            b = q.choice(blocks)
            col = shared[b.name] if role == "shared" else (f if q.random() < .5 else File(root)).open(b.name)
            for _ in range(pieces[t]):
                s, k = slices(q, n)
                d = done[b.name].copy()
                how = q.random()
                if how < .4:
                    got = col[s:s + k]
                elif how < .7 or k == 0:
                    got = col.read(s, k) if k else col[s:s]
                else:
                    out = np.empty(b.old[s:s + k].shape, b.dtype)
                    got = col.read(s, k, out)
                    check(got is out or got.base is out, "out", "read does not fill the given array")
                look(t, b, s, k, got, "reading " + ("a shared column" if role == "shared" else "a column"), d)
                st(t, "shared_reads" if role == "shared" else "reads")
        elif role == "dataset":
            sel = [x for x in names if q.random() < .7] or names
            ds = data if q.random() < .5 else Dataset(f, sel)
            sel = list(ds.dtype.names)
            for _ in range(pieces[t]):
                s, k = slices(q, n)
                d = {x: done[x].copy() for x in sel}
                got = ds[s:s + k]
                check(len(got) == k, "shape", "%d rows of the dataset instead of %d", len(got), k)
                for b in blocks:
                    if b.name in sel:
                        look(t, b, s, k, got[b.name].reshape(b.old[s:s + k].shape), "reading a dataset", d[b.name])
                st(t, "dataset_reads")
        elif role == "create":
            for j in range(q.randint(1, 3)):
                name = "%sown-%d-%d" % (q.choice(["", "g/", "h/i/"]), t, j)
                m = gen_values(q, gen_dtype(q, ["i4", "i8", "f8", "u2"]), (q.randint(0, 50),))
                nf = q.randint(1, 4)
                if q.random() < .5:
                    col = f.create_from_array(name, m, Nfile=nf)
                else:
                    with f.create(name, m.dtype, len(m), nf) as w:
                        for i in range(0, len(m), 7):
                            w.write(i, m[i:i + 7])
                    col = f.open(name)
                a = gen_values(q, np.dtype("i8"), (3,))
                col.attrs["x"] = a
                col.flush()
                own[name] = (m, a)
                got = f.open(name)[...]
                check(same(got, m), "own", "the block %s a thread created holds other rows", name)
                st(t, "created")
        elif role == "list":
            for _ in range(pieces[t]):
                ls = File(root).list_blocks() if q.random() < .5 else f.list_blocks()
                check(len(set(ls)) == len(ls) and set(names) <= set(ls), "list", "the list %r lacks some of %r or repeats", ls, names)
                check(all(x in names or "own-" in x for x in ls), "list", "the list %r has blocks that were never created", ls)
                st(t, "lists")
        elif role == "error":
            for j in range(pieces[t]):
                name = "missing-%d-%d" % (t, j)
                how = q.randrange(3)
                try:
                    if how == 0:
                        f.open(name)
                    elif how == 1:
                        File(os.path.join(root, name))
                    else:
                        name, k = q.choice(names), n + 1 + t
                        f.open(name).write(k, np.zeros(1))
                    ok = True
                except (bigfile.Error, ValueError) as e:
                    ok, text = False, str(e)
                name = str(k) if how == 2 else name
                check(not ok, "no-error", "using %s does not raise", name)
                check(name in text, "message", "the error of %s is %r", name, text)
                st(t, "errors")
        elif role == "pickle":
            for _ in range(pieces[t]):
                b = q.choice(blocks)
                s, k = slices(q, n)
                d = done[b.name].copy()
                col = pickle.loads(pickle.dumps(shared[b.name], q.choice([2, 4])))
                look(t, b, s, k, col[s:s + k], "reading a restored column", d)
                ff = pickle.loads(pickle.dumps(f))
                check(set(names) <= set(ff.list_blocks()), "list", "a restored file lacks blocks")
                del col, ff
                st(t, "pickles")
        elif role == "attr":
            for _ in range(pieces[t]):
                b = q.choice(blocks)
                col = shared[b.name] if q.random() < .7 else f.open(b.name)
                check(sorted(col.attrs) == sorted(b.attrs), "attrs", "attributes %r instead of %r", sorted(col.attrs), sorted(b.attrs))
                for k, v in b.attrs.items():
                    got = col.attrs[k]
                    want = v if v.dtype.kind != "S" else None
                    check(want is None or same(np.asarray(got), v), "attrs", "attribute %s of %s is %r, %r is stored", k, b.name, got, v)
                st(t, "attr_reads")
        if q.random() < .2:
            gc.collect()

    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 5e-3]))
    th = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nth)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    sys.setswitchinterval(old)
    for s in stats:
        for k, v in s.items():
            c.st(k, v)
    if fails:
        raise Fail(*fails[0])
    for k in range(nth):
        if keep[k] is not None:
            keep[k].flush()
            keep[k] = None
    del shared, data, f
    gc.collect()
    for b in blocks:
        want = b.old.copy()
        want[b.writer >= 0] = b.new[b.writer >= 0]
        d = read_block(os.path.join(root, b.name))
        check(d["dtype"] == b.dtype and d["sizes"] == b.sizes and d["nmemb"] == b.nm, "description", "the header of %s is %s*%d %r", b.name, d["dtype"], d["nmemb"], d["sizes"])
        got = rows_of(d).reshape(want.shape)
        check(same(got, want), "rows-at-end", "the rows of %s are not those written", b.name)
        check({k: (v.dtype, v.size, v.tobytes()) for k, v in b.attrs.items()} == d["attrs"], "attrs", "the attributes of %s changed", b.name)
        c.st("blocks_compared")
    for name, (m, a) in own.items():
        d = read_block(os.path.join(root, name))
        check(same(rows_of(d).reshape(m.shape), m) and d["attrs"]["x"][2] == a.tobytes(), "own", "the block %s a thread created is not as it left it", name)
        c.st("blocks_compared")
    c.nontrivial = n > 1 and bool(plan)
    c.sig = c.desc
    set_buffer_size(64 * 1024 * 1024)


sys.exit(main({"C30": c30}))
