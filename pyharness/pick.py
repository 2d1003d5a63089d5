"""C24: pickled columns and files."""
import copy, gc, os, pickle, subprocess, sys, warnings
import numpy as np
from vfpy import *
warnings.simplefilter("ignore")
import bigfile
from bigfile import File, Column, Dataset, Error, ColumnClosedError, set_buffer_size
from api import gen_attr_value, gen_attr_name, attr_equal, check_attrs, brief, raises


class H:
    """a live column and what it holds; rows are on disk, shared by all handles of a block."""
    def __init__(self, col, blk, attrs, sums):
        self.col, self.blk, self.attrs, self.sums = col, blk, attrs, sums
        self.hdirty = self.adirty = False

    def like(self, col):
        h = H(col, self.blk, dict(self.attrs), list(self.sums))
        h.hdirty, h.adirty = self.hdirty, self.adirty
        return h


class Blk:
    def __init__(self, name, arr, sizes):
        self.name, self.arr, self.sizes = name, arr, sizes


def add_sums(h, lo, v):
    """the byte sums of rows v written at lo."""
    o = 0
    for i, s in enumerate(h.blk.sizes):
        a, b = max(lo, o), min(lo + len(v), o + s)
        if a < b:
            h.sums[i] = (h.sums[i] + sum(np.ascontiguousarray(v[a - lo:b - lo]).tobytes())) & 0xffffffff
        o += s


def verify(c, h, what):
    b = h.blk
    n = 0 if b.arr is None else len(b.arr)
    check(h.col.size == n and h.col.Nfile == len(b.sizes), "layout", "%s: %d rows in %d files, expected %d in %d", what, h.col.size, h.col.Nfile, n, len(b.sizes))
    if b.arr is not None:
        check(h.col.dtype == np.dtype((b.arr.dtype, b.arr.shape[1:])), "dtype", "%s: dtype %r", what, h.col.dtype)
        got = h.col[...]
        check(same(got, b.arr), "rows", "%s: rows are %s, expected %s", what, brief(got), brief(b.arr))
    check_attrs(c, h.col, h.attrs, what)
    repr(h.col)
    c.st("verified")


def verify_disk(c, h, root, what):
    """what a handle had not saved is on disk after it was flushed or destroyed."""
    d = read_block(os.path.join(root, h.blk.name))
    if h.hdirty:
        c.st("headers_saved")
    if h.adirty:
        c.st("attrs_saved")
    check(not h.hdirty or d["sums"] == h.sums and d["sysv"] == [sysv(x) for x in h.sums], "disk-checksums", "%s: the header has checksums %r, expected %r", what, d["sums"], h.sums)
    check(not h.adirty or set(d["attrs"]) == set(h.attrs), "disk-attrs", "%s: the attribute file has %r, expected %r", what, sorted(d["attrs"]), sorted(h.attrs))
    for k, v in h.attrs.items():
        if isinstance(v, np.ndarray) and h.adirty:
            check(same(np.frombuffer(d["attrs"][k][2], d["attrs"][k][0]), v), "disk-attrs", "%s: the value of attribute %r differs on disk: %r %r", what, k, brief(v), d["attrs"][k])
    check(d["sizes"] == h.blk.sizes, "disk-layout", "%s: the header has sizes %r, expected %r", what, d["sizes"], h.blk.sizes)
    if h.blk.arr is not None:
        check(same(rows_of(d), h.blk.arr), "disk-rows", "%s: the files differ", what)
    c.st("verified_on_disk")


WORKER = """
import sys, pickle, struct
out = sys.stdout.buffer
import os
sys.stdout = sys.stderr
def rd(n):
    b = sys.stdin.buffer.read(n)
    if len(b) != n: sys.exit(0)
    return b
while True:
    n, = struct.unpack('<Q', rd(8))
    op, blob = pickle.loads(rd(n))
    try:
        col = pickle.loads(blob)
        if op[0] == 'read':
            res = (str(col.dtype.base.str), col.dtype.shape, int(col.size), int(col.Nfile), col[...].tobytes() if col.dtype.itemsize else b'', {k: col.attrs[k] for k in col.attrs})
        elif op[0] == 'set':
            col.attrs[op[1]] = op[2]
            col.flush()
            res = {k: col.attrs[k] for k in col.attrs}
        elif op[0] == 'again':
            res = pickle.dumps(col, op[1])
        elif op[0] == 'file':
            res = (col.basename, col.list_blocks())
        del col
        r = ('ok', res)
    except Exception as e:
        r = ('err', repr(e))
    b = pickle.dumps(r)
    out.write(struct.pack('<Q', len(b)) + b)
    out.flush()
"""


def remote(c, op, blob):
    """another process restores the pickle."""
    w = c.shard.get("w")
    if w is None or w.poll() is not None:
        w = c.shard["w"] = subprocess.Popen([sys.executable, "-c", WORKER], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    b = pickle.dumps((op, blob))
    try:
        w.stdin.write(struct.pack("<Q", len(b)) + b)
        w.stdin.flush()
        n = w.stdout.read(8)
        r = pickle.loads(w.stdout.read(struct.unpack("<Q", n)[0]))
    except (BrokenPipeError, struct.error):
        raise Fail("crash-other-process", "the process restoring the pickle ended with %r" % w.wait())
    if r[0] == "err":
        raise Fail("remote-failed", "another process restoring the pickle fails: %s" % r[1])
    c.st("other_process")
    return r[1]


def case(c):
    r = c.r
    if c.index % 9 == 8:
        return file_case(c)
    set_buffer_size(r.choice([7, 64, 1000, 65536]))
    root = c.dir + "/" + "f" * r.choice([1, 1, 30, 200])
    f = File(root, create=True)
    hs = []
    blks = []
    for name in r.sample(["A", "B", "sub/deep/C", "n" * 150], r.randint(1, 2)):
        k = r.random()
        if k < .1:
            col = f.create(name)
            b = Blk(name, None, [])
        else:
            n = r.choice([0, 1, r.randint(2, 60)])
            nm = r.choice([1, 1, 2, 3])
            arr = gen_values(r, gen_dtype(r), (n,) if nm == 1 else (n, nm))
            nf = (r.choice([1, 2, 5, 5, r.randint(100, 300)]) if n else r.randint(0, 2))
            col = f.create(name, np.dtype((arr.dtype, arr.shape[1:])) if nm > 1 else arr.dtype, n, nf)
            b = Blk(name, np.zeros_like(arr), [n * (i + 1) // nf - n * i // nf for i in range(nf)])
        h = H(col, b, {}, [0] * len(b.sizes))
        if b.arr is not None and len(b.arr):
            h.col.write(0, arr)
            add_sums(h, 0, arr)
            b.arr = arr
            h.hdirty = True
        c.note("%s %s %d files" % (name[:10], "none" if b.arr is None else "%s%s" % (b.arr.dtype, b.arr.shape), len(b.sizes)))
        if r.random() < .5:
            h.col.flush()
            h.hdirty = False
            if r.random() < .5:
                h = H(f.open(name), b, {}, list(h.sums))
            if r.random() < .3 and b.arr is not None:
                ds = Dataset(f, [name])
                h = H(ds[name], b, {}, list(h.sums))
                del ds
        col = None
        hs.append(h)
        blks.append(b)
    if r.random() < .3:
        del f
        c.note("file gone")
    for _ in range(r.randint(4, 20)):
        if not hs:
            break
        h = r.choice(hs)
        k = r.random()
        if k < .25:
            how = r.choice(["loads", "loads", "loads", "copy", "deepcopy", "remote"])
            p = r.randint(0, pickle.HIGHEST_PROTOCOL)
            c.note("%s %d of %s %d" % (how, p, h.blk.name[:10], hs.index(h)))
            if how == "copy":
                col = copy.copy(h.col)
            elif how == "deepcopy":
                col = copy.deepcopy(h.col)
            else:
                blob = pickle.dumps(h.col, p)
                if how == "remote":
                    blob = remote(c, ("again", r.randint(0, pickle.HIGHEST_PROTOCOL)), blob)
                    # the other process flushed what was not flushed when its copy was destroyed
                if r.random() < .3:
                    c.shard.setdefault("keep", []).append((blob, h.attrs))
                col = pickle.loads(blob)
                if r.random() < .3:
                    verify(c, h.like(pickle.loads(blob)), "restored a second time")
            check(type(col) is type(h.col), "type", "restored as %r", type(col))
            h2 = h.like(col)
            col = None
            verify(c, h2, "restored")
            hs.append(h2)
            c.st("restored")
            if how != "loads":
                c.st("restored_" + how)
        elif k < .33:
            got = remote(c, ("read",), pickle.dumps(h.col)) if h.blk.arr is not None else None
            if got:
                a = h.blk.arr
                check(got[:4] == (a.dtype.str, a.shape[1:], len(a), len(h.blk.sizes)), "remote-layout", "in another process: %r", got[:4])
                check(got[4] == np.ascontiguousarray(a).tobytes(), "remote-rows", "the rows differ in another process")
                check(set(got[5]) == set(h.attrs), "remote-attrs", "in another process the attributes are %r", sorted(got[5]))
                for q, v in h.attrs.items():
                    check(attr_equal(got[5][q], v), "remote-attrs", "in another process attribute %r is %s, expected %s", q, brief(got[5][q]), brief(v))
                c.note("read by another process")
        elif k < .55:
            q = gen_attr_name(r, h.attrs)
            if q in h.attrs and r.random() < .3:
                c.note("del %s" % q[:10])
                del h.col.attrs[q]
                del h.attrs[q]
                h.adirty = True
            else:
                v, want = gen_attr_value(r)
                if want is None or isinstance(want, str) and want == "either" or isinstance(want, np.ndarray) and want.dtype.hasobject:
                    continue
                c.note("%d.%s =" % (hs.index(h), q[:10]))
                h.col.attrs[q] = v
                h.attrs[q] = want
                h.adirty = True
            for o in hs:
                if o.blk is h.blk:
                    check_attrs(c, o.col, o.attrs, "handle %d after an attribute of handle %d was set" % (hs.index(o), hs.index(h)))
        elif k < .7 and h.blk.arr is not None and len(h.blk.arr):
            n = len(h.blk.arr)
            lo = r.randint(0, n)
            hi = r.randint(lo, n)
            v = gen_values(r, h.blk.arr.dtype, (hi - lo,) + h.blk.arr.shape[1:])
            c.note("%d[%d:%d] =" % (hs.index(h), lo, hi))
            h.col[lo:hi] = v
            h.blk.arr = h.blk.arr.copy()
            h.blk.arr[lo:hi] = v
            add_sums(h, lo, v)
            h.hdirty = h.hdirty or hi > lo
            for o in hs:
                if o.blk is h.blk:
                    verify(c, o, "after rows were written through another handle")
        elif k < .85:
            c.note("destroy %d" % hs.index(h))
            flushed = h.hdirty or h.adirty
            hs.remove(h)
            h.col = None
            gc.collect()
            if flushed:
                verify_disk(c, h, root, "after a handle with changes was destroyed")
            c.st("destroyed")
            for o in hs:
                verify(c, o, "after another handle was destroyed")
        else:
            c.note("flush %d" % hs.index(h))
            h.col.attrs["mark"] = 1
            h.attrs["mark"] = np.array([1])
            r.choice([h.col.flush, h.col.close])()
            h.adirty = True
            verify_disk(c, h, root, "after a flush")
            h.hdirty = h.adirty = False
            verify(c, h, "after a flush")
            c.st("flushes")
    if hs and r.random() < .4:
        # growing one handle does not change the other
        h = r.choice(hs)
        if h.blk.arr is not None and len(h.blk.sizes):
            others = [o for o in hs if o is not h and o.blk is h.blk]
            new = gen_values(r, h.blk.arr.dtype, (r.randint(1, 9),) + h.blk.arr.shape[1:])
            h.col.append(new, 2)
            check(same(h.col[...], np.concatenate([h.blk.arr, new])), "append-rows", "rows differ after appending to one of the copies")
            for o in others:
                verify(c, o, "after another handle was grown")
            c.st("grown")
    else:
        never(c)
    # all that is left is destroyed in random order
    r.shuffle(hs)
    while hs:
        hs.pop()
    gc.collect()
    c.nontrivial = len(blks) > 0


def never(c):
    r = c.r
    col = Column()
    if r.random() < .5:
        try:
            col.open(File(c.dir), "missing")
        except Error:
            pass
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        d = pickle.loads(pickle.dumps(col, p))
        raises(c, "restored-never-opened", lambda: d.read(0, 1), ColumnClosedError)
        raises(c, "restored-never-opened", lambda: d.attrs.keys(), ColumnClosedError)
        raises(c, "restored-never-opened", d.flush, ColumnClosedError)
        check(d.size == 0 and d.Nfile == 0, "never-opened", "%d rows", d.size)
        del d
    raises(c, "restored-never-opened", lambda: col.read(0, 1), ColumnClosedError)
    c.st("never_opened")


def file_case(c):
    r = c.r
    root = c.dir + "/" + r.choice(["f", "f" * 200, "ü", "%s" * 20])
    f = File(root, create=True)
    m = {}
    def make(g):
        k = r.choice(["A", "B", "sub/C", "D"])
        a = gen_values(r, gen_dtype(r), (r.randint(1, 9),))
        g.create_from_array(k, a)
        m[k] = a
    fs = [f]
    f = None
    for _ in range(r.randint(3, 10)):
        g = r.choice(fs)
        k = r.random()
        if k < .4:
            make(g)
            c.note("create")
            check(g.blocks == sorted(m), "blocks", "the blocks are %r, expected %r", g.blocks, sorted(m))
        elif k < .75:
            p = r.randint(0, pickle.HIGHEST_PROTOCOL)
            g.blocks if r.random() < .5 else None
            blob = pickle.dumps(g, p)
            h = pickle.loads(blob) if r.random() < .8 else copy.copy(g)
            check(type(h) is File and h.basename == root, "basename", "restored %r of %r", type(h), h.basename)
            check(h.list_blocks() == sorted(m), "blocks", "the restored file lists %r, expected %r", h.list_blocks(), sorted(m))
            if not m:
                pass
            elif set(g.blocks) == set(m):
                check(h.blocks == sorted(m), "blocks", "the restored file has blocks %r, expected %r", h.blocks, sorted(m))
            fs.append(h)
            c.note("pickle %d" % p)
            if r.random() < .2:
                got = remote(c, ("file",), blob)
                check(got == (root, sorted(m)), "remote-file", "in another process: %r", got)
            c.st("files_restored")
        elif len(fs) > 1:
            c.note("destroy")
            fs.remove(g)
            g = h = None
            gc.collect()
        g = h = None
        for o in fs:
            for k in m:
                check(same(o[k][...], m[k]), "file-rows", "%s differs", k)
    blob = pickle.dumps(fs[0])
    fs = []
    os.rename(root, root + "-moved")
    raises(c, "restored-missing", lambda: pickle.loads(blob), Error)
    os.rename(root + "-moved", root)
    g = pickle.loads(blob)
    check(g.list_blocks() == sorted(m), "blocks", "the restored file lists %r", g.list_blocks())
    c.st("files")
    c.nontrivial = len(m) > 1


if __name__ == "__main__":
    sys.exit(main({"C24": case}))
