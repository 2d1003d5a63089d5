"""Case runner of the Python harnesses (same protocol as harness/common.h) and the independent
numpy model of the format."""
import ctypes, hashlib, json, mmap, os, random, shutil, signal, struct, sys, threading, time, traceback
import numpy as np


class Fail(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, key, msg)
        self.key, self.msg = key, msg


def check(cond, key, msg, *a):
    if not cond:
        raise Fail(key, msg % a if a else msg)


class Ctx:
    def __init__(self):
        self.stat = {}

    def st(self, key, n=1):
        self.stat[key] = self.stat.get(key, 0) + n

    def note(self, s):
        self.desc += s + "; "
        b = s.encode(errors="replace")
        if self.prog is not None:
            cur = self._note = (self._note + b + b"; ")[-4000:]
            self.prog[16:17 + len(cur)] = cur + b"\0"


def late():
    t = int(os.environ.get("VF_DEADLINE", 0))
    return t and time.time() >= t


def main(modes):
    # a parent that dies takes this process with it
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    c = Ctx()
    c.tier = int(a["--tier"])
    seed, start, stride, cases = (int(a["--" + k]) for k in ("seed", "start", "stride", "cases"))
    mode = a["--mode"]
    fn = modes[mode]
    c.args = a
    with open(a["--progress"], "wb") as f:
        f.truncate(65536)
    pf = open(a["--progress"], "r+b")
    c.prog = mmap.mmap(pf.fileno(), 65536)
    dist = open(a["--dist"], "ab")
    nviol = nsample = done = 0
    out = sys.stdout
    c.shard = {}
    for i in range(start, cases, stride):
        if done and late():
            print("CUT", file=out)
            break
        c.index, c.seed = i, seed
        c.r = random.Random("%d/%s/%d" % (seed, mode, i))
        c.desc, c.sig, c.nontrivial, c._note = "", None, False, b""
        c.prog[0:17] = struct.pack("<QQ", i, 1) + b"\0"
        c.dir = os.path.join(a["--dir"], "c%d" % i)
        os.makedirs(c.dir)
        try:
            fn(c)
        except Fail as e:
            msg = e.msg.replace("\n", " ").replace("\t", " ")[:3000]
            print("VIOL\t%d\t%s\t%s\t%s" % (i, e.key, msg, c.desc.replace("\n", " ").replace("\t", " ")), file=out, flush=True)
            nviol += 5 if e.key == "hang" else 1
        except Exception as e:
            tb = traceback.format_exc()
            print(tb, file=sys.stderr, flush=True)
            # raised by the code under test out of a call that has no cause to fail
            print("VIOL\t%d\tunexpected-%s\t%s\t%s" % (i, type(e).__name__, tb.replace("\n", " | ").replace("\t", " ")[-2500:], c.desc.replace("\n", " ").replace("\t", " ")), file=out, flush=True)
            nviol += 1
        c.prog[8:16] = struct.pack("<Q", 0)
        os.environ.get("VF_KEEP") or shutil.rmtree(c.dir, ignore_errors=True)
        done += 1
        h = hashlib.blake2b((c.sig or c.desc).encode(errors="replace"), digest_size=8).digest()
        dist.write(h + bytes([bool(c.nontrivial)]))
        if c.nontrivial and nsample < 2:
            nsample += 1
            print("SAMPLE\t" + json.dumps(dict(case=i, trace=c.desc[:700])), file=out)
        if nviol >= 5:
            break
    dist.close()
    for k, v in sorted(c.stat.items()):
        print("STAT\t%s\t%d" % (k, v), file=out)
    print("DONE\t%d" % done, file=out, flush=True)
    return 0


# ------------------------------------------------------------------ data types and values
STORED = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "c8", "c16", "b1", "S1", "S5", "f2", "f16"]
CONV = ["i4", "i8", "u4", "u8", "f4", "f8"]


def gen_dtype(r, pool=None, native=False):
    k = r.choice(pool or (CONV + ["c8", "c16", "b1", "S3", "i1", "u1", "i2", "u2"] if r.random() < .8 else STORED))
    if k[0] == "S" or k in ("i1", "u1", "b1"):
        return np.dtype(k)
    return np.dtype((">" if not native and r.random() < .4 else "<") + k)


def rand_bytes(r, n):
    return r.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def gen_values(r, dt, shape, tame=False):
    """random values of dt; tame: small integers, the same in every type."""
    n = int(np.prod(shape, dtype=int))
    k = dt.kind
    if k == "S":
        a = np.array([bytes(r.choice(b"abcXYZ019 ") for _ in range(r.randint(0, dt.itemsize))) for _ in range(n)], dtype=dt)
    elif k == "b":
        a = np.array([r.random() < .5 for _ in range(n)], dtype=dt)
    elif tame:
        a = np.array([r.randint(0, 100) for _ in range(n)]).astype(dt)
    elif dt.itemsize in (16, 32) and k == "f" or dt.itemsize == 32:
        a = np.array([r.uniform(-1e6, 1e6) for _ in range(n)]).astype(dt)
    elif k in "fc" and r.random() < .5:
        a = np.array([r.uniform(-1e6, 1e6) for _ in range(n)]).astype(dt)
        if k == "c":
            a = (a + 1j * np.array([r.uniform(-9, 9) for _ in range(n)])).astype(dt)
    else:
        a = np.frombuffer(rand_bytes(r, n * dt.itemsize), dtype=dt).copy()
    return a.reshape(shape)


def relayout(r, a, allow=("c", "rev", "gap", "perm", "off")):
    """the same values in another memory layout."""
    k = r.choice(allow)
    if a.size == 0 or a.ndim == 0:
        return a
    if k == "rev":
        b = np.empty_like(a)[::-1]
    elif k == "gap":
        ax = r.randrange(a.ndim)
        s = list(a.shape)
        s[ax] = s[ax] * r.randint(2, 3)
        b = np.zeros(s, a.dtype)
        sl = [slice(None)] * a.ndim
        sl[ax] = slice(0, None, s[ax] // a.shape[ax])
        b = b[tuple(sl)]
    elif k == "perm" and a.ndim > 1:
        b = np.empty(a.shape[::-1], a.dtype).T
    elif k == "off" and a.dtype.itemsize > 1:
        raw = np.zeros(a.nbytes + 64, "u1")
        o = r.randint(1, 17)
        b = raw[o:o + a.nbytes].view(a.dtype).reshape(a.shape) if o % a.dtype.alignment == 0 else np.empty_like(a)
    else:
        b = np.empty_like(a)
    b[...] = a
    return b


def castable(src, dst):
    """the pairs the library converts."""
    s, d = src.base, dst.base
    if s.kind == d.kind and s.itemsize == d.itemsize:
        return True
    s, d = s.str[1:], d.str[1:]
    return (s in CONV and d in CONV) or (s == "b1" and d in CONV) or (s in ("c8", "c16") and d in ("c8", "c16"))


def same(a, b):
    """bitwise equality of two arrays of the same kind, up to the byte order and to padding."""
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind or a.dtype.itemsize != b.dtype.itemsize:
        return False
    if a.dtype.kind == "f" and a.dtype.itemsize == 16:
        return bool(np.array_equal(a, b, equal_nan=True))
    n = a.dtype.newbyteorder("<")
    x, y = np.ascontiguousarray(a), np.ascontiguousarray(b)
    # swapped as integers: conversion as floating point may alter a NaN
    return lebytes(x) == lebytes(y)


def lebytes(a):
    """the bytes of a contiguous array in little-endian order."""
    d = a.dtype
    if d.kind in "Sb" or d.itemsize == 1 or d.str[0] != ">":
        return a.tobytes()
    w = d.itemsize // (2 if d.kind == "c" else 1)
    b = np.frombuffer(a.tobytes(), "u1").reshape(-1, w)[:, ::-1]
    return b.tobytes()


def sysv(s):
    r = (s & 0xffff) + (((s & 0xffffffff) >> 16) & 0xffff)
    return (r & 0xffff) + (r >> 16)


# ------------------------------------------------------------------ the format, independently
def norm(dt):
    dt = np.dtype(dt).base
    s = dt.str
    return s if s[0] != "|" else "|" + s[1:]


def read_block(path):
    """(dtype, nmemb, sizes, checksums, attrs, data bytes per file) of a block on disk."""
    h = open(os.path.join(path, "header")).read().split("\n")
    f = {}
    files = {}
    for l in h:
        if not l.strip():
            continue
        k, v = l.split(":", 1)
        if k.strip() in ("DTYPE", "NMEMB", "NFILE"):
            f[k.strip()] = v.strip()
        else:
            v = v.split(":")
            files[int(k, 16)] = (int(v[0]), int(v[1]), int(v[2]) if len(v) > 2 else None)
    dt, nm, nf = np.dtype(f["DTYPE"]), int(f["NMEMB"]), int(f["NFILE"])
    if sorted(files) != list(range(nf)):
        raise Fail("disk-header", "header of %s lists the files %r of %d" % (path, sorted(files), nf))
    data = [open(os.path.join(path, "%06X" % i), "rb").read() for i in range(nf)]
    for i in range(nf):
        check(len(data[i]) <= files[i][0] * nm * dt.itemsize, "disk-data", "file %06X of %s is too long", i, path)
    return dict(dtype=dt, nmemb=nm, sizes=[files[i][0] for i in range(nf)], sums=[files[i][1] for i in range(nf)],
                sysv=[files[i][2] for i in range(nf)], attrs=read_attrs(path), data=data)


def read_attrs(path):
    out = {}
    p = os.path.join(path, "attr-v2")
    if os.path.exists(p):
        for l in open(p, "rb").read().split(b"\n"):
            if l.strip():
                t = l.split()
                name, dt, n = t[0].decode(), np.dtype(t[1].decode()), int(t[2])
                out[name] = (dt, n, bytes.fromhex(t[3].decode()) if len(t) > 3 and not t[3].startswith(b"#") else b"")
    return out


def rows_of(b):
    """all rows of a block read by read_block."""
    raw = b"".join(b["data"])
    n = sum(b["sizes"])
    a = np.frombuffer(raw, b["dtype"])
    return a.reshape(n, b["nmemb"]) if b["nmemb"] != 1 else a


def write_block(path, arr, sizes, attrs=None, sums=None, dtype=None):
    """a block as an independent implementation of the format stores it. attrs: name -> array."""
    os.makedirs(path)
    dt = arr.dtype
    nm = int(np.prod(arr.shape[1:], dtype=int)) if arr.ndim > 1 else 1
    h = "DTYPE: %s\nNMEMB: %d\nNFILE: %d\n" % (dt.str, nm, len(sizes))
    o = 0
    for i, s in enumerate(sizes):
        d = np.ascontiguousarray(arr[o:o + s]).tobytes()
        o += s
        open(os.path.join(path, "%06X" % i), "wb").write(d)
        c = (sum(d) if sums is None else sums[i]) & 0xffffffff
        h += "%06X: %d : %u : %u\n" % (i, s, c, sysv(c))
    open(os.path.join(path, "header"), "w").write(h)
    if attrs is not None:
        t = ""
        for k in sorted(attrs):
            v = np.asarray(attrs[k]).ravel()
            t += "%s %s %d %s #HUMAN [ ]\n" % (k, v.dtype.str, v.size, v.tobytes().hex().upper())
        open(os.path.join(path, "attr-v2"), "w").write(t)


def snapshot(root):
    """every file below root with its content."""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            out[os.path.relpath(os.path.join(d, x), root)] = open(os.path.join(d, x), "rb").read()
    return out


def gen_sizes(r, n, most=6):
    """n rows in files of random sizes, some empty."""
    if n == 0:
        return [0] * r.randint(0, 2)
    k = r.randint(1, most)
    cut = sorted(r.randint(0, n) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cut, cut + [n])]
