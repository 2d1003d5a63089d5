"""C25, C26, C27: the command line tools, run as processes on files written and decoded independently."""
import ctypes, math, os, random, resource, shutil, signal, subprocess
import numpy as np
from vfpy import *
PRCTL = ctypes.CDLL(None).prctl

libc = ctypes.CDLL(None)
TIMEOUT = 50


class R:
    pass


def run(c, argv, stdin=None, stdout=subprocess.PIPE, fsize=None, env=None, expect=None, mpi=0, aborts=False):
    """a tool of the build directory; crashes, reports of the sanitizers and hangs are violations."""
    argv = [os.path.join(c.args["--tools"], argv[0])] + [str(a) for a in argv[1:]]
    c.note(("mpirun %d " % mpi if mpi else "") + " ".join(os.path.basename(a) if i == 0 else a.replace(c.dir, "D") for i, a in enumerate(argv)))

    def pre():
        PRCTL(1, signal.SIGKILL)        # not to outlive the harness
        if fsize is not None and not mpi:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize * 1024, fsize * 1024))
    e = dict(os.environ)
    if env:
        e.update(env)
    if fsize is not None and mpi:
        e["VF_FSIZE"] = str(fsize * 1024)
    cmd = (["mpirun", "-q", "-n", str(mpi)] if mpi else []) + argv
    for attempt in range(4):
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE, stdout=stdout, stderr=subprocess.PIPE, env=e, cwd=c.dir,
                             preexec_fn=pre, start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=TIMEOUT * (attempt + 1))
            # not the tool: mpirun could not start, or the process was killed from outside
            if attempt < 3 and stdin is None and (mpi and p.returncode and b"ORTE_ERROR_LOG" in err and b"ession" in err or p.returncode == -9) and not argv[0].endswith("rename"):
                continue
            break
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            if attempt or stdin is None and argv[0].endswith("rename"):
                raise Fail("hang", "%s does not end" % " ".join(argv))
    r = R()
    r.rc, r.out, r.err = p.returncode, out, err.decode(errors="replace")
    tool = os.path.basename(argv[0])
    if "Sanitizer" in r.err or "runtime error" in r.err or "ERROR: " in r.err and "AddressSan" in r.err:
        i = max(r.err.find("runtime error") - 200, r.err.find("Sanitizer") - 100, 0)
        raise Fail("crash:" + tool, "%s: %s" % (tool, r.err[i:i + 1800]))
    # killed by a signal, itself or a process of mpirun or of a script
    check(0 <= r.rc < 126 or aborts and r.rc == 134, "crash:" + tool, "%s ended with status %d: %s", tool, r.rc, r.err[-800:])
    if expect is not None:
        if expect == 0:
            check(r.rc == 0, "status:" + tool, "%s failed with status %d: %s", tool, r.rc, r.err[-800:])
        else:
            check(r.rc != 0, "status:" + tool, "%s gave status 0 where it must fail: %s", tool, r.err[-500:])
    c.st("runs")
    c.st("run_" + tool.replace("bigfile-", ""))
    return r


# ------------------------------------------------------------------ test files
def blockname(r):
    return "/".join(r.choice(["", "x", "Ab", "y-1", "0", "long" * 6]) + r.choice("abcdef") + str(r.randint(0, 30)) for _ in range(r.choice([1, 1, 1, 2, 3])))


def gen_attrs(r):
    d = {}
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        n = r.choice([0, 1, 1, 2, 3, 20])
        k = r.random()
        if k < .3:
            v = np.frombuffer(bytes(r.choice(b"abc XYZ-09%") for _ in range(n)), "S1")
        else:
            dt = gen_dtype(r, ["i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "b1", "i2", "S5"])
            v = gen_values(r, dt, (n,))
        d[r.choice(["a", "B", "Name", "Time.Step", "x-y", "zz" * 12, "_1"]) + str(r.randint(0, 5))] = v
    return d


class Block:
    sums = None

    def __init__(s, arr, sizes, attrs):
        s.arr, s.sizes, s.attrs = arr, sizes, attrs


def gen_block(r, rows=None, sizes=None, nmemb=None, pool=None):
    dt = gen_dtype(r, pool)
    n = r.choice([0, 1, 2, 5, 17, 60, 200, 600]) if rows is None else rows
    nm = nmemb or r.choice([1, 1, 2, 3, 7])
    arr = gen_values(r, dt, (n,) if nm == 1 else (n, nm))
    return Block(arr, gen_sizes(r, n) if sizes is None else sizes, gen_attrs(r))


def put(root, name, b):
    p = os.path.join(root, name)
    if os.path.isdir(p):
        # a block may lie inside another, or where a group is
        for x in ("header",):
            if os.path.exists(os.path.join(p, x)):
                return False
        q = p + ".tmp"
        write_block(q, b.arr, b.sizes, b.attrs, b.sums)
        for x in os.listdir(q):
            os.rename(os.path.join(q, x), os.path.join(p, x))
        os.rmdir(q)
    else:
        write_block(p, b.arr, b.sizes, b.attrs, b.sums)
    return True


def gen_file(c, most=5, steer=False, nest=.12, blank=False, **kw):
    r = c.r
    root = os.path.join(c.dir, r.choice(["F%d", "F%d", "F %d", "G  h/-%d *"] if blank else ["F%d"]) % r.randint(0, 9))
    os.makedirs(root)
    blocks = {}
    for _ in range(r.randint(1, most)):
        n = blockname(r)
        if blocks and r.random() < nest:
            n = r.choice(sorted(blocks)) + "/" + n       # inside another block
        if n in blocks:
            continue
        b = gen_block(r, **kw)
        if steer and b.sizes and r.random() < .6:
            # recorded checksums of all sizes, among them those at which the fold to 16 bits carries
            b.sums = [r.choice([0, 1, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x2fffd, 0xfffeffff, 0xffff0000, 0xffffffff, r.getrandbits(32), r.randrange(1, 65537) * 0xffff]) & 0xffffffff for _ in b.sizes]
            if r.random() < .5:
                # only one of them counts
                k = r.randrange(len(b.sums))
                b.sums = [x if i == k else 0 for i, x in enumerate(b.sums)]
            c.st("steered_sums")
        if put(root, n, b):
            blocks[n] = b
            c.note("%s: %s x%d rows %r attrs %s" % (n, b.arr.dtype.str, 1 if b.arr.ndim == 1 else b.arr.shape[1], b.sizes, ",".join("%s:%s*%d" % (k, v.dtype.str, v.size) for k, v in b.attrs.items())))
    return root, blocks


# ------------------------------------------------------------------ text
CT = {"i4": (ctypes.c_int32, b"%d"), "i8": (ctypes.c_int64, b"%ld"), "u4": (ctypes.c_uint32, b"%u"), "u8": (ctypes.c_uint64, b"%lu"), "f4": (ctypes.c_double, b"%g"), "f8": (ctypes.c_double, b"%g"),
      "b1": (ctypes.c_int8, b"%d"), "c8": (ctypes.c_double, b"%g+%gI"), "c16": (ctypes.c_double, b"%g+%gI")}


def text(dt, raw, fmt=None):
    """an element (its bytes) as the format says it is printed."""
    k = dt.str[1:]
    if k == "S1":
        return raw.rstrip(b"\0")
    if k not in CT:
        return b"<<" + k.encode() + b">"
    if dt.str[0] == ">":
        w = len(raw) // (2 if dt.kind == "c" else 1)
        raw = b"".join(raw[i:i + w][::-1] for i in range(0, len(raw), w))
    t, f = CT[k]
    code = {"i4": "i", "i8": "q", "u4": "I", "u8": "Q", "f4": "f", "f8": "d", "b1": "b", "c8": "ff", "c16": "dd"}[k]
    v = struct.unpack("<" + code, raw)
    if k in ("f4", "c8"):
        # NaNs keep their sign
        v = tuple(math.copysign(math.nan, -1) if math.isnan(x) and raw[4 * i + 3] & 0x80 else math.nan if math.isnan(x) else x for i, x in enumerate(v))
    buf = ctypes.create_string_buffer(9000)
    libc.snprintf(buf, ctypes.c_size_t(9000), fmt or f, *[t(x) for x in v])
    return buf.value


def elements(arr):
    raw = np.ascontiguousarray(arr).tobytes()
    w = arr.dtype.itemsize
    return [raw[i:i + w] for i in range(0, len(raw), w)]


def rows_text(arr, fmt=None):
    nm = 1 if arr.ndim == 1 else arr.shape[1]
    e = [text(arr.dtype, x, fmt) for x in elements(arr)]
    return b"".join(b"".join(x + b" " for x in e[i:i + nm]) + b"\n" for i in range(0, len(e), nm))


def gen_fmt(r, dt):
    k = dt.str[1:]
    if dt.kind == "f":
        return r.choice(["%.17g", "%12.3e", "%a", "[%g]", "%+.0e", "%f", "%.400f", "%3000g"])
    if dt.kind == "c":
        return r.choice(["%.17g %.17g", "(%e,%e)", "%g%+gi", "%f %f", "%.200f,%300f"])
    l = "l" if k in ("i8", "u8") else ""
    if dt.kind == "i":
        return r.choice(["%%%sd", "%%24%sd", "%%-8%sd|", "%%+%sd", "%%700%sd"]) % l
    if dt.kind == "u":
        return r.choice(["%%%su", "%%020%su", "%%%sx", "%%%so", "%%0700%su"]) % l
    return None


def listing(root, long_, sub=""):
    """what bigfile-ls prints, from the directory tree."""
    out = b""
    d = os.path.join(root, sub) if sub else root
    for x in sorted(os.listdir(d), key=os.fsencode):
        if x.startswith("."):
            continue
        p = os.path.join(d, x)
        n = sub + "/" + x if sub else x
        if os.path.isdir(p):
            if os.path.exists(os.path.join(p, "header")):
                out += line(root, n, long_)
            out += listing(root, long_, n)
    return out


def line(root, n, long_):
    if not long_:
        return n.encode() + b"\n"
    b = read_block(os.path.join(root, n))
    k = [l for l in open(os.path.join(root, n, "header")) if l.startswith("DTYPE")][0].split()[1]
    return ("%-28s %s %d %12d %05d %d %s\n" % (n, k, b["nmemb"], sum(b["sizes"]), sysv(sum(b["sums"]) & 0xffffffff), len(b["sizes"]), root + "/" + n)).encode()


def attr_line(name, dt, n, raw, brief):
    w = dt.itemsize
    e = [text(dt, raw[i:i + w]) for i in range(0, n * w, w)]
    t = (b"" if dt.kind == "S" else b" ").join(e)
    k = dt.str
    k = ("<" if k[0] == "|" else k[0]) + k[1:]
    if brief:
        return t + b"\n"
    return ("%-20s %s %3d  " % (name, k, n)).encode() + b"[ " + t + b" ]\n"


def equal(c, got, want, tool, what):
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Fail("output:" + tool, "%s %s: %d bytes instead of %d, from byte %d on %r instead of %r" % (tool, what, len(got), len(want), i, got[max(0, i - 40):i + 60], want[max(0, i - 40):i + 60]))


# ------------------------------------------------------------------ C25
def c25(c):
    r = c.r
    if c.index % 25 == 7:
        return sparse(c)
    if r.random() < .25:
        return hostile(c)
    root, blocks = gen_file(c, steer=True, blank=True)
    for _ in range(r.randint(0, 2)):
        # things that are not blocks
        x = r.choice(["file.txt", ".hidden", "empty/dir", ".h/b"])
        p = os.path.join(root, x)
        if not os.path.exists(p):
            if x == ".h/b":
                write_block(p, np.arange(3), [3])
            elif "." in x:
                open(p, "w").write("text\n")
            else:
                os.makedirs(p)
    if r.random() < .3:
        # attributes of the whole file
        b = Block(np.zeros((0,), "<i8"), [], gen_attrs(r))
        q = os.path.join(c.dir, "q")
        write_block(q, b.arr, b.sizes, b.attrs)
        h = open(q + "/header").read().replace("NMEMB: 1", "NMEMB: 0")
        open(q + "/header", "w").write(h)
        for x in os.listdir(q):
            os.rename(os.path.join(q, x), os.path.join(root, x))
        os.rmdir(q)
        blocks["."] = b
    before = snapshot(root)
    names = list(blocks)
    total = sum(len(b.arr) for b in blocks.values())
    for _ in range(r.randint(4, 9)):
        k = r.random()
        if k < .5:
            n = r.choice(names)
            b = blocks[n]
            if n == ".":
                continue
            N = len(b.arr)
            opt, lo, cnt, fmt = [], 0, None, None
            if r.random() < .6:
                lo = r.choice([0, N, r.randint(0, N), r.randint(0, N), N + r.randint(1, 9), -r.randint(1, 9)])
                opt += ["-o", lo]
            if r.random() < .6:
                cnt = r.choice([0, 1, N, N + 5, -1, r.randint(0, N), r.randint(0, N), 1 << 40])
                opt += ["-c", cnt]
            if r.random() < .7:
                w = b.arr.dtype.itemsize * (1 if b.arr.ndim == 1 else b.arr.shape[1])
                opt += ["-B", r.choice([buffers(r, b), w * max(N, 1), w * (N + 1), w * (N // 2 + 1)])]
                c.st("small_buffers")
            binary = r.random() < .4
            if binary:
                opt += ["-b"]
            elif r.random() < .3:
                fmt = gen_fmt(r, b.arr.dtype)
                if fmt:
                    opt += ["-f", fmt]
                    c.st("formats")
            full = r.random() < .08
            if full:
                with open("/dev/full", "w") as f:
                    x = run(c, ["bigfile-cat"] + opt + [root, n], stdout=f)
            else:
                x = run(c, ["bigfile-cat"] + opt + [root, n])
            if lo < 0 or lo > N:
                check(x.rc != 0, "status:bigfile-cat", "offset %d of %d rows accepted", lo, N)
                if not full:
                    equal(c, x.out, b"", "bigfile-cat", "with an offset out of range")
                c.st("cat_refused")
                continue
            hi = N if cnt is None or cnt < 0 else min(N, lo + cnt)
            rows = b.arr[lo:hi]
            want = np.ascontiguousarray(rows).tobytes() if binary else rows_text(rows, fmt and fmt.encode())
            if full:
                check((x.rc != 0) == (len(want) > 0), "status:bigfile-cat", "status %d when %d bytes went to a full device", x.rc, len(want))
                c.st("full_device")
                continue
            check(x.rc == 0, "status:bigfile-cat", "failed with %d: %s", x.rc, x.err)
            equal(c, x.out, want, "bigfile-cat", "rows %d to %d of %s" % (lo, hi, n))
            c.st("cat_binary" if binary else "cat_text")
            c.st("cat_rows", hi - lo)
        elif k < .6:
            l = r.random() < .6
            x = run(c, ["bigfile-ls"] + ["-l"] * l + [root], expect=0)
            equal(c, x.out, listing(root, l), "bigfile-ls", "long" if l else "names")
            c.st("lists_long" if l else "lists")
        elif k < .72:
            n = r.choice(names)
            l = r.random() < .7
            x = run(c, ["bigfile-ls"] + ["-l"] * l + [root, n], expect=0)
            if n != ".":
                equal(c, x.out, line(root, n, l), "bigfile-ls", "of " + n)
            c.st("list_one")
        elif k < .9:
            n = r.choice(names)
            A = read_attrs(os.path.join(root, n))
            l = r.random() < .4
            if r.random() < .4 or not A:
                x = run(c, ["bigfile-get-attr"] + ["-l"] * l + [root, n], expect=0)
                want = b"".join(attr_line(k, *A[k], False) for k in sorted(A, key=os.fsencode))
                c.st("attr_lists")
                c.st("attrs_printed", len(A))
            else:
                q = [r.choice(sorted(A)) for _ in range(r.choice([1, 1, 2, 3]))]
                x = run(c, ["bigfile-get-attr"] + ["-l"] * l + [root, n] + q, expect=0)
                want = b"".join(attr_line(k, *A[k], len(q) == 1 and not l) for k in q)
                c.st("attr_brief" if len(q) == 1 and not l else "attr_some")
                c.st("attrs_printed", len(q))
            equal(c, x.out, want, "bigfile-get-attr", "of " + n)
        else:
            f, n = r.choice([(root + "no", names[0]), (root, names[0] + "no"), (root + "/" + names[0] + "/000000", "x")])
            t = r.choice([["bigfile-cat", f, n], ["bigfile-cat", "-b", f, n], ["bigfile-ls", f, n], ["bigfile-get-attr", f, n], ["bigfile-get-attr", f, n, "a"]])
            x = run(c, t, expect=1)
            equal(c, x.out, b"", t[0], "of what is missing")
            check(x.err.strip(), "message", "no message")
            c.st("missing")
            if r.random() < .2:
                run(c, ["bigfile-ls", root + "no"], expect=1)
                run(c, [r.choice(["bigfile-cat", "bigfile-ls", "bigfile-get-attr"])], expect=1)
    check(snapshot(root) == before, "modified", "a tool that prints changed the file")
    c.nontrivial = total > 0


def sparse(c):
    """blocks of more rows than fit in 32 bits; most of them are holes."""
    r = c.r
    root = os.path.join(c.dir, "F")
    p = os.path.join(root, r.choice(["x", "g/x", "y/z/w"]))
    os.makedirs(p)
    n = os.path.relpath(p, root)
    dt = np.dtype(r.choice(["u1", "i1", "b1", "S1"] if r.random() < .3 else ["i4", "u8", "f8", ">i8", "f4", ">u4"]))
    nm = r.choice([1, 1, 2, 3])
    row = dt.itemsize * nm
    big = r.choice([1 << 31, 1 << 32, 3 << 31]) + r.choice([0, 1, -1, r.randint(2, 1 << 30)])
    sizes = [big]
    for _ in range(r.randint(0, 3)):
        sizes.insert(r.randint(0, len(sizes)), r.choice([0, r.randint(1, 50), r.randint(1, 1 << 33)]))
    N = sum(sizes)
    sums = [r.choice([0, r.getrandbits(32), 0xffffffff]) for _ in sizes]
    with open(os.path.join(p, "header"), "w") as f:
        f.write("DTYPE: %s\nNMEMB: %d\nNFILE: %d\n" % (dt.str.replace("|", "<"), nm, len(sizes)))
        for i, s in enumerate(sizes):
            f.write("%06X: %d : %d : %d\n" % (i, s, sums[i], sysv(sums[i])))
    known = {}
    starts = [sum(sizes[:i]) for i in range(len(sizes) + 1)]
    marks = sorted({m for m in starts + [1 << 31, 1 << 32, 1 << 33, (1 << 31) // row, (1 << 32) // row, N // 2, r.randrange(N)] if m <= N})
    files = [open(os.path.join(p, "%06X" % i), "wb") for i in range(len(sizes))]
    for i, s in enumerate(sizes):
        files[i].truncate(s * row)
    for m in marks:
        for t in range(max(0, m - 3), min(N, m + 3)):
            if t not in known:
                known[t] = gen_values(r, dt, (1, nm)).tobytes()
                i = next(i for i in range(len(sizes)) if starts[i] <= t < starts[i + 1])
                files[i].seek((t - starts[i]) * row)
                files[i].write(known[t])
    for f in files:
        f.close()
    c.note("sparse %s %s x%d rows %r" % (n, dt.str, nm, sizes))
    hdr = open(os.path.join(p, "header"), "rb").read()
    x = run(c, ["bigfile-ls", "-l"] + r.choice([[root], [root, n]]), expect=0)
    want = "%-28s %s %d %12d %05d %d %s\n" % (n, dt.str.replace("|", "<"), nm, N, sysv(sum(sums) & 0xffffffff), len(sizes), root + "/" + n)
    equal(c, x.out, want.encode(), "bigfile-ls", "of more rows than 32 bits hold")
    for m in r.sample(marks, min(3, len(marks))) + [N]:
        lo = max(0, m - r.randint(0, 5))
        cnt = r.randint(0, 60)
        if lo + cnt >= N and r.random() < .5:
            o = r.choice([[], ["-c", -1], ["-c", 1 << 40], ["-c", N]])
        else:
            o = ["-c", cnt]
        hi = min(N, lo + cnt) if o[:1] == ["-c"] and o[1] == cnt else N
        if hi - lo > 1000:
            continue
        binary = r.random() < .5
        x = run(c, ["bigfile-cat", "-o", lo] + o + ["-b"] * binary + r.choice([[], ["-B", row * 7], ["-B", 1 << 20]]) + [root, n], expect=0)
        raw = b"".join(known.get(t, b"\0" * row) for t in range(lo, hi))
        a = np.frombuffer(raw, dt).reshape((hi - lo, nm) if nm > 1 else (hi - lo,))
        equal(c, x.out, raw if binary else rows_text(a), "bigfile-cat", "rows %d to %d of %s" % (lo, hi, n))
        c.st("sparse_cats")
    for lo in [N + 1, N + (1 << 32), (1 << 63) - 1]:
        if r.random() < .4:
            x = run(c, ["bigfile-cat", "-o", lo, root, n], expect=1)
            equal(c, x.out, b"", "bigfile-cat", "with an offset out of range")
    check(open(os.path.join(p, "header"), "rb").read() == hdr and [os.path.getsize(os.path.join(p, "%06X" % i)) for i in range(len(sizes))] == [s * row for s in sizes], "modified", "a tool that prints changed the file")
    c.nontrivial = True


def hostile(c):
    """damaged files: any status, but no crash, no hang, and no rows that are not there."""
    r = c.r
    root, blocks = gen_file(c, most=2)
    n = r.choice(sorted(blocks))
    b = blocks[n]
    p = os.path.join(root, n)
    kind = r.choice(["header", "attr", "data", "data", "missing", "header-gone", "header-dir"])
    c.note("damage " + kind)
    gone = 0
    if kind in ("header", "attr"):
        f = os.path.join(p, "header" if kind == "header" else "attr-v2")
        t = bytearray(open(f, "rb").read())
        for _ in range(r.randint(1, 4)):
            k = r.random()
            i = r.randint(0, len(t))
            if k < .3 and i < len(t):
                t[i] = r.choice(b"0123456789:-<>|=\n \tSifucab\0\xff%~")
            elif k < .6:
                t[i:i] = r.choice([b"-", b"9", b"99999999999999999999", b"%n", b"\n", b" ", b"\0", b"x" * 300, b"4294967296", b"2147483647"])
            elif k < .8:
                del t[i:i + r.choice([1, 2, 5, 30])]
            else:
                del t[i:]
        open(f, "wb").write(bytes(t))
        c.note(repr(bytes(t[:300])))
    elif kind in ("data", "missing"):
        w = [i for i, s in enumerate(b.sizes) if s]
        if not w:
            return
        i = r.choice(w)
        f = os.path.join(p, "%06X" % i)
        size = os.path.getsize(f)
        keep = 0 if kind == "missing" else r.randint(0, size - 1)
        if kind == "missing":
            os.unlink(f)
        else:
            os.truncate(f, keep)
        gone = 1
        row = b.arr.dtype.itemsize * (1 if b.arr.ndim == 1 else b.arr.shape[1])
        bad = sum(b.sizes[:i]) + keep // row, sum(b.sizes[:i + 1])
    elif kind == "header-gone":
        os.unlink(os.path.join(p, "header"))
    else:
        os.unlink(os.path.join(p, "header"))
        os.makedirs(os.path.join(p, "header"))
    for t in (["bigfile-ls", root], ["bigfile-ls", "-l", root], ["bigfile-ls", "-l", root, n], ["bigfile-get-attr", root, n], ["bigfile-get-attr", root, n, "a0"]):
        if r.random() < .7:
            run(c, t)
    if not gone:
        opt = ["-c", r.randint(0, 50)] if kind == "header" else []
        x = run(c, ["bigfile-cat"] + r.choice([[], ["-b"], ["-B", "160"]]) + opt + [root, n], expect=1 if kind.startswith("header-") else None)
        c.st("damaged")
    else:
        for _ in range(3):
            N = len(b.arr)
            lo = r.randint(0, N)
            cnt = r.randint(0, N - lo)
            x = run(c, ["bigfile-cat", "-b", "-o", lo, "-c", cnt] + r.choice([[], ["-B", buffers(r, b)]]) + [root, n])
            whole = np.ascontiguousarray(b.arr[lo:lo + cnt]).tobytes()
            if x.rc == 0:
                touched = kind != "missing" and max(lo, bad[0]) < min(lo + cnt, bad[1])
                if touched or kind == "missing" and max(lo, bad[0]) < min(lo + cnt, bad[1]):
                    # rows that are not there may only read as zeros
                    z = bytearray(np.ascontiguousarray(b.arr).tobytes())
                    o = sum(b.sizes[:i]) * row + keep
                    e = sum(b.sizes[:i + 1]) * row
                    z[o:e] = bytes(e - o)
                    whole = bytes(z[lo * row:(lo + cnt) * row])
                equal(c, x.out, whole, "bigfile-cat", "of a damaged block with status 0")
                c.st("damaged_read")
            else:
                # what was printed before the failure is right
                check(whole.startswith(x.out), "output:bigfile-cat", "rows printed before the failure are not the stored ones")
                check(max(lo, bad[0]) < min(lo + cnt, bad[1]) or kind == "missing" or cnt == 0, "status:bigfile-cat", "rows %d to %d do not touch the missing %r, but: %s", lo, lo + cnt, bad, x.err[-300:])
                c.st("damaged_refused")
    c.nontrivial = True


# ------------------------------------------------------------------ C26
def expect_block(path, arr, sizes, attrs, what, sums=True):
    check(os.path.exists(path + "/header"), "copy-missing", "%s: %s is not there", what, os.path.basename(path))
    b = read_block(path)
    nm = 1 if arr.ndim == 1 else arr.shape[1]
    check(b["dtype"] == arr.dtype and b["nmemb"] == nm, "copy-type", "%s: type %s x %d instead of %s x %d", what, b["dtype"], b["nmemb"], arr.dtype, nm)
    parts = sizes if sizes and isinstance(sizes[0], list) else [sizes]
    o = 0
    for p in parts:         # the files of each part exactly, or as evenly
        g = b["sizes"][o:o + len(p)]
        o += len(p)
        check(g == p or len(g) == len(p) and sum(g) == sum(p) and max(g) - min(g) <= 1 and max(p) - min(p) <= 1, "copy-sizes", "%s: sizes %r instead of %r", what, b["sizes"], sizes)
    check(len(b["sizes"]) == o, "copy-sizes", "%s: sizes %r instead of %r", what, b["sizes"], sizes)
    sizes = b["sizes"]
    raw = np.ascontiguousarray(arr).tobytes()
    w = nm * arr.dtype.itemsize
    o = 0
    for i, s in enumerate(sizes):
        d = raw[o:o + s * w]
        o += s * w
        check(b["data"][i] == d, "copy-rows", "%s: file %06X has %d bytes instead of %d, or other ones", what, i, len(b["data"][i]), len(d))
        if sums:
            check(b["sums"][i] == sum(d) & 0xffffffff, "copy-checksum", "%s: checksum %d of file %06X instead of %d", what, b["sums"][i], i, sum(d))
            check(b["sysv"][i] in (None, sysv(b["sums"][i])), "copy-checksum", "%s: sysv checksum %r of file %06X", what, b["sysv"][i], i)
    same_attrs(b["attrs"], attrs, what)
    return sizes


def same_attrs(got, attrs, what):
    want = {k: (v.dtype, v.size, v.tobytes()) for k, v in attrs.items()}
    for k in want:
        check(k in got, "copy-attrs", "%s: attribute %s is missing", what, k)
        g, w = got[k], want[k]
        check(g[0] == w[0] and g[1:] == w[1:], "copy-attrs", "%s: attribute %s is %r instead of %r", what, k, g, w)
    check(len(got) == len(want), "copy-attrs", "%s: attributes %r instead of %r", what, sorted(got), sorted(want))


def split(n, k):
    return [(i + 1) * n // k - i * n // k for i in range(k)]


def buffers(r, b):
    w = b.arr.dtype.itemsize * (1 if b.arr.ndim == 1 else b.arr.shape[1])
    # each piece costs the allocation of a large buffer under the sanitizer
    k = max(1, len(b.arr) // 40)
    return r.choice([0, 1, w - 1, w, w + 1, 2 * w, 5 * w + 1] if k == 1 else [k * w, (k + 1) * w - 1, (k + 5) * w]) if r.random() < .7 else r.choice([17 * w, 100 * w + 1, 1 << 20])


def copying(c, mpi):
    """one copy with random options; returns nothing."""
    r = c.r
    tool = "bigfile-copy-mpi" if mpi else "bigfile-copy"
    root, blocks = gen_file(c, most=2 if mpi else 3, rows=r.choice([None, None, 700, 2500]) if mpi else None)
    n = r.choice(sorted(blocks))
    b = blocks[n]
    for _ in range(1 if mpi else r.randint(1, 4)):
        N = len(b.arr)
        opt = []
        dst, dn = root, n + "-new%d" % r.randint(0, 5)
        if r.random() < .4:
            dst = os.path.join(c.dir, r.choice(["G", "H/I"]))
            opt += ["-f", dst]
            if r.random() < .5:
                dn = n
            c.st("other_file")
        if os.path.exists(os.path.join(dst, dn)):
            c.st("replacing")
            shutil.rmtree(os.path.join(dst, dn))
            if r.random() < .5:
                write_block(os.path.join(dst, dn), np.arange(5), [2, 3], dict(Old=np.arange(3)))
        elif r.random() < .15:
            # over an existing block of another shape
            write_block(os.path.join(dst, dn), np.arange(r.randint(0, 300)).astype("i4"), None or [0], dict(Old=np.arange(3)))
            c.st("replacing")
        nf = None
        if r.random() < .7:
            nf = r.choice([1, 2, 3, 5, 17, N + 3, max(1, N)])
            if r.random() < .12:
                nf = r.choice([0, -3])
            opt += [r.choice(["-n", "-N"]) if mpi else "-n", nf]
        if r.random() < .7:
            opt += ["-b" if mpi else "-B", buffers(r, b)]
            c.st("small_buffers")
        if r.random() < .1:
            opt += ["-v"]
        before = snapshot(os.path.join(root, n))
        argv = [tool] + opt + [root, n, dn]
        env = dict(VF_DELAY=str(r.randint(1, 10000))) if mpi and r.random() < .6 else None
        k = r.random()
        bad = nf is not None and (nf < 0 or nf == 0 and N) and len(b.sizes)
        nf = len(b.sizes) if nf is None or not b.sizes else nf
        sizes = split(N, nf) if nf > 0 else []
        biggest = max(sizes + [0]) * (b.arr.dtype.itemsize * (1 if b.arr.ndim == 1 else b.arr.shape[1]))
        if k < .1:
            # rows of the source are missing
            w = [i for i, s in enumerate(b.sizes) if s]
            if w:
                i = r.choice(w)
                f = os.path.join(root, n, "%06X" % i)
                if r.random() < .3:
                    os.unlink(f)
                else:
                    os.truncate(f, r.randint(0, os.path.getsize(f) - 1))
                x = run(c, argv, mpi=mpi, env=env)
                check(x.rc != 0 or reads_zero(os.path.join(dst, dn), b, i), "status:" + tool, "status 0 although rows of the source were missing")
                c.st("source_damaged")
                return
        if k < (.5 if mpi else .3) and biggest > 1100 and not bad:
            one = mpi and r.random() < .4
            if one:
                env = dict(env or {}, VF_FSIZE_RANK=str(r.randint(1, max(1, mpi - 1))))
            x = run(c, argv, mpi=mpi, env=env, fsize=1, expect=None if one else 1)
            check(snapshot(os.path.join(root, n)) == before, "source-changed", "the source changed")
            if x.rc == 0:
                expect_block(os.path.join(dst, dn), b.arr, sizes, b.attrs, tool + " with a rank that can not write")
                c.st("one_rank_limited")
            else:
                check(x.err.strip(), "message", "no message")
                c.st("mpi_write_failed" if mpi else "write_failed")
            continue
        if k > .96:
            f = r.choice([[tool] + opt + [root + "no", n, dn], [tool] + opt + [root, n + "no", dn], [tool] + opt + [root, n], [tool, "-f", root + "/" + n + "/header", root, n, dn]])
            run(c, f, mpi=mpi, env=env, expect=1)
            c.st("refused")
            continue
        if mpi == 1:
            run(c, argv, mpi=1, expect=1)
            c.st("refused_one_rank")
            continue
        x = run(c, argv, mpi=mpi, env=env, expect=1 if bad else 0)
        check(snapshot(os.path.join(root, n)) == before, "source-changed", "the source changed")
        if bad:
            c.st("refused")
            continue
        expect_block(os.path.join(dst, dn), b.arr, sizes, b.attrs, tool)
        c.st("mpi_copies" if mpi else "copies")
        c.st("copied_rows", N)
        if sizes != b.sizes:
            c.st("restriped")
        c.nontrivial = c.nontrivial or N > 1


def reads_zero(path, b, i):
    """the copy has the rows of b, zeros for what was missing in file i."""
    try:
        x = read_block(path)
    except Exception:
        return False
    raw = b"".join(x["data"])
    w = b.arr.dtype.itemsize * (1 if b.arr.ndim == 1 else b.arr.shape[1])
    full = np.ascontiguousarray(b.arr).tobytes()
    lo, hi = sum(b.sizes[:i]) * w, sum(b.sizes[:i + 1]) * w
    return len(raw) == len(full) and raw[:lo] == full[:lo] and raw[hi:] == full[hi:] and all(raw[j] in (0, full[j]) for j in range(lo, hi))


def creating(c):
    r = c.r
    root = os.path.join(c.dir, "N")
    made = {}
    for _ in range(r.randint(1, 4)):
        b = gen_block(r, sizes=[])
        n = blockname(r)
        nm = 1 if b.arr.ndim == 1 else b.arr.shape[1]
        w = nm * b.arr.dtype.itemsize
        opt = []
        if nm > 1 or r.random() < .5:
            opt += ["-n", nm]
        if r.random() < .7:
            opt += ["-B", buffers(r, b)]
            c.st("small_buffers")
        dts = b.arr.dtype.str
        if dts[0] in "<|" and r.random() < .3:
            dts = dts[1:]
        k = r.random()
        raw = np.ascontiguousarray(b.arr).tobytes()
        if k < .1:
            x = r.choice([["-n", 0], ["-n", -2]])
            run(c, ["bigfile-create"] + x + [root, n, dts], stdin=raw, expect=1)
            c.st("refused")
            continue
        if k < .2:
            run(c, ["bigfile-create"] + opt + [root, r.choice([n, n + "/a b"]), r.choice(["i0", "q8", "", "i99", "<"])], stdin=raw, expect=1)
            c.st("refused")
            continue
        if k < .4 and len(raw) > 1100:
            run(c, ["bigfile-create"] + opt + [root, n, dts], stdin=raw, fsize=1, expect=1)
            made.pop(n, None)
            c.st("write_failed")
            continue
        if any(m != n and (m.startswith(n + "/") or n.startswith(m + "/")) for m in made):
            continue
        run(c, ["bigfile-create"] + opt + [root, n, dts], stdin=raw, expect=0)
        made[n] = b
        if len(b.arr):
            c.nontrivial = True
        for m, q in made.items():
            expect_block(os.path.join(root, m), q.arr, [len(q.arr)], {}, "bigfile-create")
        c.st("created")
        c.st("created_rows", len(b.arr))


def setting(c):
    r = c.r
    root, blocks = gen_file(c, most=2)
    n = r.choice(sorted(blocks))
    A = {k: v for k, v in blocks[n].attrs.items()}
    rest = {k: v for k, v in snapshot(root).items() if k != n + "/attr-v2"}
    for _ in range(r.randint(2, 7)):
        name = r.choice(sorted(A) + ["New%d" % r.randint(0, 3)])
        dt = gen_dtype(r, ["i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16"])
        opt = []
        kind = r.random()
        old = A.get(name)
        force = r.random() < .25
        if force:
            opt += ["-f"]
            old = None
        if kind < .3:
            # a string
            s = "".join(r.choice("abc XYZ-09,.") for _ in range(r.randint(0, 20)))
            sd = r.choice(["S1", "|S1", "<S1", "S"]) if r.random() < .9 else "S1"
            if sd == "S":
                sd = "S1"
            if r.random() < .6 or old is None:
                opt += ["-t", sd]
                want_kind = "S"
                w = 1
            else:
                want_kind = old.dtype.kind
                w = old.dtype.itemsize
            nm = len(s.encode()) + 1
            ok = want_kind == "S"
            if r.random() < .3:
                q = r.choice([nm, nm, nm + 1, max(1, nm - 1)])
                opt += ["-n", q]
                ok = ok and q == nm
            elif old is not None and old.size:
                ok = ok and old.size == nm
            if want_kind != "S" or w != 1:
                continue
            x = run(c, ["bigfile-set-attr"] + opt + ["--", root, n, name, s], expect=0 if ok else 1)
            new = np.frombuffer(s.encode() + b"\0", "S1")
        else:
            k = r.choice([1, 1, 2, 3, 9])
            typed = old is None or r.random() < .5
            if not typed:
                dt = old.dtype
                if dt.kind not in "iufc" or dt.itemsize < 4:
                    x = run(c, ["bigfile-set-attr"] + opt + [root, n, name] + ["1"] * (old.size), expect=None)
                    if dt.kind != "S":
                        check(x.rc != 0, "status:bigfile-set-attr", "values of type %s were accepted", dt)
                    if x.rc == 0:
                        A[name] = np.frombuffer(read_attrs(os.path.join(root, n))[name][2], "S%d" % dt.itemsize)
                    continue
                if old.size and r.random() < .7:
                    k = old.size
            else:
                opt += ["-t", dt.str if r.random() < .6 or dt.str[0] == ">" else dt.str[1:]]
            vals, texts = [], []
            for _ in range(k):
                v, t = gen_text(r, dt)
                vals.append(v)
                texts.append(t)
            ok = True
            if old is not None and old.size:
                ok = k == old.size
            if r.random() < .3:
                q = r.choice([k, k, k + 1, max(1, k - 1)])
                opt += ["-n", q]
                ok = q == k
            if r.random() < .06:
                texts[r.randrange(k)] = r.choice(["", "abc", "-", "x1"])
                ok = False
            if any(t.startswith("-") for t in texts):
                # getopt: values that look like options
                argv = ["bigfile-set-attr"] + opt + ["--", root, n, name] + texts
            else:
                argv = ["bigfile-set-attr"] + opt + [root, n, name] + texts
            x = run(c, argv, expect=0 if ok else 1)
            new = np.array(vals, dtype=dt.newbyteorder("<")).astype(dt)
        if ok:
            A[name] = new
            c.st("attrs_set")
            if old is not None:
                c.st("attrs_changed")
        else:
            c.st("set_refused")
        got = read_attrs(os.path.join(root, n))
        if not ok and force:
            got.pop(name, None)
            same_attrs(got, {k: v for k, v in A.items() if k != name}, "bigfile-set-attr")
            if name in A and name not in read_attrs(os.path.join(root, n)):
                A.pop(name)
            continue
        same_attrs(got, A, "bigfile-set-attr")
        k = r.random()
        if k < .1:
            run(c, ["bigfile-set-attr", root, n, "Undefined", "1"], expect=1)
            run(c, ["bigfile-set-attr", "-t", "i8", r.choice([root + "no", root]), n + "no", "a", "1"], expect=1)
            c.st("set_refused")
        elif k < .2 and os.path.exists(root + "/" + n + "/attr-v2"):
            # the attributes can not be stored
            run(c, ["bigfile-set-attr", "-t", "S1", root, n, "Long", "x" * 1500], fsize=1, expect=1)
            return
    check({k: v for k, v in snapshot(root).items() if k != n + "/attr-v2"} == rest, "modified", "bigfile-set-attr changed something else")
    c.nontrivial = True


def gen_text(r, dt):
    """a value and an argument that names it exactly."""
    k = dt.str[1:]
    if dt.kind == "u":
        v = r.choice([0, 1, (1 << 8 * dt.itemsize) - 1, r.getrandbits(8 * dt.itemsize), r.randint(0, 1000)])
        return v, str(v)
    if dt.kind == "i":
        b = 8 * dt.itemsize - 1
        v = r.choice([0, 1, -1, (1 << b) - 1, -(1 << b), r.getrandbits(b), -r.getrandbits(b)])
        return v, str(v)
    t = np.float32 if k in ("f4", "c8") else np.float64

    def one():
        v = t(r.choice([0, 1, -1.5, 0.25, r.uniform(-1e9, 1e9), r.uniform(-1, 1), r.uniform(1, 9) * 10.0 ** r.randint(-30, 30)]))
        return v, ("%.9g" if t is np.float32 else "%.17g") % float(v)
    if dt.kind == "f":
        return one()
    a, b = one(), one()
    return complex(float(a[0]), float(b[0])), "%s + %s I" % (a[1], b[1])


def scripts(c):
    """bigfile-check and bigfile-repartition."""
    r = c.r
    root, blocks = gen_file(c, most=3, blank=True, nest=.4)       # blocks can not be created where the path has blanks
    names = sorted(blocks)
    nested = any(a != b and (b.startswith(a + "/")) for a in names for b in names)
    run(c, ["bigfile-check"] + ["-v"] * (r.random() < .2) + [root], expect=0)
    c.st("accepted")
    q = [r.choice(names) for _ in range(r.randint(1, 3))]
    run(c, ["bigfile-check", root] + q, expect=0)
    if r.random() < .6 and " " not in root:
        sel = sorted(set(q)) if r.random() < .7 else []
        nf = r.choice([1, 2, 3, 8])
        argv = ["bigfile-repartition", root, nf] + sel
        run(c, argv, expect=0)
        for n in names:
            b = blocks[n]
            sizes = split(len(b.arr), nf) if (n in sel or not sel) and b.sizes else b.sizes
            b.sizes = expect_block(os.path.join(root, n), b.arr, sizes, b.attrs, "bigfile-repartition")
            check(not os.path.exists(os.path.join(root, n + "-REPBAK")), "repartition-rest", "the previous block is still there")
            c.st("repartitioned")
            if nested:
                c.st("repartitioned_nested")
        run(c, ["bigfile-check", root], expect=0)
    # a change of the byte sum of one file
    w = [n for n in names if blocks[n].arr.nbytes]
    if w:
        n = r.choice(w)
        b = blocks[n]
        i = r.choice([i for i, s in enumerate(b.sizes) if s])
        f = os.path.join(root, n, "%06X" % i)
        d = bytearray(open(f, "rb").read())
        j = r.choice([0, len(d) - 1, r.randrange(len(d))])
        d[j] = (d[j] + r.randint(1, 255)) % 256
        open(f, "wb").write(bytes(d))
        c.note("byte %d of %s/%06X" % (j, n, i))
        x = run(c, ["bigfile-check", root] + r.choice([[], [n], q + [n], [n] + q]), expect=1)
        c.st("reported")
        o = [m for m in names if m != n]
        if o:
            run(c, ["bigfile-check", root, r.choice(o)], expect=0)
        c.nontrivial = True
    elif r.random() < .5:
        run(c, ["bigfile-check", root, names[0] + "no"], expect=1)
        c.st("reported_missing")


def c26(c):
    k = c.r.random()
    if k < .4:
        copying(c, 0)
    elif k < .6:
        creating(c)
    elif k < .85:
        setting(c)
    else:
        scripts(c)


def c26m(c):
    copying(c, c.r.choice([1, 2, 2, 3, 3, 4, 5]) if c.r.random() < .3 else c.r.choice([2, 3, 4]))


# ------------------------------------------------------------------ C31
NOBODY = 65534
STANDIN = """#!/bin/bash
# acts inside the case's directory only: anything else is written down and refused
for a in "$@"; do
    case "$a" in -*) continue ;; esac
    p=$(/usr/bin/realpath -m -- "$a")
    case "$p" in "$VF_ROOT"/*) ;; *) echo "$0 $*" >> "$VF_ROOT/escaped"; exit 99 ;; esac
done
exec /bin/${0##*/} "$@"
"""


def stand_ins(c):
    os.makedirs(os.path.join(c.dir, "bin"), exist_ok=True)
    for x in ("rm", "mv"):
        f = os.path.join(c.dir, "bin", x)
        open(f, "w").write(STANDIN)
        os.chmod(f, 0o755)


def as_nobody(c):
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def script(c, name, *args, cwd=None):
    """bigfile-rename or bigfile-rm, as an unprivileged user, with rm and mv confined to the case's directory."""
    c.note("%s %s" % (name, " ".join(repr(a.replace(c.dir, "D")) for a in args)))
    env = dict(os.environ, PATH=os.path.join(c.dir, "bin") + ":" + os.environ["PATH"], VF_ROOT=os.path.join(c.dir, "t"))
    p = subprocess.run([os.path.join(c.args["--tools"], name), *args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd or os.path.join(c.dir, "t"),
                       preexec_fn=lambda: as_nobody(c), timeout=300)
    c.st("run_" + name.replace("bigfile-", ""))
    e = os.path.join(c.dir, "t", "escaped")
    if os.path.exists(e):
        raise Fail("escaped", "%s acted on something else: %s" % (name, open(e).read()))
    return p


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            out[os.path.relpath(os.path.join(d, x), root)] = open(os.path.join(d, x), "rb").read()
    return out


ODD = ["n%d", "new-%d", "x*%d", "[ab]%d", "$HOME%d", "~%d", "#%d", "q'%d", 'd"%d', "b\\%d", "\u00e9%d", "-f%d", "--%d", "a;b%d", "(%d)", "?%d", "&%d"]


def c31(c):
    r = c.r
    top = os.path.join(c.dir, "t")
    stand_ins(c)
    # the file, and neighbours which a path split at a blank, or expanded, would name
    root = os.path.join(top, r.choice(["F", "F", "F g", "-F", "F*", "F  x"]))
    os.makedirs(root)
    blocks = {}

    def add(where, n):
        b = gen_block(r, rows=r.choice([0, 1, 3, 20]))
        if put(where, n, b):
            return b
    names = ["a", "b", "ab", "g/a", "g/b", "g/h/c", "a/in", "*", "x y"[:1], "n1", "-f", "g/-r"]
    for n in r.sample(names, r.randint(2, 8)):
        b = add(root, n)
        if b is not None:
            blocks[n] = b
    for x in ("F", "g", "x", "Fa"):
        if os.path.join(top, x) != root and r.random() < .7:
            for n in r.sample(["a", "b", "g/a", "*"], 2):
                add(os.path.join(top, x), n)
    os.makedirs(root + "/empty", exist_ok=True)
    for d, ds, fs in os.walk(top):
        os.chown(d, NOBODY, NOBODY)
        for f in fs:
            os.chown(os.path.join(d, f), NOBODY, NOBODY)
    rel = os.path.relpath(root, top)
    model = tree(top)
    c.note("%s: %s" % (rel, " ".join(sorted(blocks))))

    def sub(n):
        k = rel + "/" + n
        return [x for x in model if x == k or x.startswith(k + "/")]

    def compare(what):
        now = tree(top)
        if now != model:
            gone = sorted(set(model) - set(now))[:5]
            more = sorted(set(now) - set(model))[:5]
            diff = [k for k in now if k in model and now[k] != model[k]][:5]
            raise Fail("tree", "after %s: missing %r, not expected %r, changed %r" % (what, gone, more, diff))
    for _ in range(r.randint(3, 7)):
        have = sorted(blocks)
        if not have:
            break
        k = r.random()
        path = root if r.random() < .8 or rel.startswith("-") else rel        # relative to the working directory
        if k < .4:
            n = r.choice(have)
            new = r.choice(ODD) % r.randint(0, 99)
            groups = ["g/", "g/h/", "empty/", "", ""]
            g = r.choice(groups)
            new = g + new
            there = rel + "/" + new in model
            parent = os.path.dirname(rel + "/" + new)
            ok = not there and parent in model and not (new + "/").startswith(n + "/")
            p = script(c, "bigfile-rename", path, n, new)
            if ok:
                check(p.returncode == 0, "status:bigfile-rename", "renaming %r to %r failed with %d: %s", n, new, p.returncode, p.stderr.decode(errors="replace"))
                for x in sub(n):
                    model[rel + "/" + new + x[len(rel + "/" + n):]] = model.pop(x)
                for m in have:
                    if m == n or m.startswith(n + "/"):
                        blocks[new + m[len(n):]] = blocks.pop(m)
                c.st("renamed")
            elif not there and p.returncode == 0:
                raise Fail("status:bigfile-rename", "renaming %r to %r gave status 0" % (n, new))
            else:
                check(p.returncode != 0, "status:bigfile-rename", "renaming %r over %r gave status 0", n, new)
                c.st("rename_refused")
            compare("renaming %r to %r (%s)" % (n, new, "possible" if ok else "not possible"))
        elif k < .58:
            # onto something that is there, of something that is not, or with other numbers of names
            n = r.choice(have)
            m = r.choice(have + ["empty", "g"])
            if rel + "/" + m not in model:
                m = n
            q = r.choice([(path, n, m), (path, n, m), (path, n, m), (path, n + "no", "new"), (path + "no", n, "new"), (path, n), (path,), (path, n, ""), (path, "", "new"), (path, n, "nogroup/new")])
            p = script(c, "bigfile-rename", *q)
            check(p.returncode != 0, "status:bigfile-rename", "%r gave status 0", q[1:])
            check(p.stderr.strip(), "message", "bigfile-rename %r says nothing", q[1:])
            compare("bigfile-rename %r" % (q[1:],))
            c.st("rename_refused")
        elif k < .85:
            q = r.sample(have, min(len(have), r.choice([1, 1, 1, 2, 3])))
            q = [n for n in q if not any(n != m and n.startswith(m + "/") for m in q)]      # those inside another are gone already
            bad = r.random() < .3
            full = list(q)
            if bad:
                full.insert(r.randint(0, len(q)), r.choice(["missing", "a/missing", "", "no such"]))
            p = script(c, "bigfile-rm", path, *full)
            check((p.returncode != 0) == bad, "status:bigfile-rm", "removing %r gave status %d: %s", full, p.returncode, p.stderr.decode(errors="replace"))
            for n in q:
                for x in sub(n):
                    model.pop(x)
                for m in list(blocks):
                    if m == n or m.startswith(n + "/"):
                        blocks.pop(m)
            compare("bigfile-rm %r" % (full,))
            c.st("rm_partly" if bad else "removed")
        elif k < .93:
            # nothing to remove
            q = r.choice([(path,), (path, ""), (path, "."), (path, "missing"), (path + "no", have[0]), (path, "*x*"), (path, "", "")])
            p = script(c, "bigfile-rm", *q)
            if len(q) > 1:
                check(p.returncode != 0, "status:bigfile-rm", "%r gave status 0", q[1:])
            compare("bigfile-rm %r" % (q[1:],))
            c.st("rm_nothing")
        else:
            # not permitted
            n = r.choice(have)
            d = os.path.dirname(os.path.join(root, n))
            os.chmod(d, 0o555)
            p = script(c, "bigfile-rename", path, n, n + "-x")
            os.chmod(d, 0o755)
            check(p.returncode != 0, "status:bigfile-rename", "renaming %r in a directory that can not be written gave status 0", n)
            compare("renaming %r in a directory that can not be written" % n)
            c.st("denied")
    # the tools find what is left, and only that
    x = run(c, ["bigfile-ls", root], expect=0)
    want = listing(root, False)
    equal(c, x.out, want, "bigfile-ls", "after renaming and removing")
    check(sorted(want.decode().split("\n")[:-1]) == sorted(blocks), "blocks", "blocks %r instead of %r", want, sorted(blocks))
    for n in sorted(blocks)[:2]:
        if not n.startswith("-"):
            x = run(c, ["bigfile-cat", "-b", root, n], expect=0)
            equal(c, x.out, np.ascontiguousarray(blocks[n].arr).tobytes(), "bigfile-cat", "of " + n)
    c.nontrivial = True


# ------------------------------------------------------------------ C32
def c32(c):
    r = c.r
    top = os.path.join(c.dir, "t")
    os.makedirs(top)
    root = os.path.join(top, r.choice(["F", "F", "sub/F", "L" * 200 + "/" + "M" * 200, "it's", "a;b&c", "[F]*?", "-F"]))
    path = os.path.join(root, "TestBlock")
    tool = "bigfile-iosim"
    model = None            # rows, members, sizes

    def sim(mode, *opt, ranks=None, **kw):
        opt = list(opt)
        if r.random() < .5:
            opt += ["-A"]
        n = r.choice([1, 2, 3, 3, 4, 5])
        w = 0
        if r.random() < .6:
            w = r.choice([0, 1, 2, n, n + 1])
            opt += ["-n", w]
        n = ranks or n
        env = dict(VF_DELAY=str(r.randint(1, 9999))) if r.random() < .3 else {}
        x = run(c, [tool] + opt + [mode, root], mpi=n, env=dict(env, **kw.pop("env", {})), **kw)
        c.st("iosim_" + mode)
        return x, (n if w > n or w == 0 else w)

    def verify(what):
        n, nm, sizes = model
        a = np.repeat(np.arange(n, dtype="i8"), nm).reshape(n, nm)
        sizes = expect_block(path, a[:, 0] if nm == 1 else a, sizes, {}, what)
        c.st("rows_compared", n * nm)
        return n, nm, sizes

    def quiet(x):
        return {k: v for k, v in snapshot(root).items() if not k.endswith("-timelog")}
    for step in range(r.randint(2, 5)):
        k = r.random()
        if model is None or k < .15:
            n, nm = r.choice([0, 1, 2, 7, 100, 1024, r.randint(0, 3000)]), r.choice([1, 1, 2, 3, 8])
            opt = ["-s", n]
            if nm > 1 or r.random() < .5:
                opt += ["-w", nm]
            nf = 0
            if r.random() < .7:
                nf = r.choice([1, 2, 3, 7, 20])
                opt += ["-f", nf]
            q = r.random()
            if q < .12 and max(split(n, nf or 5)) * nm * 8 > 1100 + 8 * nm:
                sim("create", *opt, fsize=1, expect=1)
                model = None
                shutil.rmtree(root, ignore_errors=True)
                c.st("write_failed")
                continue
            x, wr = sim("create", *opt, expect=0)
            model = n, nm, split(n, nf or wr)
            model = verify("create")
            c.nontrivial = c.nontrivial or n > 1
        elif k < .35:
            n, nm, sizes = model
            # other values are replaced
            w = [i for i, s in enumerate(sizes) if s]
            if w:
                i = r.choice(w)
                f = os.path.join(path, "%06X" % i)
                d = bytearray(open(f, "rb").read())
                d[:] = bytes(len(d))
                open(f, "wb").write(bytes(d))
                h = os.path.join(path, "header")
                t = open(h).read().split("\n")
                t = [("%06X: %d : 0 : 0" % (i, sizes[i])) if l.startswith("%06X:" % i) else l for l in t]
                open(h, "w").write("\n".join(t))
            x, wr = sim("update", "-f", r.choice([1, 4]), expect=0)
            a = np.repeat(np.arange(n, dtype="i8"), nm).reshape(n, nm)
            # checksums count what is written over what was there before
            expect_block(path, a[:, 0] if nm == 1 else a, sizes, {}, "update", sums=False)
            # leave a block with the checksums of its bytes
            b = read_block(path)
            t = "DTYPE: %s\nNMEMB: %d\nNFILE: %d\n" % ("<i8", nm, len(sizes)) + "".join("%06X: %d : %u : %u\n" % (i, s, sum(b["data"][i]), sysv(sum(b["data"][i]))) for i, s in enumerate(sizes))
            open(os.path.join(path, "header"), "w").write(t)
            c.st("updated")
        elif k < .5:
            n, nm, sizes = model
            g = r.choice([0, 1, 5, 64, r.randint(0, 1000)])
            nf = r.choice([1, 2, 5])
            sim("grow", "-s", g, "-f", nf, expect=0)
            model = n + g, nm, [sizes, split(g, nf)]
            model = verify("grow")
            c.st("grown")
        elif k < .55:
            # removes the block afterwards, and only this
            os.makedirs(path + "2/TestBlock")
            open(path + "2/TestBlock/header", "w").write("x")
            before = {q: v for q, v in quiet(0).items() if not q.startswith("TestBlock/") and q != "TestBlock"}
            stand_ins(c)
            sim("read", "-p", expect=0, env=dict(PATH=os.path.join(c.dir, "bin") + ":" + os.environ["PATH"], VF_ROOT=top))
            check(not os.path.exists(top + "/escaped"), "escaped", "removal of something else")
            check(quiet(0) == before, "purge", "after -p there are %s, not %s", sorted(quiet(0)), sorted(before))
            shutil.rmtree(path + "2")
            model = None
            c.st("purged")
        elif k < .7:
            before = quiet(0)
            sim("read", expect=0)
            check(quiet(0) == before, "modified", "reading changed the block")
            c.st("accepted")
        elif k < .88:
            n, nm, sizes = model
            w = [i for i, s in enumerate(sizes) if s]
            if not w:
                continue
            i = r.choice(w)
            f = os.path.join(path, "%06X" % i)
            keep = open(f, "rb").read()
            d = bytearray(keep)
            q = r.random()
            if q < .7:
                j = r.choice([0, len(d) - 1, r.randrange(len(d))])
                d[j] = (d[j] + r.randint(1, 255)) % 256
                open(f, "wb").write(bytes(d))
                c.note("byte %d of %06X" % (j, i))
            elif q < .85:
                os.unlink(f)
            else:
                os.truncate(f, r.randrange(len(d)))
            x, _ = sim("read", expect=1, aborts=True)       # it ends itself
            open(f, "wb").write(keep)
            c.st("corruption_reported")
        elif k < .95:
            before = quiet(0)
            q = r.choice(["mode", "none", "nofile", "missing", "option", "header"])
            if q == "missing":
                run(c, [tool, "-s", 5, r.choice(["read", "update", "grow"]), root + "no"], mpi=2, expect=1)
            elif q == "header":
                os.rename(path + "/header", path + "/h")
                run(c, [tool, r.choice(["read", "update", "grow"]), root], mpi=r.choice([1, 2, 3]), expect=1)
                os.rename(path + "/h", path + "/header")
            else:
                run(c, [tool] + {"mode": ["destroy", root], "none": [], "nofile": ["create"], "option": ["-s", "many", "create", root]}[q], mpi=2, expect=1)
            check(quiet(0) == before, "modified", "a refused call changed something")
            c.st("refused")
        else:
            run(c, [tool, "-h"], mpi=2, expect=0)
            c.st("helped")


# ------------------------------------------------------------------ C27
CHUNK = 1 << 20


def sample(c, root, n, dn, ratio, b, ranks, nf=None, dst=None):
    r = c.r
    opt = []
    if ratio is not None:
        opt += ["-r", repr(ratio)]
    if nf is not None:
        opt += [r.choice(["-n", "-N"]), nf]
    if dst:
        opt += ["-f", dst]
    before = snapshot(os.path.join(root, n))
    env = dict(VF_DELAY=str(r.randint(1, 10000))) if r.random() < .7 else None
    run(c, ["bigfile-sample-mpi"] + opt + [root, n, dn], mpi=ranks, env=env, expect=0)
    check(snapshot(os.path.join(root, n)) == before, "source-changed", "the source changed")
    what = "bigfile-sample-mpi"
    p = os.path.join(dst or root, dn)
    check(os.path.exists(p + "/header"), "sample-missing", "%s is not there", dn)
    x = read_block(p)
    nm = 1 if b.arr.ndim == 1 else b.arr.shape[1]
    check(x["dtype"] == b.arr.dtype and x["nmemb"] == nm, "sample-type", "type %s x %d instead of %s x %d", x["dtype"], x["nmemb"], b.arr.dtype, nm)
    same_attrs(x["attrs"], b.attrs, what)
    w = nm * b.arr.dtype.itemsize
    for i, s in enumerate(x["sizes"]):
        check(len(x["data"][i]) == s * w, "sample-size", "file %06X: %d rows announced, %d bytes of %d written", i, s, len(x["data"][i]), s * w)
        check(x["sums"][i] == int(np.frombuffer(x["data"][i], "u1").sum(dtype="u8")) & 0xffffffff, "sample-checksum", "checksum of file %06X", i)
    check(len(x["sizes"]) == (len(b.sizes) if nf is None or not b.sizes else nf), "sample-files", "%d files", len(x["sizes"]))
    y = rows_of(x).reshape(-1, nm)
    # rows carry their number in the first member
    k = index_of(y, b.arr.dtype)
    check(bool(np.all(np.diff(k.astype("i8")) > 0)), "sample-order", "rows %r... are not in order, or repeated", [int(v) for v in k[:20]])
    check(len(k) == 0 or 0 <= int(k[0]) and int(k[-1]) < len(b.arr), "sample-rows", "a row that is not of the source")
    src = np.ascontiguousarray(b.arr).reshape(-1, nm)
    check(np.ascontiguousarray(src[k]).tobytes() == np.ascontiguousarray(y).tobytes(), "sample-rows", "a row that is not of the source")
    if ratio is None or ratio == 1.0:
        check(len(k) == len(b.arr), "sample-all", "%d of %d rows with ratio 1", len(k), len(b.arr))
    return k


def index_of(y, dt):
    v = y[:, 0]
    if dt.kind == "S":
        return np.array([int(q) for q in v] or [], dtype="i8")
    return np.asarray(v.real if dt.kind == "c" else v).astype("i8")


def numbered(r, rows, big, sizes=None):
    """a block whose rows carry their number in the first member."""
    dt = np.dtype(r.choice(["<i4", "<u4", ">i4"] if big else ["<i4", ">i4", "<i8", "<f8", ">f8", "<c16", "<u8", "S9"]))
    nm = 1 if big and r.random() < .7 else r.choice([1, 2, 3])
    a = np.zeros((rows, nm), dt)
    if dt.kind == "S":
        a[:, 0] = np.array([b"%d" % i for i in range(rows)] or [], "S9")
    else:
        a[:, 0] = np.arange(rows)
    for j in range(1, nm):
        if dt.kind == "S":
            a[:, j] = a[:, 0]
        else:
            a[:, j] = (np.arange(rows, dtype="i8") * 7919 + j) % 30011
    a = a[:, 0].copy() if nm == 1 else a
    return Block(a, gen_sizes(r, rows) if sizes is None else sizes, gen_attrs(r))


def c27(c):
    r = c.r
    root = os.path.join(c.dir, "F")
    os.makedirs(root)
    big = r.random() < .3
    rows = r.choice([CHUNK, CHUNK + 1, CHUNK - 1, 2 * CHUNK, 2 * CHUNK + r.randint(1, 99999), 3 * CHUNK + r.randint(-99999, 99999), CHUNK + r.randint(0, CHUNK)]) if big else r.choice([0, 1, 2, 10, 100, 999, 4000])
    b = numbered(r, rows, big)
    put(root, "src", b)
    ratio = r.choice([None, 1.0, .5, .1, .01, .9, .99, round(r.random(), 4), 0.0])
    c.note("%d rows of %s in %r, ratio %r" % (rows, b.arr.dtype.str, b.sizes, ratio))
    if not big and r.random() < .12:
        f = r.choice([["-n", -2, root, "src", "x"], [root, "no", "x"], [root + "no", "src", "x"], [root, "src"]] + ([["-n", 0, root, "src", "x"]] if rows else []))
        run(c, ["bigfile-sample-mpi"] + f, mpi=r.choice([2, 3]), expect=1)
        c.st("refused")
        return
    if not big and r.random() < .06:
        run(c, ["bigfile-sample-mpi", root, "src", "x"], mpi=1, expect=1)
        c.st("refused")
        return
    ref = sample(c, root, "src", "s0", ratio, b, r.choice([2, 3, 4]))
    c.st("samples")
    c.st("sampled_rows", len(ref))
    if big:
        c.st("several_chunks", int(rows > CHUNK))
    if ratio not in (None, 1.0) and rows >= 100:
        # the size is drawn from a distribution of mean ratio * rows
        m = ratio * rows
        check(abs(len(ref) - min(m, rows)) < 12 * math.sqrt(m + 1) + 12, "sample-ratio", "%d rows of %d with ratio %r", len(ref), rows, ratio)
    # the same, otherwise
    k = sample(c, root, "src", "s1", ratio, b, r.choice([2, 3, 4, 5]), nf=r.choice([1, 2, 5, 13]), dst=r.choice([None, os.path.join(c.dir, "O")]))
    check(np.array_equal(k, ref), "sample-differs", "with other ranks and files: %d rows instead of %d, or other rows", len(k), len(ref))
    c.st("repeated")
    # another block of the same length
    b2 = numbered(r, rows, big)
    put(root, "src2", b2)
    k = sample(c, root, "src2", "s2", ratio, b2, r.choice([2, 3, 4]), nf=r.choice([None, 1, 3]))
    check(np.array_equal(k, ref), "sample-columns", "another block of the same length: %d rows instead of %d, or other rows", len(k), len(ref))
    c.st("columns")
    c.nontrivial = rows > 1


if __name__ == "__main__":
    main(dict(C25=c25, C26=c26, C26M=c26m, C27=c27, C31=c31, C32=c32))
