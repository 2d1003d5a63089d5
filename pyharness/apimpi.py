"""The MPI classes of the Python interface on several ranks, in lockstep (C17, C23)."""
import ctypes, gc, hashlib, json, mmap, os, random, shutil, signal, struct, sys, traceback, warnings
import numpy as np
warnings.simplefilter("ignore")
from mpi4py import MPI
from vfpy import *
import bigfile
from bigfile import File, FileMPI, ColumnMPI, Error, set_buffer_size
from api import gen_attr_value, gen_attr_name, attr_equal, check_attrs, brief, gen_text

W = MPI.COMM_WORLD.Dup()


class G:
    pass


def together(c, what, f, must=True):
    """a collective call: the same outcome on every rank; returns (failed, result)"""
    err = res = None
    try:
        res = f()
    except Exception as e:
        err = e
    all_ = W.allgather(repr(err) if err is not None else None)
    bad = [e is not None for e in all_]
    if any(bad) and not all(bad):
        raise Fail("ranks-disagree", "%s fails on some ranks only: %r" % (what, all_))
    if must and bad[0]:
        raise Fail("unexpected-failure", "%s fails on all ranks: %r" % (what, all_[0]))
    if not must and not bad[0]:
        raise Fail("not-raised", "%s does not fail" % what)
    if not must:
        check(len(str(err)) > 0, "no-message", "%s raises %r", what, err)
        c.st("mpi_raised")
    return res


def local(f):
    """observations of every rank; any failure ends the case on all."""
    bad = None
    try:
        f()
    except Fail as e:
        bad = (e.key, "rank %d: %s" % (W.rank, e.msg))
    except Exception as e:
        bad = ("unexpected-" + type(e).__name__, "rank %d: %s" % (W.rank, traceback.format_exc()[-1500:]))
    for b in W.allgather(bad):
        if b:
            raise Fail(*b)


def root(f):
    local(f if W.rank == 0 else lambda: None)


class B:
    def __init__(self, arr, nf):
        self.arr, self.nf, self.attrs, self.once = arr, nf, {}, True
        self.tick = np.zeros(len(arr), int)


def split(r, n, k):
    m = r.random()
    if m < .4:
        return [n * (i + 1) // k - n * i // k for i in range(k)]
    if m < .6:
        v = [0] * k
        v[r.randrange(k)] = n
        return v
    cut = sorted(r.randint(0, n) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cut, cut + [n])]


def case(c):
    r, rank, n = c.r, W.rank, W.size
    comm = W.Dup() if r.random() < .5 else W.Split(0, rank if r.random() < .5 else n - rank)
    try:
        body(c, comm)
    finally:
        gc.collect()
        comm.Free()


def body(c, comm):
    r = c.r
    set_buffer_size(r.choice([7, 64, 1000, 65536]))
    rootdir = c.dir + "/f"
    me, n = comm.rank, comm.size
    f = together(c, "create file", lambda: FileMPI(comm, rootdir, create=True))
    b, h = {}, {}
    names = ["A", "B", "sub/x", "sub/y", "0/Mass"]

    def live(name):
        if name not in h:
            h[name] = together(c, "open", lambda: f.open(name) if r.random() < 2 else None)
            c.st("mpi_opens")
        return h[name]

    def drop(name, how):
        if name in h:
            if how:
                together(c, "close", h[name].close)
            else:
                together(c, "flush", h[name].flush)
            del h[name]

    def verify(name):
        col, m = live(name), b[name]

        def look():
            check(col.size == len(m.arr) and col.Nfile == m.nf and col.dtype == np.dtype((m.arr.dtype, m.arr.shape[1:])), "description", "%s: %d rows %d files %r", name, col.size, col.Nfile, col.dtype)
            lo = r2.randint(0, len(m.arr))
            hi = r2.randint(lo, len(m.arr))
            check(same(col[lo:hi], m.arr[lo:hi]), "rows", "%s[%d:%d] is %s, expected %s", name, lo, hi, brief(col[lo:hi]), brief(m.arr[lo:hi]))
            check_attrs(c, col, m.attrs, name)
            if len(m.arr):
                check(same(np.asarray(col[-1]), np.asarray(m.arr[-1])), "rows", "%s[-1] is %s", name, brief(col[-1]))
        r2 = random.Random(r.getrandbits(32) + me)
        local(look)
        c.st("mpi_verified")

    def disk(name):
        m = b[name]

        def look():
            d = read_block(os.path.join(rootdir, name))
            check(same(rows_of(d), m.arr), "disk-rows", "the files of %s differ", name)
            check(len(d["sizes"]) == m.nf, "disk-files", "%s has %d files, expected %d", name, len(d["sizes"]), m.nf)
            check(set(d["attrs"]) == set(m.attrs), "disk-attrs", "the attribute file of %s has %r, expected %r", name, sorted(d["attrs"]), sorted(m.attrs))
            if m.once:
                s = [sum(x) & 0xffffffff for x in d["data"]]
                check(d["sums"] == s and d["sysv"] == [sysv(x) for x in s], "checksum", "the checksums of %s are %r, the bytes sum up to %r", name, d["sums"], s)
                c.st("mpi_checksums")
        root(look)

    if c.index % 24 == 5:
        # so many rows that the checksum wraps around
        set_buffer_size(r.choice([65536, 1 << 20, 3000001]))
        total = (17 << 20) + r.randint(0, 300000)
        arr = np.full(total, 255, "u1")
        arr[r.randrange(total)] = r.randint(0, 254)
        cnt = split(r, total, n)
        off = sum(cnt[:me])
        nf = r.choice([1, 1, 1, 2])
        c.note("create wrap u1 %d Nfile %d split %r" % (total, nf, cnt))
        col = together(c, "create", lambda: f.create("wrap", np.dtype("u1"), total, nf))
        mid = random.Random(r.getrandbits(32) + me).randint(0, cnt[me]) if r.random() < .5 else None
        if mid is None:
            local(lambda: col.write(off, arr[off:off + cnt[me]]))
        else:
            local(lambda: col.write(off, arr[off:off + mid]))
            together(c, "flush", col.flush)
            local(lambda: col.write(off + mid, arr[off + mid:off + cnt[me]]))
        together(c, "close", col.close)
        del col
        W.barrier()

        def look():
            q = os.path.join(rootdir, "wrap")
            d = read_block(q)
            check(d["sizes"] == [total * (i + 1) // nf - total * i // nf for i in range(nf)], "disk-files", "sizes %r", d["sizes"])
            s = [int(np.frombuffer(x, "u1").sum(dtype="u8")) & 0xffffffff for x in d["data"]]
            check(d["sums"] == s, "checksum", "the checksums are %r, the bytes sum up to %r", d["sums"], s)
            check(b"".join(d["data"]) == arr.tobytes(), "disk-rows", "the rows differ")
            shutil.rmtree(q)
        root(look)
        W.barrier()
        set_buffer_size(r.choice([7, 64, 1000, 65536]))
        c.st("mpi_wraps")
    for _ in range(r.randint(3, 12)):
        k = r.random()
        have = sorted(b)
        if k < .3 or not have:
            name = r.choice(names)
            drop(name, True)
            total = r.choice([0, 1, 2, r.randint(3, 60), r.randint(3, 60)])
            nm = r.choice([1, 1, 2, 3])
            arr = gen_values(r, gen_dtype(r), (total,) if nm == 1 else (total, nm))
            nf = r.randint(1, 4) if total else r.randint(0, 1)
            cnt = split(r, total, n)
            off = sum(cnt[:me])
            mine = relayout(random.Random(r.getrandbits(32) + me), arr[off:off + cnt[me]])
            c.note("create %s %s%s Nfile %d split %r" % (name, arr.dtype, arr.shape, nf, cnt))
            if r.random() < .5:
                lim = r.choice([1, 50, 1 << 28])
                col = together(c, "create_from_array", lambda: f.create_from_array(name, mine, Nfile=nf, memorylimit=lim))
            else:
                full = np.dtype((arr.dtype, arr.shape[1:])) if arr.ndim > 1 else arr.dtype
                col = together(c, "create", lambda: f.create(name, full, total, nf))
                local(lambda: col.write(off, mine))
                if r.random() < .5:
                    together(c, "flush", col.flush)
                    if r.random() < .5:
                        together(c, "flush again", col.flush)
            b[name] = B(arr, nf)
            h[name] = col
            W.barrier()
            local(lambda: check(name in f and f.blocks == sorted(b), "blocks", "the blocks are %r, expected %r", f.blocks, sorted(b)))
            c.st("mpi_creates")
        elif k < .5:
            # rows rewritten by any ranks
            name = r.choice(have)
            col, m = live(name), b[name]
            total = len(m.arr)
            lo = r.randint(0, total)
            hi = r.randint(lo, total)
            new = gen_values(r, m.arr.dtype, (hi - lo,) + m.arr.shape[1:])
            cnt = split(r, hi - lo, n)
            off = lo + sum(cnt[:me])
            c.note("write %s[%d:%d] %r" % (name, lo, hi, cnt))

            empty = r.random() < .5

            def wr():
                if cnt[me] or empty:
                    if total:
                        col.write(off, new[off - lo:off - lo + cnt[me]])
            local(wr)
            m.arr = m.arr.copy()
            m.arr[lo:hi] = new
            if hi > lo:
                m.once = False
            verify(name)
            c.st("mpi_writes")
        elif k < .7:
            name = r.choice(have)
            col, m = live(name), b[name]
            everyone = r.random() < .6
            for _ in range(r.randint(1, 3)):
                q = gen_attr_name(r, m.attrs)
                v, want = gen_attr_value(r)
                if want is None or isinstance(want, str) and want == "either" or isinstance(want, np.ndarray) and want.dtype.hasobject:
                    continue
                rm = q in m.attrs and r.random() < .3
                c.note("%s %s.%s on %s" % ("del" if rm else "set", name, q[:20], "all" if everyone else "root"))

                def put():
                    if everyone or me == 0:
                        if rm:
                            del col.attrs[q]
                        else:
                            col.attrs[q] = v
                local(put)
                if rm:
                    del m.attrs[q]
                else:
                    m.attrs[q] = want
            together(c, "flush", col.flush)
            local(lambda: check_attrs(c, col, m.attrs, name))
            disk(name)
            c.st("mpi_attrs")
        elif k < .8:
            name = r.choice(have)
            verify(name)
            drop(name, r.random() < .7)
            disk(name)
            c.note("close %s" % name)
            c.st("mpi_closes")
        elif k < .9:
            q = r.randrange(7)
            c.note("hostile %d" % q)
            bad = r.randrange(n)
            if q == 0:
                together(c, "open a missing block", lambda: f.open("missing"), must=False)
            elif q == 1:
                together(c, "open different blocks", lambda: f.open("A" if me == bad else "B" * (1 + n)), must=False) if n > 1 else None
            elif q == 2:
                together(c, "create with a bad type", lambda: f.create("bad", np.dtype("U3"), 4, 1), must=False)
            elif q == 3:
                together(c, "create with no files", lambda: f.create("bad", np.dtype("f8"), 4, 0), must=False)
            elif q == 4:
                together(c, "open a missing file", lambda: FileMPI(comm, c.dir + "/none"), must=False)
            elif q == 5:
                if W.rank == 0:
                    open(c.dir + "/plain", "w").close()
                W.barrier()
                together(c, "create a file below a plain file", lambda: FileMPI(comm, c.dir + "/plain/f", create=True), must=False)
            elif q == 6 and n > 1:
                together(c, "create different blocks", lambda: f.create("bad%d" % (me == bad), np.dtype("f8"), 4, 1), must=False)
            c.st("mpi_hostile")
        else:
            sub = [x for x in have if x.startswith("sub/")]
            if r.random() < .5:
                g = together(c, "open file", lambda: FileMPI(comm, rootdir))
                local(lambda: check(g.blocks == sorted(b) and list(g) == sorted(b), "blocks", "the blocks of the file opened again are %r, expected %r", g.blocks, sorted(b)))
            elif sub:
                name = r.choice(sub)
                spelt = r.choice(["sub/", "/sub/"])
                g = together(c, "sub-file", lambda: f[spelt])
                local(lambda: check(g.blocks == sorted(x[4:] for x in sub), "blocks", "the blocks of the sub-file are %r", g.blocks))
                drop(name, True)
                col = together(c, "open", lambda: g.open(name[4:]))
                local(lambda: check(same(col[...], b[name].arr), "rows", "%s in the sub-file differs", name))
                del col
            c.st("mpi_files")
        gc.collect() if r.random() < .1 else None
    for name in sorted(b):
        verify(name)
        drop(name, True)
        disk(name)
        c.st("mpi_blocks_compared")
        W.barrier()
    c.nontrivial = W.size > 1 and len(b) > 1


def main():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    c = Ctx()
    c.tier, c.args, c.prog = int(a["--tier"]), a, None
    seed, start, stride, cases = (int(a["--" + k]) for k in ("seed", "start", "stride", "cases"))
    rank = W.rank
    if rank == 0:
        with open(a["--progress"], "wb") as f:
            f.truncate(65536)
        pf = open(a["--progress"], "r+b")
        c.prog = mmap.mmap(pf.fileno(), 65536)
        dist = open(a["--dist"], "ab")
    nviol = nsample = done = 0
    for i in range(start, cases, stride):
        if W.bcast(i != start and bool(late())):
            if rank == 0:
                print("CUT")
            break
        c.index, c.seed = i, seed
        c.r = random.Random("%d/%s/%d/%d" % (seed, a["--mode"], i, W.size))
        c.desc, c.sig, c.nontrivial, c._note = "", None, False, b""
        c.dir = os.path.join(a["--dir"], "c%d" % i)
        if rank == 0:
            c.prog[0:17] = struct.pack("<QQ", i, 1) + b"\0"
            os.makedirs(c.dir)
        W.barrier()
        try:
            try:
                case(c)
            except Fail:
                raise
            except Exception:
                tb = traceback.format_exc()
                print(tb, file=sys.stderr, flush=True)
                raise Fail("unexpected-exception", tb[-1500:])
        except Fail as e:
            nviol += 1
            if rank == 0:
                print("VIOL\t%d\t%s\t%s\t%s" % (i, e.key, e.msg.replace("\n", " | ").replace("\t", " ")[:3000], c.desc.replace("\n", " ").replace("\t", " ")), flush=True)
        gc.collect()
        W.barrier()
        if rank == 0:
            c.prog[8:16] = struct.pack("<Q", 0)
            shutil.rmtree(c.dir, ignore_errors=True)
            done += 1
            dist.write(hashlib.blake2b((c.desc + str(W.size)).encode(errors="replace"), digest_size=8).digest() + bytes([bool(c.nontrivial)]))
            if c.nontrivial and nsample < 2:
                nsample += 1
                print("SAMPLE\t" + json.dumps(dict(case=i, ranks=W.size, trace=c.desc[:700])))
        W.barrier()
        if nviol >= 5:
            break
    if rank == 0:
        dist.close()
        for k, v in sorted(c.stat.items()):
            print("STAT\t%s\t%d" % (k, v))
        print("DONE\t%d" % done, flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
