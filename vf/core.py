"""Orchestration shared by all checks: scratch space, builds from /repo's working tree, running
sharded harness processes under a watchdog, known findings, evidence and verdicts."""
import atexit, ctypes, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = 8
QUICK_BUDGET = 480           # seconds after which the quick tier starts no more cases (it needs a tenth of that on an idle machine)
PY = "/opt/bigfile-venv/bin/python"

UBSAN_OFF = "-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow"
SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", UBSAN_OFF, "-fno-sanitize-recover=undefined"]
SAN_LINK = ["-fsanitize=address,undefined"]
SAN_HARNESS = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
TSAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
ASAN_OPTIONS = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0:detect_stack_use_after_return=0"
UBSAN_OPTIONS = "print_stacktrace=1:abort_on_error=1:halt_on_error=1"


class HarnessError(Exception):
    """The check itself could not do its work: neither held nor violated."""


def san_env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN_OPTIONS
    e["UBSAN_OPTIONS"] = UBSAN_OPTIONS
    e["LC_ALL"] = "C"
    for k in ("LD_PRELOAD",):
        e.pop(k, None)
    if extra:
        e.update(extra)
    return e


def py_env(site, extra=None):
    """The interpreter with the sanitizer loaded first; fresh memory is filled, freed memory detected."""
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    e = san_env({"PYTHONPATH": site + os.pathsep + os.path.join(VERIF, "pyharness"), "LD_PRELOAD": asan, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONMALLOC": "malloc",
        "ASAN_OPTIONS": ASAN_OPTIONS + ":max_malloc_fill_size=1000000:malloc_fill_byte=199:detect_odr_violation=0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
    if extra:
        e.update(extra)
    return e


def tsan_env():
    return san_env({"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"})


class Check:
    def __init__(self, prop, tier, seed, level="exploration", replay=None):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self.violations = []      # dicts: key, msg, trace, replay info
        self.inconclusive = []
        self.stats = {}
        self.samples = []
        self.distinct = set()
        self.evaluations = 0
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.required = []        # counters that must not be zero
        self.replay = replay
        self._n = 0
        self.stop = False         # a confirmed hang, or enough seen: start nothing more
        self.cut = 0              # processes which ended before their last case, for lack of time
        atexit.register(self.cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *a: sys.exit(3))

    def cleanup(self):
        for p in list(_procs):
            kill_group(p)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- builds
    def run_cmd(self, argv, **kw):
        r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
        if r.returncode:
            raise HarnessError("command failed: %s\n%s" % (" ".join(argv), r.stdout.decode(errors="replace")[-3000:]))
        return r.stdout.decode(errors="replace")

    def lib_sources(self, mpi=False):
        """The library's sources in the working tree, whichever files it consists of."""
        out = []
        for f in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
            txt = open(f, errors="replace").read()
            uses = re.search(r'#\s*include\s*[<"](mpi\.h|bigfile-mpi\.h|mp-mpiu\.h)', txt) is not None
            if mpi or not uses:
                out.append(f)
        if not out:
            raise HarnessError("no library sources")
        return out

    def compile(self, jobs):
        """jobs: list of argv, run in parallel."""
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(self.run_cmd, j) for j in jobs]:
                f.result()

    def build(self, name, harness, lib, hflags=(), lflags=(), link=(), defs=(), mpi=False, cc="gcc", cxx="g++"):
        """harness: C++ files of /verif/harness; lib: C files of /repo. returns the program's path."""
        d = os.path.join(self.scratch, "build-" + name)
        os.makedirs(d, exist_ok=True)
        inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]
        mi, ml = mpi_flags() if mpi else ([], [])
        jobs, objs = [], []
        for h in harness:
            o = os.path.join(d, os.path.basename(h) + ".o")
            jobs.append([cxx, "-std=gnu++17", "-w", *hflags, *defs, *inc, *mi, "-c", os.path.join(VERIF, "harness", h), "-o", o])
            objs.append(o)
        for f in lib:
            o = os.path.join(d, "lib-" + os.path.basename(f) + ".o")
            jobs.append([cc, "-w", *lflags, *inc[:1], *mi, "-c", f, "-o", o])
            objs.append(o)
        self.compile(jobs)
        exe = os.path.join(d, name)
        self.run_cmd([cxx, *objs, "-o", exe, *link, *ml, "-lpthread", "-lm"])
        return exe

    def pybuild(self, san=True):
        """The Python package of the working tree, built in scratch space; returns the path to import from."""
        site = os.path.join(self.scratch, "site")
        pkg = os.path.join(site, "bigfile")
        os.makedirs(pkg)
        for f in os.listdir(os.path.join(REPO, "bigfile")):
            if f.endswith((".py", ".pyx", ".pxd", ".pxi")):
                shutil.copy(os.path.join(REPO, "bigfile", f), pkg)
        inc = self.run_cmd([PY, "-c", "import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()['include'])"]).split()
        flags = (["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"] if san else ["-O1"]) + ["-w", "-fPIC", "-I" + os.path.join(REPO, "src")] + ["-I" + i for i in inc]
        jobs, objs, todo = [], [], []
        for f in self.lib_sources():
            o = os.path.join(site, "lib-" + os.path.basename(f) + ".o")
            todo.append(["gcc", *(SAN if san else []), *flags, "-c", f, "-o", o])
            objs.append(o)
        for f in glob.glob(os.path.join(pkg, "*.pyx")):
            self.run_cmd([PY, "-m", "cython", f], cwd=site)
            o = f[:-4] + ".o"
            todo.append(["gcc", *flags, "-c", f[:-4] + ".c", "-o", o])
            objs.append(o)
        self.compile(todo)
        self.run_cmd(["gcc", "-shared", *objs, "-o", os.path.join(pkg, "pyxbigfile.so"), *(SAN_LINK if san else []), "-lm"])
        self.run_cmd([PY, "-c", "import bigfile"], cwd=site, env=py_env(site) if san else dict(os.environ, PYTHONPATH=site))
        return site

    def tools(self, names, mpi=()):
        """The command line tools of the working tree, under the sanitizers, and the scripts; returns their directory."""
        d = os.path.join(self.scratch, "tools")
        os.makedirs(d)
        mi, ml = mpi_flags() if mpi else ([], [])
        jobs, ser, par = [], [], []
        serial = self.lib_sources()
        for f in self.lib_sources(mpi=bool(mpi)):
            o = os.path.join(d, "lib-" + os.path.basename(f) + ".o")
            jobs.append(["gcc", "-w", *SAN, "-I" + os.path.join(REPO, "src"), *mi, "-c", f, "-o", o])
            par.append(o)
            if f in serial:
                ser.append(o)
        if mpi:
            dly = os.path.join(d, "mpidelay.o")
            jobs.append(["gcc", "-w", "-O1", "-g", *mi, "-c", os.path.join(VERIF, "harness", "mpidelay.c"), "-o", dly])
        self.compile(jobs)
        jobs = []
        for t in names:
            src = os.path.join(REPO, "utils", t)
            if os.path.exists(src + ".c"):
                jobs.append(["gcc", "-w", *SAN, "-I" + os.path.join(REPO, "src"), src + ".c", *ser, "-o", os.path.join(d, t), "-lm"])
            else:
                shutil.copy(src, d)
                os.chmod(os.path.join(d, t), 0o755)
        for t in mpi:
            jobs.append(["gcc", "-w", *SAN, "-I" + os.path.join(REPO, "src"), *mi, os.path.join(REPO, "utils", t + ".c"), dly, *par, "-o", os.path.join(d, t), *ml, *(["-lgsl", "-lgslcblas"] if "sample" in t else []), "-lm"])
        self.compile(jobs)
        return d

    # ---------------------------------------------------------------- harness processes
    def mode_defs(self, mode, fn=None):
        return ['-DMODES={"%s",%s}' % (mode, fn or mode.lower())]

    def run(self, exe, mode, cases, shards=NCPU, prefix=(), env=None, hang=120, label="", args=(), group=None, crash_key="crash"):
        """Runs cases 0..cases-1 of a harness mode over several processes and collects what it reports."""
        if self.stop or (self.replay and self.replay.get("mode") not in (None, mode)):
            return
        if self.replay and self.replay.get("label", "") != label:
            return
        self._n += 1
        base = os.path.join(self.scratch, "run%d" % self._n)
        os.makedirs(base)
        todo = []
        if self.replay and "case" in self.replay:
            i = int(self.replay["case"])
            todo = [(0, i, 1 << 40, i + 1)]
        else:
            shards = max(1, min(shards, cases))
            todo = [(k, k, shards, cases) for k in range(shards)]
        env, dl = env or san_env(), self.stage_deadline()
        if dl and not self.replay:
            env = dict(env, VF_DEADLINE="%d" % dl)
        with ThreadPoolExecutor(len(todo)) as ex:
            for f in [ex.submit(self._shard, exe, mode, base, list(prefix), env, hang, label, list(args), crash_key, *t) for t in todo]:
                f.result()
        shutil.rmtree(base, ignore_errors=True)

    def stage_deadline(self):
        """Half of what is left of the quick tier's time for each group of processes: later ones still get some."""
        now = time.time()
        return None if self.thorough else now + max(20, (self.t0 + QUICK_BUDGET - now) / 2)

    def _launch(self, exe, mode, base, k, attempt, prefix, env, args, start, stride, cases, hang):
        """One process; returns (exit code or None if it hung, output path, error text, progress)."""
        d = os.path.join(base, "s%d-%d" % (k, attempt))
        os.makedirs(d)
        prog, out, err = d + ".prog", d + ".out", d + ".err"
        env = dict(env, TMPDIR=d + ".tmp")          # of its own: mpiruns sharing a session directory remove it from each other
        os.makedirs(env["TMPDIR"])
        argv = prefix + [exe, "--mode", mode, "--seed", str(self.seed), "--start", str(start), "--stride", str(stride), "--cases", str(cases),
                "--tier", "1" if self.thorough else "0", "--dir", d, "--progress", prog, "--dist", d + ".dist", *args]
        with open(out, "wb") as fo, open(err, "wb") as fe:
            p = subprocess.Popen(argv, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=d,
                                 preexec_fn=lambda: PRCTL(1, signal.SIGKILL))       # not to outlive the check
        _procs.append(p)
        last, since = None, time.time()
        while True:
            try:
                rc = p.wait(0.1)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = read_progress(prog)[:2]
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > hang:
                rc = None
                break
            if not self.stop and not self.thorough and time.time() - self.t0 > 200 and (self.violations or b"VIOL\t" in open(out, "rb").read()):
                self.stop = True          # the quick tier has its answer
            if self.stop:
                break
        if self.stop and p.poll() is None:
            rc = "stopped"
        kill_group(p)
        _procs.remove(p)
        errtxt = tail(err, 200000)
        return rc, out, errtxt, read_progress(prog), d

    def _shard(self, exe, mode, base, prefix, env, hang, label, args, crash_key, k, start, stride, cases):
        attempt, crashes, outside = 0, 0, 0
        while start < cases:
            rc, out, errtxt, (idx, running, note), d = self._launch(exe, mode, base, k, attempt, prefix, env, args, start, stride, cases, hang)
            attempt += 1
            self._collect(out, d + ".dist", mode, label, errtxt)
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(d + ".tmp", ignore_errors=True)
            if rc in (0, "stopped"):
                return
            if rc is not None and not san_kind(errtxt) and not_the_code(rc, running, errtxt):
                outside += 1
                if outside > 3:
                    raise HarnessError("%s cannot be run (%s): %s" % (mode, rc, errtxt[-2000:]))
                self.inconclusive.append("case %d of %s repeated: %s" % (idx, mode, errtxt[-300:]))
                time.sleep(1 + outside)
                start = max(start, idx) if running else start if idx == 0 else idx + stride
                continue
            if rc in (97, 98) or (not running and idx == 0 and rc is not None and start == 0 and not note and not san_kind(errtxt)):
                raise HarnessError("harness %s failed (%s): %s" % (mode, rc, errtxt[-2000:]))
            rep = dict(mode=mode, label=label, case=idx)
            if rc is None:
                # a hang is reported only if the case hangs again on its own, with more time
                rc2, out2, err2, _, d2 = self._launch(exe, mode, base, k, attempt, prefix, env, args, idx, 1 << 40, idx + 1, 2 * hang)
                attempt += 1
                shutil.rmtree(d2, ignore_errors=True)
                if rc2 == "stopped":
                    return
                if rc2 is None:
                    self.stop = True
                    self.violation("hang", "case %d of %s does not end (twice, %d s and %d s)" % (idx, mode, hang, 2 * hang), note, rep)
                else:
                    self.inconclusive.append("case %d of %s ended only when repeated" % (idx, mode))
            else:
                kind = san_kind(errtxt) or ("exit %d" % rc)
                self.violation(crash_key + ":" + kind, san_excerpt(errtxt), note, rep)
            crashes += 1
            if crashes >= 3:
                return
            start = idx + stride

    def _collect(self, out, dist, mode, label, errtxt):
        done = 0
        for line in open(out, errors="replace"):
            f = line.rstrip("\n").split("\t")
            if f[0] == "VIOL" and len(f) >= 4:
                self.violation(f[2], f[3], f[4] if len(f) > 4 else "", dict(mode=mode, label=label, case=int(f[1])), fatal=f[2].startswith("harness"), err=errtxt)
            elif f[0] == "STAT":
                self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
            elif f[0] == "SAMPLE" and len(self.samples) < 6:
                try:
                    s = json.loads(f[1])
                    s["mode"] = mode + label
                    self.samples.append(s)
                except ValueError:
                    pass
            elif f[0] == "CUT":
                self.cut += 1
            elif f[0] == "INCONCLUSIVE":
                self.inconclusive.append(f[1])
        if os.path.exists(dist):
            b = open(dist, "rb").read()
            for i in range(0, len(b) - 8, 9):
                self.evaluations += 1
                if b[i + 8]:
                    self.distinct.add(b[i:i + 8] + mode.encode() + label.encode())

    # ---------------------------------------------------------------- verdict
    def violation(self, key, msg, trace="", rep=None, fatal=False, err=""):
        if fatal:
            raise HarnessError("%s: %s" % (key, msg))
        self.violations.append(dict(key=key, msg=msg, trace=trace, rep=rep or {}, err=err[-4000:] if err else ""))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def finish(self):
        known = load_known(self.prop)
        new, seen = [], {}
        for v in self.violations:
            text = v["key"] + " " + v["msg"]
            m = next((k for k in known if k[0] in text), None)
            if m:
                seen[m] = seen.get(m, 0) + 1
            else:
                new.append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k[1]))
        missing = [c for c in self.required if not self.stats.get(c)]
        self.write_evidence(new)
        if new:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            done = set()
            for v in new:
                if v["key"] in done:
                    continue
                done.add(v["key"])
                name = "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9]+", "-", v["key"])[:60])
                path = os.path.join(rd, name)
                rec = dict(property=self.prop, tier=self.tier, seed=self.seed, key=v["key"], message=v["msg"], trace=v["trace"], stderr=v["err"], **v["rep"])
                rec["how"] = "./check %s --replay %s" % (self.prop, path)
                json.dump(rec, open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  %s: %s" % (v["key"], v["msg"][:1500]))
                if v["trace"]:
                    print("  trace: %s" % v["trace"][-1200:])
                if len(done) >= 8:
                    break
            self.cleanup()
            return 1
        if self.replay:
            print("replayed: the property held")
            self.cleanup()
            return 0
        if missing or self.evaluations == 0:
            print("ERROR: the monitors observed nothing for: %s" % (", ".join(missing) or "any case"))
            self.cleanup()
            return 2
        if len(self.inconclusive) > 2 + self.evaluations // 50:
            print("ERROR: %d inconclusive cases, e.g. %s" % (len(self.inconclusive), self.inconclusive[:3]))
            self.cleanup()
            return 2
        print("OK property=%s: held on %d cases (%d distinct, non-trivial) in %.1f s; observed %s" % (
            self.prop, self.evaluations, len(self.distinct), time.time() - self.t0, json.dumps(self.stats, sort_keys=True)))
        self.cleanup()
        return 0

    def write_evidence(self, new):
        if self.replay:
            return
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples or ["none"],
                   observed=dict(sorted(self.stats.items())), inconclusive=self.inconclusive[:20])
        if self.cut:
            cov["ended_early_for_lack_of_time"] = "%d processes" % self.cut
        cov.update(self.extra)
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                 wall_s=round(time.time() - self.t0, 2), violations=len(new))
        tmp = os.path.join(d, ".%s.tmp" % self.prop)
        json.dump(e, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


PRCTL = ctypes.CDLL(None).prctl
_procs = []


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except Exception:
        pass


def tail(path, n):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            s = f.tell()
            f.seek(max(0, s - n))
            return f.read().decode(errors="replace")
    except OSError:
        return ""


def read_progress(path):
    try:
        b = open(path, "rb").read(4096)
        i, r = struct.unpack("<QQ", b[:16])
        return i, r, b[16:].split(b"\0")[0].decode(errors="replace")
    except (OSError, struct.error):
        return 0, 0, ""


def not_the_code(rc, running, txt):
    """mpirun could not start the processes, or something outside (memory shortage) killed them."""
    if rc in (-9, 137) or re.search(r"exited on signal 9\b", txt):
        return True
    return not running and re.search(r"ORTE_ERROR_LOG|PMIX ERROR|orte_init failed|ORTE daemon|session directory|not enough slots|unable to (start|launch)", txt) is not None


def san_kind(txt):
    m = re.search(r"runtime error: (.*)", txt)
    if m:
        return "ubsan " + re.sub(r"[0-9xa-f]{3,}|\d+", "N", m.group(1))[:80]
    m = re.search(r"ERROR: (Address|Leak|Thread)Sanitizer: ([^\n(]*)", txt)
    if m:
        return m.group(1).lower() + " " + " ".join(m.group(2).split()[:2])
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", txt)
    if m:
        return "tsan " + m.group(1).strip()
    return None


def san_excerpt(txt):
    for pat in (r"runtime error:", r"(ERROR|WARNING): \w+Sanitizer"):
        m = re.search(pat, txt)
        if m:
            s = max(0, txt.rfind("\n", 0, m.start()))
            return txt[s:s + 2500].strip()
    return txt[-1500:].strip()


def mpi_flags():
    inc = subprocess.run(["mpicc", "--showme:compile"], stdout=subprocess.PIPE).stdout.decode().split()
    lnk = subprocess.run(["mpicc", "--showme:link"], stdout=subprocess.PIPE).stdout.decode().split()
    return inc, lnk


def mpi_env(extra=None):
    """Open MPI as root on this machine over shared memory, more ranks than cores allowed."""
    e = san_env(extra)
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_rmaps_base_no_oversubscribe="0",
             OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


def load_known(prop):
    """Lines 'finding: property=<id> match=<text> -- <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(.*?) -- (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out
