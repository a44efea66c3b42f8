"""Shared machinery: building instrumented harnesses from /repo, running shards, verdicts and evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 1)
VENV = "/opt/vp/venv"

DEFS = ["-DVDF_MODE=0", "-DFAST_MACHINE=1", '-DCHIAVDF_VERSION="dev"']
STD = ["-std=c++17", "-w", "-g1", "-pthread", "-I" + SRC, "-I" + os.path.join(VERIF, "ref"), "-I" + os.path.join(VERIF, "harness")]
LIBS = ["-lgmpxx", "-lgmp", "-pthread"]
HOOKS = ["-DCHIAVDF_VERIF_HOOKS", "-I" + os.path.join(VERIF, "harness", "hooks")]

FLAVORS = {
    "plain": (["g++"], ["-O2"]),
    "asan": (["g++"], ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "casan": (["clang++"], ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan": (["g++"], ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=12000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=87",
}


class HarnessError(Exception):
    pass


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, timeout=600, env=None, ok=True):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if ok and p.returncode != 0:
        raise HarnessError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p


# ---------------------------------------------------------------------------------------------- building
_hash_cache = {}


def tree_hash(root, exts=(".h", ".hpp", ".c", ".cpp", ".rs", ".py", ".pyi")):
    if root in _hash_cache:
        return _hash_cache[root]
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        dirs[:] = [x for x in dirs if not x.startswith((".", "_", "build", "target"))]
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    _hash_cache[root] = h.hexdigest()
    return _hash_cache[root]


_locks = {}
_locks_guard = threading.Lock()


def _lock(key):
    with _locks_guard:
        return _locks.setdefault(key, threading.Lock())


def cached(kind, key, make, suffix=""):
    """Return a path under build/ produced by make(tmp_path); the content key covers every input."""
    k = hashlib.sha256(("%s|%s" % (kind, key)).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "%s-%s%s" % (kind, k, suffix))
    with _lock(path):
        if not os.path.exists(path):
            tmp = path + ".tmp%d" % os.getpid() + suffix
            make(tmp)
            os.rename(tmp, path)
        else:
            try:
                os.utime(path)
            except OSError:
                pass
    return path


def inputs_key():
    return tree_hash(SRC) + tree_hash(os.path.join(VERIF, "harness")) + tree_hash(os.path.join(VERIF, "ref"))


def obj(src, flavor="plain", extra=(), lang=None):
    comp, fl = FLAVORS[flavor]
    comp = list(comp)
    if src.endswith(".c") and lang is None:
        comp = ["gcc" if comp[0] == "g++" else "clang"]
        std = [x for x in STD if not x.startswith("-std")]
    else:
        std = STD
    cmd = comp + fl + std + DEFS + list(extra) + ["-fPIC", "-c", src]

    def make(tmp):
        sh(cmd + ["-o", tmp], timeout=900)
    return cached("obj", json.dumps(cmd) + inputs_key() + _fhash(src), make, ".o")


def _fhash(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def asm_objs():
    """The generated squaring kernels, produced by the current tree's compile_asm."""
    cmd = ["g++", "-O1"] + STD + DEFS + [os.path.join(SRC, "compile_asm.cpp"), os.path.join(SRC, "refcode/lzcnt.c")]
    key = json.dumps(cmd) + tree_hash(SRC)

    def make(tmp):
        os.makedirs(tmp)
        exe = os.path.join(tmp, "compile_asm")
        sh(cmd + ["-o", exe, "-no-pie"] + LIBS, timeout=600)
        for arg in ([], ["avx2"], ["avx512"]):
            sh([exe] + arg, cwd=tmp, timeout=300)
        os.unlink(exe)
        for n in ("asm_compiled", "avx2_asm_compiled", "avx512_asm_compiled"):
            sh(["gcc", "-c", n + ".s", "-o", n + ".o"], cwd=tmp)
            os.unlink(os.path.join(tmp, n + ".s"))
    d = cached("asm", key, make)
    return [os.path.join(d, n + ".o") for n in ("asm_compiled", "avx2_asm_compiled", "avx512_asm_compiled")]


def link(name, objs, flavor="plain", extra=(), shared=False):
    comp, fl = FLAVORS[flavor]
    cmd = comp + fl + (["-shared"] if shared else ["-no-pie"]) + list(objs) + list(extra) + LIBS

    def make(tmp):
        sh(cmd + ["-o", tmp], timeout=300)
    return cached(name, json.dumps(cmd) + inputs_key(), make, ".so" if shared else "")


def program(name, sources, flavor="plain", extra=(), asm=False, hooks=False, link_extra=(), lz=True):
    """Build a harness executable. sources: absolute, or relative to /verif/harness."""
    ex = list(extra) + (HOOKS if hooks else [])
    srcs = [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in sources]
    if lz:
        srcs.append(os.path.join(SRC, "refcode/lzcnt.c"))
    with ThreadPoolExecutor(NCPU) as ex_:
        fa = ex_.submit(asm_objs) if asm else None
        objs = list(ex_.map(lambda s: obj(s, flavor, ex), srcs))
        if fa:
            objs += fa.result()
    return link(name, objs, flavor, link_extra)


def build_many(thunks):
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(t) for t in thunks]
        return [f.result() for f in fs]


def prune_build(keep_gb=4):
    try:
        ents = [(os.path.getmtime(p), p) for p in (os.path.join(BUILD, x) for x in os.listdir(BUILD))]
    except OSError:
        return
    size = 0
    for m, p in sorted(ents, reverse=True):
        size += sum(os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(p) for f in fs) if os.path.isdir(p) else os.path.getsize(p)
        if size > keep_gb << 30 and time.time() - m > 3600:
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def python_module(flavor="plain", extra=()):
    """The Python package (chiavdf + extension) built from the current tree; returns a PYTHONPATH entry."""
    inc = sh([VENV + "/bin/python", "-m", "pybind11", "--includes"]).stdout.split()
    suf = sh([VENV + "/bin/python", "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).stdout.strip()
    o1 = obj(os.path.join(SRC, "python_bindings/fastvdf.cpp"), flavor, inc + ["-fvisibility=hidden"] + list(extra))
    o2 = obj(os.path.join(SRC, "refcode/lzcnt.c"), flavor)
    so = link("pymod", [o1, o2], flavor, shared=True)
    pk = os.path.join(REPO, "chiavdf")
    key = so + tree_hash(pk)

    def make(tmp):
        os.makedirs(tmp + "/chiavdf")
        for f in os.listdir(pk):
            if f.endswith((".py", ".pyi")):
                shutil.copy(os.path.join(pk, f), tmp + "/chiavdf/" + f)
        shutil.copy(so, tmp + "/chiavdf/_chiavdf" + suf)
    return cached("pypkg", key, make)


def san_preload(kind="asan"):
    return sh(["gcc", "-print-file-name=lib%s.so" % kind]).stdout.strip()


# ---------------------------------------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.viol, self.notes, self.cov, self.samples = [], [], {}, []
        self.evals = self.distinct = 0
        self.inconclusive = []
        self.t_viol = None
        self.rule, self.assumptions = "", []
        self._l = threading.Lock()
        self.thorough = TIER == "thorough"
        os.makedirs(EVID, exist_ok=True)
        self.known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line)
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = m.group(3)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, key, detail, replay=None):
        key = re.sub(r"\s+", "_", str(key))
        with self._l:
            self.viol.append({"key": key, "detail": detail, "replay": replay})
            if key not in self.known and self.t_viol is None:
                self.t_viol = time.time()

    def decided(self, grace=0):
        """Quick tier: a violation no one listed has been seen (at least grace seconds ago)."""
        return not self.thorough and self.t_viol is not None and time.time() - self.t_viol >= grace

    def left(self):
        """Seconds this run may still use: a quick run has to answer within its 900 s."""
        return 1e9 if self.thorough else self.t0 + 850 - time.time()

    def note_inconclusive(self, what):
        with self._l:
            self.inconclusive.append(what)
            log("inconclusive:", what)

    def add(self, name, n=1):
        with self._l:
            if isinstance(n, (int, float)) and not isinstance(n, bool):
                self.cov[name] = self.cov.get(name, 0) + n
            else:
                self.cov[name] = n

    def maxi(self, name, n):
        with self._l:
            self.cov[name] = max(self.cov.get(name, n), n)

    def merge(self, s, prefix=""):
        with self._l:
            self.evals += s.get("evaluations", 0)
            self.distinct += s.get("distinct", 0)
            for k, v in s.get("counters", {}).items():
                k = prefix + k
                if k.startswith("max_") or "_max_" in k:
                    self.cov[k] = max(self.cov.get(k, v), v)
                else:
                    self.cov[k] = self.cov.get(k, 0) + v
            for x in s.get("samples", []):
                if len(self.samples) < 12:
                    self.samples.append(x)

    def need(self, name, at_least):
        """Observation floor: a run that saw less than this decides nothing."""
        if self.cov.get(name, 0) < at_least:
            raise HarnessError("observed too little: %s=%s < %s" % (name, self.cov.get(name, 0), at_least))

    def finish(self):
        new, known = [], {}
        for v in self.viol:
            if v["key"] in self.known:
                known[v["key"]] = v
            else:
                new.append(v)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        cov = dict(evaluations=int(self.evals), distinct_nontrivial=int(self.distinct), rule=self.rule, samples=self.samples or ["none"])
        for k, v in self.cov.items():
            cov.setdefault(k, v)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = dict(property=self.pid, tier="thorough" if self.thorough else "quick", seed=SEED, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(EVID, "replay_%s.json" % self.pid)
        if new:
            with open(rp, "w") as f:
                json.dump(dict(seed=SEED, tier=TIER, violations=new[:50]), f, indent=1)
            for v in new[:5]:
                log("violation:", v["key"], str(v["detail"])[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        if self.evals == 0:
            raise HarnessError("nothing was evaluated")
        log("%s held: %d evaluations, %d distinct, %.1fs" % (self.pid, self.evals, self.distinct, time.time() - self.t0))
        return 0


# ---------------------------------------------------------------------------------------------- running harnesses
FRAME = re.compile(r"#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?([A-Za-z_~][\w:~<>,\* &]*?)(?:\(|\s+/|\s+<null>|$)")


def classify(rc, err, out=""):
    """Classify an abnormal end of a process that ran code under test -> (key, excerpt) or None."""
    txt = err + "\n" + out
    m = re.search(r"ERROR: (Address|Leak|Thread|Memory)Sanitizer:?\s*([\w-]+(?: [\w-]+)?)", txt)
    if m:
        i = txt.find("ERROR: ")
        return "%ssan:%s:%s" % (m.group(1)[0].lower(), m.group(2).split()[0], top_frame(txt[i:])), txt[i:i + 3500]
    m = re.search(r"([\w./-]+):(\d+):\d+: runtime error: (.*)", txt)
    if m:
        i = m.start()
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[^a-z ]", "", m.group(3).lower())[:40].strip()), txt[i:i + 3000]
    if "WARNING: ThreadSanitizer" in txt:
        return None  # handled separately
    if rc is not None and rc < 0:
        return "signal:%s" % signal.Signals(-rc).name, txt[-3000:]
    if "terminate called" in txt or "libc++abi" in txt:
        return "terminate", txt[-3000:]
    return None


def top_frame(txt):
    for m in re.finditer(r"#(\d+) 0x[0-9a-f]+ in (\S[^\n]*)", txt):
        fn = m.group(2)
        if re.search(r"(sanitizer|asan|interceptor|libc\.so|libgmp|libstdc|__gmp|operator new|operator delete)", fn):
            continue
        return re.sub(r"[(<].*", "", fn.split()[0])
    return "unknown"


def tsan_reports(txt):
    """Split ThreadSanitizer output into reports; key = kind + the two top frames inside the sources under test."""
    reps = []
    for blk in re.findall(r"WARNING: ThreadSanitizer: (.*?)\n==================", txt + "\n==================", re.S):
        kind = re.match(r"[\w -]+", blk).group(0).strip().replace(" ", "-")
        tops = []
        for sect in re.split(r"\n\s*\n", blk):
            if not re.search(r"^\s*(Write|Read|Previous|Atomic|Mutex|data race|.*of size)", sect.strip(), re.I) and tops:
                continue
            for m in re.finditer(r"#\d+ (\S[^\n]*)", sect):
                fn = m.group(1)
                if re.search(r"(/usr/include|bits/|interceptor|sanitizer|libgmp|libstdc|<null>|std::)", fn):
                    continue
                tops.append(re.sub(r"[(<].*", "", fn.split()[0]))
                break
        reps.append(("tsan:%s:%s" % (kind, "+".join(sorted(set(tops[:2])) or ["unknown"])), blk[:4000]))
    return reps


class Run:
    __slots__ = ("rc", "out", "err", "timed_out", "wall", "stopped")


def run(cmd, timeout, env=None, cwd=None, stdin=None, stop=None):
    """stop: polled about once a second; when it becomes true the process is ended and r.stopped is set."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    r = Run()
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    r.timed_out = r.stopped = False
    while True:
        left = t + timeout - time.time()
        try:
            o, er = p.communicate(stdin, timeout=min(1.0, left) if stop and left > 0 else max(left, 0))
            break
        except subprocess.TimeoutExpired:
            r.timed_out = time.time() >= t + timeout
            r.stopped = not r.timed_out and bool(stop and stop())
            if not (r.timed_out or r.stopped):
                continue
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        break
    r.rc, r.out, r.err, r.wall = p.returncode, o.decode(errors="replace"), er.decode(errors="replace"), time.time() - t
    return r


def harness(ck, exe, args, timeout, env=None, prefix="", tag="", allow_rc=(0,), tsan=False):
    """Run one harness process: collect @VIOL/@SUM lines, classify crashes and hangs. Returns the summary or None."""
    cmd = [exe] + [str(a) for a in args]
    if ck.decided():
        return None  # quick tier: the verdict is in, what is left of the run would not change it
    stop = lambda: ck.decided(15)
    r, waited = None, []
    for attempt in (1, 2):
        left = ck.left()
        t = min(timeout, max(20, left / 2 - 15 if attempt == 1 else left - 25))
        r = run(cmd, t, env, stop=stop)
        if r.stopped:
            viol_lines(ck, r, cmd)
            return None
        if not r.timed_out:
            return judge(ck, r, cmd, prefix, tag, tsan)
        waited.append(int(t))
        viol_lines(ck, r, cmd)
        if ck.decided():
            return None
        log("no completion within %ds (attempt %d): %s" % (t, attempt, " ".join(cmd)))
    # one timeout can be the machine; two in a row, each many times the usual time of a run, are a hang
    last = [l for l in r.out.splitlines() if l.startswith("@AT ")][-1:]
    if min(waited) < min(timeout, 120):
        raise HarnessError("out of time (%s s) at %s: %s" % (waited, last, " ".join(cmd)))
    what = last[0].split(" ", 2)[1] if last else "unknown"
    ck.violation("hang:%s%s" % (tag, what), "no completion within %s s: %s; last marker %s" % (waited, " ".join(cmd), last), " ".join(cmd))
    return None


def viol_lines(ck, r, cmd):
    for l in r.out.splitlines():
        if l.startswith("@VIOL "):
            try:
                d = json.loads(l[6:])
            except ValueError:
                d = {"key": "unparsed", "detail": l}
            ck.violation(d.get("key", "?"), d.get("detail"), " ".join(cmd))


def judge(ck, r, cmd, prefix="", tag="", tsan=False):
    summary = None
    viol_lines(ck, r, cmd)
    for l in r.out.splitlines():
        if l.startswith("@SUM "):
            summary = json.loads(l[5:])
        elif l.startswith("@HARNESS "):
            raise HarnessError("harness: %s (%s)" % (l[9:], " ".join(cmd)))
        elif l.startswith("@INC "):
            ck.note_inconclusive(l[5:])
    if tsan:
        reps = tsan_reports(r.err)
        for k, d in reps:
            ck.violation(tag + k, d, " ".join(cmd))
        ck.add("tsan_reports", len(reps))
    c = classify(r.rc, r.err)
    if c:
        last = [l for l in r.out.splitlines() if l.startswith("@AT ")][-1:]
        ck.violation(tag + c[0], {"excerpt": c[1], "at": last}, " ".join(cmd))
    elif summary is None:
        if r.rc != 0:
            last = [l for l in r.out.splitlines() if l.startswith("@AT ")][-1:]
            if last:
                # the code under test ended the process by itself (exit/abort path) while handling a case
                ck.violation(tag + "exit:%d" % r.rc, {"at": last, "stderr": r.err[-2000:], "stdout": r.out[-1000:]}, " ".join(cmd))
                return None
        raise HarnessError("harness ended with %s and no summary: %s\n%s\n%s" % (r.rc, " ".join(cmd), r.out[-1500:], r.err[-3000:]))
    if summary:
        ck.merge(summary, prefix)
    return summary


def shards(ck, exe, args, timeout, n=None, env=None, prefix="", tag="", tsan=False):
    n = n or NCPU
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(harness, ck, exe, list(args) + ["--seed", SEED, "--shard", "%d/%d" % (i, n)], timeout, env, prefix, tag, (0,), tsan) for i in range(n)]
        return [f.result() for f in fs]


def parallel(fns, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]


def main(pid, fn):
    ck = Check(pid)
    try:
        fn(ck)
        rc = ck.finish()
    except Exception as e:
        if ck.t_viol is not None:  # a violation was already witnessed; the rest of the run does not take it back
            try:
                rc = ck.finish()
            except HarnessError:
                rc = 2
        else:
            if not isinstance(e, HarnessError):
                traceback.print_exc()
            log("HARNESS ERROR", e)
            rc = 2
    prune_build()
    sys.exit(rc)
