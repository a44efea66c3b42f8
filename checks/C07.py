"""C07: hostile inputs at the native and Python entry points."""
import os
import vlib

def pyrun(ck, pk, san, mode, cases, i, n, t, prefix, tag):
    env = {"PYTHONPATH": pk, "PYTHONMALLOC": "malloc", "PYTHONDONTWRITEBYTECODE": "1"}
    if san:
        env["LD_PRELOAD"] = vlib.san_preload("asan") + ":" + vlib.sh(["gcc", "-print-file-name=libstdc++.so.6"]).stdout.strip()
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=86:abort_on_error=0"
    vlib.harness(ck, vlib.VENV + "/bin/python", [os.path.join(vlib.VERIF, "harness/pyfuzz.py"), "--mode", mode, "--cases", cases, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)], t, env, prefix, tag)

def memcheck(ck, exe, args, t, tag):
    """The same workload under valgrind: reads of uninitialised memory (the sanitizers here cannot see those, GMP is not instrumented)."""
    cmd = ["valgrind", "-q", "--error-exitcode=85", "--leak-check=no", "--track-origins=no", "--num-callers=14", exe] + [str(a) for a in args] + ["--seed", str(vlib.SEED)]
    r = vlib.run(cmd, t)
    if r.timed_out:
        ck.note_inconclusive("memcheck run over time"); return
    if r.rc == 85 or "== Invalid" in r.err or "uninitialised" in r.err:
        import re
        kinds = re.findall(r"==\d+== ([A-Z][^\n]*)\n==\d+==    at 0x[0-9A-F]+: ([^\n(]+)", r.err)
        k = kinds[0] if kinds else ("error", "unknown")
        ck.violation("memcheck:%s:%s" % (re.sub(r"[^a-z]+", "_", k[0].lower())[:40], re.sub(r"[(<\s].*", "", k[1])), {"excerpt": r.err[:3500], "at": [l for l in r.out.splitlines() if l.startswith("@AT ")][-1:]}, " ".join(cmd))
    vlib.judge(ck, r if r.rc != 85 else type("R", (), dict(out=r.out, err="", rc=0, timed_out=False))(), cmd, "memcheck_", tag)

def check(ck):
    ck.rule = ("one case = one call with hostile arguments: discriminants of any sign, size, residue and factorisation (numbers and, in Python, arbitrary strings), elements and blobs that are canonical, mutated, raw, short or long, counts/sizes/depths over the 64-bit range, null pointers, wrong Python types; "
               "watched by ASan+UBSan (gcc and clang builds, exact-size heap buffers, sanitized Python extension), valgrind memcheck for uninitialised reads, and a CPU-time limit per call; distinct by argument tuple")
    ck.assumptions = ["a call with at most 1030-bit discriminants and small counts that uses 60 s of CPU hangs", "allocations above 4 GB are made to fail with bad_alloc in the native harness", "GMP itself is trusted"]
    gcc, cl, pl, pk, pkp = vlib.build_many([lambda: vlib.program("c07", ["c07.cpp"], "asan"), lambda: vlib.program("c07", ["c07.cpp"], "casan"), lambda: vlib.program("c07", ["c07.cpp"], "plain"),
                                            lambda: vlib.python_module("asan", ["-DNDEBUG"]), lambda: vlib.python_module("plain", ["-DNDEBUG"])])
    t = ck.pick(400, 7200); n = vlib.NCPU
    H = lambda exe, mode, args, i, tag: lambda: vlib.harness(ck, exe, ["--mode", mode, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)] + args, t, None, "", tag)
    jobs = [lambda: memcheck(ck, pl, ["--mode", "verify", "--cases", ck.pick(220, 6000), "--limit_ms", 600000], ck.pick(500, 7200), "memcheck:"), lambda: memcheck(ck, pl, ["--mode", "make", "--huge", 0, "--cases", ck.pick(60, 1500), "--limit_ms", 600000], ck.pick(500, 7200), "memcheck:"),
            lambda: memcheck(ck, pl, ["--mode", "tiny", "--limit", ck.pick(12, 300), "--limit_ms", 600000], ck.pick(500, 7200), "memcheck:")]
    for i in range(n):
        jobs.append(H(gcc, "verify", ["--cases", ck.pick(3200, 800000)], i, ""))
        jobs.append(H(cl, "verify", ["--cases", ck.pick(1000, 300000)], i, "clang:"))
        jobs.append(H(gcc, "tiny", ["--limit", ck.pick(420, 20000)], i, ""))
        jobs.append(H(cl, "make", ["--cases", ck.pick(2400, 200000)], i, "clang:"))
        jobs.append(lambda i=i: pyrun(ck, pk, True, "fuzz", ck.pick(400, 40000), i, n, t, "py_", "python:"))
    jobs.append(lambda: pyrun(ck, pkp, False, "huge", ck.pick(30, 1000), 0, 1, t, "py_", "python:"))
    vlib.parallel(jobs)
    ck.need("calls_verify_n", 10000); ck.need("calls_deserialize", 5000); ck.need("outcome_true", 1000); ck.need("calls_c_prove", 500); ck.need("py_returned", 800); ck.need("py_accepted", 40); ck.need("py_huge_counts", 20); ck.need("memcheck_calls_verify_n", 200)
