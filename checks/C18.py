"""C18: re-entrancy, buffer integrity and memory of the C API."""
import vlib

def check(ck):
    ck.rule = ("one case = a pool of create/prove/verify calls, valid and failing, driven from 8 threads at once (a third of them on identical arguments), inputs in read-only pages that end or start at inaccessible ones; every answer compared with the reference's, not with another run; "
               "results held and released out of order across threads; live bytes/blocks of operator new and GMP compared over repeated identical calls; same workloads under TSan and ASan+LSan")
    ck.assumptions = ["reference answers from /verif/ref/ref.hpp", "GMP is not instrumented: races inside it are seen only through its allocations"]
    pl, asan, tsan, acc = vlib.build_many([lambda: vlib.program("c18", ["c18.cpp"], "plain"), lambda: vlib.program("c18", ["c18.cpp"], "asan"), lambda: vlib.program("c18", ["c18.cpp"], "tsan"), lambda: vlib.program("c18a", ["c18.cpp"], "plain", ["-DACCOUNT"])])
    t = ck.pick(300, 7200); n = 4
    J = lambda exe, mode, cases, i, extra=(), prefix="", tag="", ts=False: lambda: vlib.harness(ck, exe, ["--mode", mode, "--cases", cases, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)] + list(extra), t, None, prefix, tag, tsan=ts)
    jobs = []
    for i in range(n):
        jobs += [J(pl, "threads", ck.pick(60, 6000), i), J(pl, "lifetime", ck.pick(80, 8000), i), J(asan, "threads", ck.pick(16, 1200), i, ["--guarded", 0], "asan_", "asan_build:"), J(asan, "lifetime", ck.pick(16, 1200), i, (), "asan_", "asan_build:"),
                 J(tsan, "threads", ck.pick(24, 2000), i, ["--guarded", 0, "--heavy", 0], "tsan_", "tsan:", True), J(tsan, "lifetime", ck.pick(16, 1000), i, (), "tsan_", "tsan:", True), J(acc, "account", ck.pick(80, 8000), i)]
    vlib.parallel(jobs, 4)
    ck.need("overlapping_calls", 5000); ck.need("tsan_overlapping_calls", 2000); ck.need("results_held", 500); ck.need("accounted_calls", 5000); ck.need("calls_prove_refused", 300)
