"""C10: stored intermediates."""
import vlib

def check(ck):
    ck.rule = ("one case = one history of iterations handed to a storing callback (by the real loop or by a feeder giving possibly unreduced elements): the elements every prover of every finished segment asks for, checkpoints, results and two-level positions "
               "(before, at and after the density switch, thresholds scaled by 1000 for full runs and at full scale for positions) read through the provers' own accessors during and after the run and compared with x^(2^e) from a group of known order or a recorded sequence")
    ck.assumptions = ["retained window = the last 20 segments of each length, as documented", "hook define CHIAVDF_VERIF_HOOKS with VERIF_SCALE=1000 divides the two-level thresholds for full runs; full-scale positions are checked without scaling"]
    H = dict(asm=True, hooks=True)
    plain, scaled, asan = vlib.build_many([lambda: vlib.program("c10", ["c10.cpp"], "plain", **H), lambda: vlib.program("c10s", ["c10.cpp"], "plain", ["-DVERIF_SCALE=1000"], **H),
                                           lambda: vlib.program("c10", ["c10.cpp"], "asan", **H)])
    t = ck.pick(400, 7200)
    jobs = []
    def add(exe, mode, cases, n, *extra, prefix="", tag=""):
        for i in range(n):
            jobs.append(lambda i=i: vlib.harness(ck, exe, ["--mode", mode, "--cases", cases, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)] + list(extra), t, None, prefix, tag))
    add(plain, "one", 1, 1, "--big", "1")
    add(scaled, "two", ck.pick(2, 40), 2)
    add(plain, "loop", ck.pick(2, 8), 2, "--maxn", ck.pick("70000", "400000"))
    add(plain, "storage", ck.pick(6, 400), 3); add(plain, "direct", ck.pick(6, 400), 3); add(plain, "one", ck.pick(45, 4000), 3)
    add(plain, "twofull", 1 if not ck.thorough else 8, 1)
    add(asan, "storage", 2, 1, "--maxn", "140000", prefix="asan_", tag="asan_build:"); add(asan, "direct", 2, 1, "--maxn", "160000", prefix="asan_", tag="asan_build:"); add(asan, "one", 10, 1, prefix="asan_", tag="asan_build:")
    vlib.parallel(jobs, 8)
    ck.need("values_one", 5000); ck.need("values_direct", 3000); ck.need("values_storage", 3000); ck.need("values_storage_edge", 1500); ck.need("freezes", 300); ck.need("direct_segments_after_wrap", 4); ck.need("values_two", 5000); ck.need("switches_crossed", 1); ck.need("values_twofull", 3000)
