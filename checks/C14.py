"""C14: two-level proving."""
import vlib
from C13 import jobs_for, H, NOASM

def check(ck):
    ck.rule = ("one case = one proof returned by ProveTwoWeso for iterations below, around and past the density switch (thresholds divided by 1000; thorough: also unscaled), 1-6 concurrent requesters, requests before and after the iterations are reached, loop throttled at random and run to its documented end; "
               "depth must be 2, y must equal x^(2^T) from a group of known order (or follow from verification at full size), and both the reference and the code's verifier must accept; the loop must end by itself below the maximum")
    ck.assumptions = ["hook define with VERIF_SCALE=1000 divides kSwitchIters, kMaxItersAllowed and the block layout threshold by 1000; publication granularity stays as it is", "requests lie below the documented maximum"]
    S = ["-DVERIF_SCALE=1000"]
    sc, full, asan = vlib.build_many([lambda: vlib.program("c13s", ["c13.cpp"], "plain", NOASM + S, **H), lambda: vlib.program("c13as", ["c13.cpp"], "plain", S, asm=True, **H), lambda: vlib.program("c13s", ["c13.cpp"], "asan", NOASM + S, **H)])
    jobs = jobs_for(ck, full, "two", ck.pick(3, 60), 3, ["--big", 1, "--per", ck.pick(3, 6)], "full_size_") + jobs_for(ck, sc, "two", ck.pick(48, 8000), 6, ["--per", 8]) + jobs_for(ck, asan, "two", ck.pick(6, 300), 3, (), "asan_", "asan_build:")
    if ck.thorough:
        un = vlib.program("c13", ["c13.cpp"], "plain", NOASM, **H)
        jobs += jobs_for(ck, un, "two", 4, 2, ["--per", 10, "--limit", 7000], "unscaled_")
    vlib.parallel(jobs, 6)
    ck.need("proofs", 500); ck.need("proofs_past_threshold", 100); ck.need("proofs_small", 25); ck.need("switches_crossed", 30); ck.need("ran_to_the_end", 30); ck.need("full_size_proofs", 5)
