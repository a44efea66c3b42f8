"""C13: continuous (n-segment) proving."""
import vlib

H = dict(hooks=True)
NOASM = ["-DCHIA_DISABLE_ASM"]
def jobs_for(ck, exe, mode, cases, n, extra=(), prefix="", tag="", tsan=False, t=None, env=None):
    t = t or ck.pick(400, 7200)
    return [lambda i=i: vlib.harness(ck, exe, ["--mode", mode, "--cases", cases, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)] + list(extra), t, env, prefix, tag, tsan=tsan) for i in range(n)]

def check(ck):
    ck.rule = ("one case = one proof returned by ProverManager::Prove while the real squaring loop runs, requested by one of several threads (past, future, boundary, duplicate, tiny, segment-edge iterations) under perturbed schedules (delays injected into chosen segment provers, "
               "the event loop, storage threads, condition waits and mutex releases; loop throttled to stay within the documented window); the output must equal x^(2^T) from a group of known order (or, at full size, follow from verification) and the chain must be accepted by the reference verifier and by the code's verifier with at most 64 segments; no request may stay unanswered while the loop runs on")
    ck.assumptions = ["provers never lag more than the documented 20 segments behind the loop (the harness holds the loop back)", "waits longer than 0.5 s are shortened by moving the process's clock, so a request that waits out the one-minute retry counts as answered late, not unanswered", "iteration counts stay within what 64 segments of the configured lengths can cover"]
    na, big, asan = vlib.build_many([lambda: vlib.program("c13", ["c13.cpp"], "plain", NOASM, **H), lambda: vlib.program("c13a", ["c13.cpp"], "plain", asm=True, **H), lambda: vlib.program("c13", ["c13.cpp"], "asan", NOASM, **H)])
    jobs = jobs_for(ck, big, "n", ck.pick(3, 60), 3, ["--big", 1, "--windows", ck.pick(8, 40)], "full_size_")
    jobs += jobs_for(ck, na, "n", ck.pick(30, 4000), 6) + jobs_for(ck, asan, "n", ck.pick(4, 200), 2, ["--windows", ck.pick(8, 24)], "asan_", "asan_build:")
    jobs = jobs_for(ck, na, "long", ck.pick(4, 160), 4, (), "", "") + jobs
    vlib.parallel(jobs, 6)
    ck.need("proofs", 250); ck.need("runs_frozen", 4); ck.need("freezes", 300); ck.need("first_halves_held", 12); ck.need("runs_long_reach", 2); ck.need("runs_long_one", 2); ck.need("long_proofs_past_the_limit", 4); ck.need("long_segments_held_back", 1); ck.need("runs_background", 8); ck.need("runs_direct", 8); ck.need("segments_finished_out_of_order", 15); ck.need("segments_after_window_wrap", 20); ck.need("stalls_injected", 40); ck.need("proofs_past", 20); ck.need("proofs_boundary", 20); ck.need("proofs_duplicate", 10); ck.need("full_size_proofs", 10)
