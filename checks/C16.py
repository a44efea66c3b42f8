"""C16: stopping."""
import os, shutil, tempfile
import vlib
from C13 import jobs_for, H, NOASM

def check(ck):
    ck.rule = ("one case = one call stopped (or deliberately not stopped) at a random moment: the one-shot prover by removing its shutdown file (absent, removed before, during, late, never, a directory, an unreachable path), simple proving while squaring or while proving, single two-level requests among concurrent ones, "
               "and whole continuous-proving stacks with requests, paused and stalled provers pending; it must return within 20-30 s (calls that would otherwise run for minutes), empty or with a complete valid proof, unstopped requests must get valid proofs, and everything must join; for every prover kind and the squaring loop, the work done after a stop is also counted in stored values looked at (at most 1/16 of the pass, 256 at least; 65536 iterations for the loop); repeated under ASan with leak checking")
    ck.assumptions = ["'promptly' is judged by wall time with limits of 20 s per call against a few hundred ms usually seen", "threads are held up just before blocking on condition variables to expose lost notifications"]
    S = ["-DVERIF_SCALE=1000"]
    na, sc, asan, asans = vlib.build_many([lambda: vlib.program("c13", ["c13.cpp"], "plain", NOASM, **H), lambda: vlib.program("c13s", ["c13.cpp"], "plain", NOASM + S, **H),
                                           lambda: vlib.program("c13", ["c13.cpp"], "asan", NOASM, **H), lambda: vlib.program("c13s", ["c13.cpp"], "asan", NOASM + S, **H)])
    d = tempfile.mkdtemp(prefix="c16.", dir=vlib.TMP if hasattr(vlib, "TMP") else None)
    try:
        D = ["--dir", d]; A = dict(prefix="asan_", tag="asan_build:")
        jobs = jobs_for(ck, na, "nstop", ck.pick(160, 20000), 3) + jobs_for(ck, sc, "two", ck.pick(30, 3000), 3, ["--stops", 1]) + jobs_for(ck, na, "one", ck.pick(60, 6000), 2, ["--stops", 1]) + jobs_for(ck, na, "one", ck.pick(30, 3000), 1) + jobs_for(ck, na, "slow", ck.pick(120, 6000), 3, D)
        jobs += jobs_for(ck, asan, "nstop", ck.pick(24, 2000), 1, **A) + jobs_for(ck, asan, "slow", ck.pick(24, 600), 1, D, **A) + jobs_for(ck, asan, "one", ck.pick(10, 600), 1, ["--stops", 1, "--big", 0], **A) + jobs_for(ck, asans, "two", ck.pick(4, 300), 1, ["--stops", 1], **A)
        jobs = jobs_for(ck, na, "steps", ck.pick(32, 4000), 3) + jobs_for(ck, sc, "steps", ck.pick(12, 1500), 1, ["--kind", 4]) + jobs
        vlib.parallel(jobs, 7)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ck.need("stopped_without_proof", 300); ck.need("stopped_while_running", 10); ck.need("stops_in_proof_phase", 15); ck.need("runs_nstop", 120); ck.need("requests_waiting_at_stop", 200); ck.need("condition_waits_delayed", 50); ck.need("proofs_one", 20); ck.need("stopped_requests", 20); ck.need("proofs", 150); ck.need("stops_counted_in_steps", 36)
