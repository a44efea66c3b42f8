"""C15: data races in concurrent proving (ThreadSanitizer)."""
import vlib
from C13 import jobs_for, H, NOASM
from C11 import client, judge, peer

def check(ck):
    ck.rule = ("one case = one proof or one start-to-teardown run of continuous proving (direct and background storing), simple and two-level proving, with stops at random moments, and whole client sessions, ended properly or cut off while proving, under ThreadSanitizer with injected delays that add no ordering of their own; any race report is a violation")
    ck.assumptions = ["the hand-written assembly kernels and their spin threads are outside ThreadSanitizer's view: builds use CHIA_DISABLE_ASM, the portable squaring loop", "GMP is uninstrumented: races on limb data are seen only through the instrumented mpz headers and allocations"]
    S = ["-DVERIF_SCALE=1000"]
    t, ts, cl, jd = vlib.build_many([lambda: vlib.program("c13", ["c13.cpp"], "tsan", NOASM, **H), lambda: vlib.program("c13s", ["c13.cpp"], "tsan", NOASM + S, **H), lambda: client("tsan"), judge])
    J = lambda *a: jobs_for(ck, *a, tag="tsan:", tsan=True)
    jobs = J(t, "n", ck.pick(14, 1200), 4, ["--windows", ck.pick(8, 24)]) + J(ts, "two", ck.pick(6, 300), 2) + J(ts, "two", ck.pick(6, 300), 1, ["--stops", 1]) + J(t, "one", ck.pick(8, 600), 1, ["--big", 0]) + J(t, "one", ck.pick(8, 600), 1, ["--stops", 1, "--big", 0]) + J(t, "nstop", ck.pick(36, 4000), 3)
    T = ["--san", "tsan", "--slow", 6, "--rate", 60000, "--workers", 3]
    jobs += peer(ck, cl, jd, "good", ck.pick(16, 1200), 1, T, "client_", "tsan_client:") + peer(ck, cl, jd, "bad", ck.pick(20, 2000), 1, T + ["--phase", "work"], "client_", "tsan_client:")
    vlib.parallel(jobs, 5)
    ck.need("proofs", 80); ck.need("runs_n", 10); ck.need("runs_background", 4); ck.need("runs_direct", 4); ck.need("runs_nstop", 20); ck.need("stopped_without_proof", 20); ck.need("runs_two", 8); ck.need("client_phase_work", 15); ck.need("client_sessions_N", 3); ck.need("client_sessions_T", 3)
