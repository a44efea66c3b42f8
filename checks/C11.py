"""C11: timelord client sessions, from the other end of the socket."""
import os
import vlib

NOASM = ["-DCHIA_DISABLE_ASM"]; SC = ["-DVERIF_SCALE=1000"]
def client(flavor="plain", asm=False, scale=True): return vlib.program("clienta" if asm else "client", ["client_main.cpp"], flavor, ([] if asm else NOASM) + (SC if scale else []), hooks=True, asm=asm)
def judge(): return vlib.program("judge", ["judge.cpp"])
def peer(ck, exe, jd, mode, cases, n, extra=(), prefix="", tag="", t=None):
    t = t or ck.pick(420, 7200)
    return [lambda i=i: vlib.harness(ck, vlib.VENV + "/bin/python", [os.path.join(vlib.VERIF, "harness/peer.py"), "--exe", exe, "--judge", jd, "--mode", mode, "--cases", cases, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)] + list(extra), t, {"PYTHONDONTWRITEBYTECODE": "1"}, prefix, tag) for i in range(n)]

def check(ck):
    ck.rule = ("one case = one reply of a live vdf_client process to one iteration request in a session over loopback (types S, N, T; discriminants of 20..1024 bits; requests past, future, repeated, out of order, in bursts, over a hundred, at boundaries and limits; stop with or without outstanding requests; "
               "partial socket reads and writes, held-up threads): every frame must parse, every admissible request must be answered as often as it was made and no other, each proof must verify and, where the group's order is known, state the true output; then STOP/ACK and exit 0")
    ck.assumptions = ["the squaring loop is slowed down so that provers stay within the documented window", "most 2-weso sessions run with the iteration limits divided by 1000 (hook)", "a reply is missing after 120 s plus three times the time the iterations should take"]
    P, A, PA, PU, J = vlib.build_many([client, lambda: client("asan"), lambda: client(asm=True), lambda: client(asm=True, scale=False), judge])
    jobs = peer(ck, PU, J, "good", ck.pick(3, 60), 1, ["--types", "T", "--scale", 1, "--bits", "big", "--workers", 3], "unscaled_") + peer(ck, PA, J, "good", ck.pick(12, 600), 1, ["--bits", "big", "--rate", 60000, "--workers", 3], "full_size_")
    jobs += peer(ck, P, J, "good", ck.pick(60, 9000), 3, ["--workers", 3]) + peer(ck, A, J, "good", ck.pick(16, 1500), 2, ["--san", "asan", "--slow", 3, "--rate", 80000, "--workers", 2], "asan_", "asan_build:")
    jobs = peer(ck, PU, J, "displaced", ck.pick(1, 24), 1, ["--workers", 1]) + jobs
    vlib.parallel(jobs, 8)
    ck.need("displaced_far_ahead", 2); ck.need("displacing_answered", 3)
    for s in "SNT": ck.need("sessions_" + s, 20)
    ck.need("replies_N", 100); ck.need("replies_T", 300); ck.need("replies_S", 12); ck.need("sessions_over_a_hundred", 5); ck.need("stopped_early", 10); ck.need("unanswered_at_stop", 20); ck.need("refused_T", 50); ck.need("sessions_answered_out_of_order", 15); ck.need("sessions_with_partial_io", 20); ck.need("full_size_replies_N", 10)
