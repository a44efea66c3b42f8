"""C22: the hardware client, from the other end of its sockets, on an emulated device with a faulty transport."""
import os
import vlib, C21, C11

SRCS = [s for s in C21.DRIVER] + C21.src("hw/hw_vdf_client.cpp", "hw/hw_proof.cpp", "hw/emu_runner.cpp", "vdf_base_hw.cpp", "vdf_hw_symbol_anchors.cpp", "prover_runtime.cpp")
def client(flavor): return vlib.program("c22", ["c22_shim.cpp"] + SRCS, flavor, C21.HW + ["-DCHIAVDF_VERSION=\"dev\""], link_extra=("-Wl,--wrap=read", "-Wl,--wrap=write"))
def peer(ck, exe, jd, cases, n, extra=(), prefix="", tag="", t=None):
    return [lambda i=i: vlib.harness(ck, vlib.VENV + "/bin/python", [os.path.join(vlib.VERIF, "harness/hwpeer.py"), "--exe", exe, "--judge", jd, "--cases", cases, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)] + list(extra), t or ck.pick(600, 7200), {"PYTHONDONTWRITEBYTECODE": "1"}, prefix, tag) for i in range(n)]

def check(ck):
    ck.rule = ("one case = one reply of the live hardware client, or one hostile session it survived, or one command line; a client process serves one to three connections at once, each with a script of good sessions (requests past, future, repeated, out of reach, split) and bad ones (vanishing, half-closed, malformed, pipelined, hostile), "
               "on the emulated device behind a transport that fails, truncates, repeats and damages status reads: every request is answered as often as it was made and no other, every proof verifies (and states the true output where the group's order is known), and the process leaves only when told, with exit 0")
    ck.assumptions = ["commands written to the device arrive", "a damaged status read spares the job number and the iteration count, and groups small enough for random damage to hit another form see none", "sleeps are shortened", "a reply is missing after 150 s plus three times the time the iterations should take"]
    P, A, T, J = vlib.build_many([lambda: client("plain"), lambda: client("asan"), lambda: client("tsan"), C11.judge]); q = ck.pick
    jobs = peer(ck, P, J, q(6, 160), 1, ["--span", 6, "--bad", .1, "--workers", 2], "long_") + peer(ck, T, J, q(12, 300), 1, ["--san", "tsan", "--slow", 4, "--workers", 3], "tsan_", "tsan_build:") + peer(ck, A, J, q(12, 500), 1, ["--san", "asan", "--slow", 3, "--workers", 3], "asan_", "asan_build:")
    jobs += peer(ck, P, J, q(60, 5000), 2, ["--workers", 4]) + peer(ck, P, J, q(6, 120), 1, ["--bits", "big", "--rate", 40000, "--workers", 2], "full_size_") + peer(ck, P, J, q(2000, 60000), 1, ["--mode", "cli", "--workers", 2]) + peer(ck, A, J, q(200, 4000), 1, ["--mode", "cli", "--workers", 2, "--slow", 3], "asan_", "asan_build:")
    vlib.parallel(jobs, 5)
    for k, n in dict(processes=60, sessions_good=80, sessions_bad=100, replies_judged=400, sessions_stopped=60, stops_during_sessions=6, stops_idle=30, listener_gone=6, restarts=200, reads_failed=200, reads_corrupt=200, reads_stalled=500, io_disturbed=3000, long_replies_segmented=20, tsan_replies=20, asan_replies=20, full_size_replies=3, cli_taken=500, cli_refused=500).items(): ck.need(k, n)
