"""C20: proofs built from hardware values: sessions of the hardware proof engine."""
import vlib, C21

ENGINE = [s for s in C21.DRIVER if "hw_util" not in s] + C21.src("hw/hw_proof.cpp", "vdf_base_hw.cpp", "vdf_hw_symbol_anchors.cpp", "prover_runtime.cpp", "hw/emu_funcs.cpp", "hw/emu_runner.cpp")
def engine(flavor): return vlib.program("c20", ["c20.cpp"] + ENGINE, flavor, C21.HW)

def check(ck):
    ck.rule = ("one case = one session of the proof engine fed with values as the device produces them (good, repeated, corrupt in a coefficient, negative, past the target, misplaced after a restart, stalled), with requests made in any order, on time and late; evaluations are the distinct proofs it delivered; "
               "oracle: exact square of the starting form in a group of known order, and the reference verifier")
    ck.assumptions = ["the values come from a model of the device which computes the right form and then damages it", "log output and sleeping are replaced (sleeps are shortened)"]
    p, a, t = vlib.build_many([lambda f=f: engine(f) for f in ("plain", "asan", "tsan")])
    H = lambda e, m, n, k, **kw: [lambda i=i: vlib.harness(ck, e, ["--mode", m, "--seed", vlib.SEED, "--cases", n, "--shard", "%d/%d" % (i, k)], ck.pick(600, 5400), **kw) for i in range(k)]
    q = ck.pick
    vlib.parallel(H(t, "short", q(16, 240), 4, prefix="tsan_", tag="tsan_build:", tsan=True) + H(p, "long", q(20, 600), 4) + H(p, "short", q(400, 12000), 8) + H(a, "short", q(32, 800), 4, prefix="asan_", tag="asan_build:"), 8)
    for k, n in dict(sessions=350, proofs=2000, proofs_segmented=6, restarts_past_start=100, sessions_refused=5, sessions_cut_off=10, stalls=5, requests_late=100, requests_past_target=5, requests_crossing_a_checkpoint=1, asan_proofs=50, tsan_proofs=20).items(): ck.need(k, n)
