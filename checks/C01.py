"""C01: prove() completeness, exactness, determinism, clean failure."""
import vlib

def check(ck):
    ck.rule = ("one case = one prove call (seed, size 8..1024 bits, generator/identity/random start, T: every value 0..319, powers of two +-2, random up to 20000, ~2^16, >10^7) whose bytes are "
               "compared with direct reference squaring (or the brute-forced group order for T>10^7), whose proof is checked by the reference verifier and by all public verifiers; or one refused request")
    ck.assumptions = ["reference class group arithmetic in /verif/ref/ref.hpp", "iteration counts above ~10^7 only on 32-bit discriminants"]
    plain, asan = vlib.build_many([lambda: vlib.program("c01", ["c01.cpp"], "plain"), lambda: vlib.program("c01", ["c01.cpp"], "asan")])
    # the long >10^7 runs go alongside the ordinary shards
    vlib.parallel([
        lambda: vlib.shards(ck, plain, ["--cases", ck.pick(1500, 40000)], ck.pick(400, 7200), n=6),
        lambda: vlib.shards(ck, plain, ["--mode", "big", "--cases", ck.pick(2, 12)], ck.pick(400, 7200), n=2, prefix="big_"),
    ])
    vlib.shards(ck, plain, ["--mode", "invalid", "--cases", ck.pick(3000, 60000)], ck.pick(200, 3600), tag="")
    vlib.parallel([
        lambda: vlib.shards(ck, asan, ["--cases", ck.pick(420, 4000)], ck.pick(400, 7200), n=6, prefix="asan_", tag="asan_build:"),
        lambda: vlib.shards(ck, asan, ["--mode", "invalid", "--cases", ck.pick(600, 8000)], ck.pick(400, 7200), n=2, prefix="asan_", tag="asan_build:"),
    ])
    ck.need("proved", 300); ck.need("invalid_requests", 500); ck.need("big_order_oracle", 1)
