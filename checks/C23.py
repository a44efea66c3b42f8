"""C23: partial extended gcd and the gcd kernels."""
import vlib

def check(ck):
    ck.rule = ("operands of 1..1150 bits: random, built from quotient sequences (ones, small, huge, powers of two), equal, multiples, limb and sign boundaries, with bounds at, next to and between remainders; "
               "kernels: the table/continued-fraction base step, the 128-bit step (C++ and assembly), the multi-limb assembly routine, each output judged against GMP's Euclidean sequence and the matrix laws; distinct by operands")
    ck.assumptions = ["kernels are called within the operand ranges their callers establish", "a kernel may decline (its callers fall back); declining is bounded by an observation floor on completed calls"]
    plain, san = vlib.build_many([lambda: vlib.program("c23", ["c23.cpp"], "plain", asm=True), lambda: vlib.program("c23", ["c23.cpp"], "casan", asm=True)])
    n = ck.pick(60000, 1000000); t = ck.pick(300, 7200)
    vlib.shards(ck, plain, ["--mode", "xgcd", "--cases", n], t)
    vlib.shards(ck, plain, ["--mode", "base", "--cases", n], t)
    vlib.shards(ck, plain, ["--mode", "k128", "--cases", n], t)
    vlib.shards(ck, plain, ["--mode", "k128", "--base", 50, "--cases", n], t, prefix="base50_")
    vlib.shards(ck, plain, ["--mode", "unsigned", "--cases", n], t)
    vlib.shards(ck, san, ["--mode", "xgcd", "--cases", ck.pick(2000, 40000)], t, prefix="asan_", tag="asan_build:")
    ck.need("xgcd_calls", 4000); ck.need("xgcd_multi_limb", 2000); ck.need("unsigned_steps", 20000)
    for k in ("base_avx2", "base_cel", "base_cpp", "k128_avx2", "k128_cel", "base50_k128_cpp", "unsigned_avx2", "unsigned_cel"):
        ck.need(k, 4000)
    for k in ("unsigned_avx2_completed", "unsigned_cel_completed"):
        ck.need(k, 1000)
