"""C09: the accelerated squaring loop."""
import vlib

KERNELS = {"baseline": {"CHIA_DISABLE_AVX2": "1", "CHIA_DISABLE_AVX512_IFMA": "1"}, "avx2": {"CHIA_FORCE_AVX2": "1", "CHIA_DISABLE_AVX512_IFMA": "1"}, "avx512": {"CHIA_FORCE_AVX2": "1", "CHIA_FORCE_AVX512_IFMA": "1"}}

def check(ck):
    ck.rule = ("one case = one run of the squaring loop (16..1024-bit discriminants; identity, generator, random, Mersenne and small-order elements that keep returning to tiny forms; 1..26000 iterations; stop requests), "
               "every reported (index, element) compared with reference squaring of its predecessor, the published count compared with the reports from inside and from a second thread; corrupt: bits of the loop's state flipped between iterations; delay: one of the two worker threads held beyond the spin limit")
    flags = open("/proc/cpuinfo").read()
    kernels = [k for k in KERNELS if k == "baseline" or (k == "avx2" and " avx2" in flags and " adx" in flags) or (k == "avx512" and " avx512ifma" in flags)]
    ck.assumptions = ["reference squaring in /verif/ref/ref.hpp", "kernels present on this CPU: " + ", ".join(kernels), "a batch in which corruption was injected may be reported again from its start; corrupted values are judged only after that"]
    plain, san = vlib.build_many([lambda: vlib.program("c09", ["c09.cpp"], "plain", asm=True), lambda: vlib.program("c09", ["c09.cpp"], "casan", asm=True)])
    t = ck.pick(400, 7200)
    jobs = []
    n = 4
    def job(exe, k, mode, cases, i, extra=(), prefix="", tag=""):
        return lambda: vlib.harness(ck, exe, ["--mode", mode, "--kernel", k, "--cases", cases, "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)] + list(extra), t, KERNELS[k], prefix, tag)
    for k in kernels:
        for i in range(n):
            jobs.append(job(plain, k, "corrupt", ck.pick(5, 240), i))
            jobs.append(job(plain, k, "loop", ck.pick(40, 4000), i))
            jobs.append(job(plain, k, "delay", ck.pick(5, 240), i))
    for i in range(n):
        jobs.append(job(san, kernels[-1], "loop", ck.pick(8, 400), i, ["--maxn", "2000"], "asan_", "asan_build:"))
        jobs.append(job(san, "baseline", "corrupt", ck.pick(2, 60), i, ["--maxn", "10001"], "asan_", "asan_build:"))
    vlib.parallel(jobs, 5)
    ck.need("iterations_checked", 200000); ck.need("fast_reports", 60000); ck.need("slow_reports", 10000)
    ck.need("batches_replayed", 5); ck.need("delays_injected", 10); ck.need("kernel_baseline", 4)
