"""C24: signals handled by the process leave every operation undisturbed."""
import os, vlib
from C09 import KERNELS
from C13 import jobs_for, H

ST = ["-DVH_STORM"]
def check(ck):
    ck.rule = ("the workloads of the squaring-loop, gcd-kernel, one-shot-proving, verification and continuous-proving checks (each value compared with the reference as there) while another thread sends handled signals to all threads as fast as it can and the handler writes over its stack; "
               "Python: every answer under an interval timer, with handlers that return and handlers that raise, equal to the undisturbed one; signals are counted by where they arrived")
    flags = open("/proc/cpuinfo").read()
    kernels = [k for k in KERNELS if k == "baseline" or (k == "avx2" and " avx2" in flags and " adx" in flags) or (k == "avx512" and " avx512ifma" in flags)]
    ck.assumptions = ["handlers run on the interrupted thread's stack, as they do unless a program installs an alternate one", "signals are handled, not left to their default action", "kernels present on this CPU: " + ", ".join(kernels)]
    c23, c09, c13, c13s, c01, c02, pk = vlib.build_many([lambda: vlib.program("c23st", ["c23.cpp"], "plain", ST, asm=True), lambda: vlib.program("c09st", ["c09.cpp"], "plain", ST, asm=True), lambda: vlib.program("c13ast", ["c13.cpp"], "plain", ST, asm=True, **H), lambda: vlib.program("c13asst", ["c13.cpp"], "plain", ST + ["-DVERIF_SCALE=1000"], asm=True, **H),
                                                  lambda: vlib.program("c01st", ["c01.cpp"], "plain", ST), lambda: vlib.program("c02st", ["c02.cpp"], "plain", ST), lambda: vlib.python_module("plain", ["-DNDEBUG"])])
    t = ck.pick(400, 7200); S = ["--storm", 60]; jobs = []
    for m, n in (("k128", ck.pick(40000, 2000000)), ("unsigned", ck.pick(60000, 2000000)), ("base", ck.pick(20000, 1000000))):
        jobs += jobs_for(ck, c23, m, n, 2, S, "", "signals:", t=t)
    for k in kernels:
        jobs += jobs_for(ck, c09, "loop", ck.pick(24, 3000), 2, ["--kernel", k] + S, "", "signals:", t=t, env=KERNELS[k])
    for m, n in (("n", ck.pick(2, 60)), ("one", ck.pick(4, 600))):
        jobs += jobs_for(ck, c13, m, n, 2, ["--big", 1, "--windows", ck.pick(6, 40), "--storm", 400], "proving_", "signals:", t=t)
    jobs += jobs_for(ck, c13s, "two", ck.pick(2, 60), 2, ["--big", 1, "--per", 3, "--storm", 400], "proving_", "signals:", t=t)
    jobs += jobs_for(ck, c01, "", ck.pick(200, 8000), 2, S, "", "signals:", t=t) + jobs_for(ck, c02, "simple", ck.pick(400, 20000), 2, S, "", "signals:", t=t)
    env = {"PYTHONPATH": pk, "PYTHONDONTWRITEBYTECODE": "1"}; n = 2
    jobs += [lambda i=i: vlib.harness(ck, vlib.VENV + "/bin/python", [os.path.join(vlib.VERIF, "harness/pysignals.py"), "--cases", ck.pick(40, 3000), "--seed", vlib.SEED, "--shard", "%d/%d" % (i, n)], t, env, "", "") for i in range(n)]
    vlib.parallel(jobs, 4)
    ck.need("signals_handled", 100000); ck.need("signals_in_gcd_unsigned", 300); ck.need("signals_in_gcd_128", 60); ck.need("signals_in_gcd_base", 6); ck.need("iterations_checked", 40000); ck.need("proved", 60); ck.need("proving_proofs", 20); ck.need("py_calls_interrupted", 60); ck.need("py_handler_raised", 4)
