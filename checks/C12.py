"""C12: malformed and vanishing peers of the timelord client."""
import vlib
from C11 import client, judge, peer

def check(ck):
    ck.rule = ("one case = one connection whose peer breaks the protocol or leaves: disconnect (FIN, reset, half-close, unread data) at every phase and while proofs are being computed, wrong type/size/number fields, discriminants of every sign, size, residue and factorisation, arbitrary start elements, oversized iteration counts, "
               "random bytes, mutated valid scripts; the client must end by itself with status 0 or 1, without sanitizer or memcheck report, and send no reply that was not asked for; distinct by script")
    ck.assumptions = ["memory is limited to 6 GB in the uninstrumented builds: allocations above that fail with bad_alloc", "a client still running 60 s (180 s instrumented) after its peer left does not end by itself"]
    P, A, PA, AA, J = vlib.build_many([client, lambda: client("asan"), lambda: client(asm=True), lambda: client("asan", True), judge])
    mc = ["--wrap", "valgrind -q --error-exitcode=85 --leak-check=no --num-callers=14", "--workers", 1, "--slow", 4]
    jobs = []
    for ph in ("type", "size", "form"): jobs += peer(ck, P, J, "bad", ck.pick(8 if ph == "type" else 3, 60), 1, mc + ["--phase", ph], "memcheck_", "memcheck:")
    jobs += peer(ck, A, J, "bad", ck.pick(132, 12000), 2, ["--san", "asan", "--slow", 3, "--workers", 8], "", "asan_build:") + peer(ck, P, J, "bad", ck.pick(198, 24000), 2, ["--as_gb", 6, "--workers", 8])
    jobs += peer(ck, AA, J, "bad", ck.pick(66, 6000), 1, ["--san", "asan", "--slow", 3, "--workers", 8], "", "asan_asm:") + peer(ck, PA, J, "bad", ck.pick(66, 12000), 1, ["--as_gb", 6, "--workers", 8, "--bits", "big"])
    for e, sl in ((AA, ["--san", "asan", "--slow", 3]), (PA, ["--as_gb", 6])): jobs += peer(ck, e, J, "bad", ck.pick(120, 12000), 1, sl + ["--workers", 8, "--phase", "hostile_disc"])
    vlib.parallel(jobs, 7)
    for p in ("type", "size", "disc", "form", "badform", "idle", "header", "digits", "wrap", "burst", "stop", "ack", "huge", "garbage", "unread", "halfclose", "random"): ck.need("phase_" + p, 15)
    ck.need("phase_work", 60); ck.need("phase_hostile_disc", 200); ck.need("hostile_accepted_badform", 3); ck.need("closing_rst", 60); ck.need("closing_rst_unread", 60); ck.need("closing_half", 60); ck.need("closing_fin", 60); ck.need("replies_judged", 12); ck.need("memcheck_phase_type", 3)
