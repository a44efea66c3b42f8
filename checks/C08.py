"""C08: class group composition, squaring, reduction, powering."""
import vlib

def check(ck):
    ck.rule = ("every ordered pair of elements of every class group with squarefree |D| = 3 mod 4 below a bound; random and structured pairs (equal, inverse, identity, ambiguous, shared factors, tiny) for prime and composite discriminants "
               "of 8..2048 bits at limb boundaries; unreduced representatives by random SL2(Z) words; exponents 0..264 bits. Each result compared with the reference (Cohen) composition/reduction and with group laws; distinct by (D, operands)")
    ck.assumptions = ["reference arithmetic in /verif/ref/ref.hpp", "primitive forms of odd discriminants; the squaring routines documented for prime discriminants only are given those"]
    plain, asan = vlib.build_many([lambda: vlib.program("c08", ["c08.cpp"], "plain"), lambda: vlib.program("c08", ["c08.cpp"], "asan")])
    vlib.shards(ck, plain, ["--mode", "exhaustive", "--limit", ck.pick(2600, 40000)], ck.pick(300, 7200), prefix="exhaustive_")
    vlib.shards(ck, plain, ["--cases", ck.pick(900, 60000)], ck.pick(300, 7200))
    vlib.parallel([lambda: vlib.shards(ck, asan, ["--mode", "exhaustive", "--limit", ck.pick(400, 2000)], ck.pick(300, 7200), n=3, prefix="asan_", tag="asan_build:"),
                   lambda: vlib.shards(ck, asan, ["--cases", ck.pick(72, 6000)], ck.pick(300, 7200), n=5, prefix="asan_", tag="asan_build:")])
    ck.need("exhaustive_group_elements", 2000); ck.need("op_nucomp", 3000); ck.need("op_power", 1000); ck.need("ambiguous_operands", 50)
