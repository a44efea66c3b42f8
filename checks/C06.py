"""C06: canonical compressed encoding."""
import vlib

def check(ck):
    ck.rule = ("elements: all reduced forms of every prime discriminant = 1 mod 8 below a bound and of scattered 18..29-bit ones, random/structured forms up to 1024 bits, constructed elements whose common factor g and b0 span 1..13 bytes; strings: canonical, sign/flag/bit/size/padding "
               "mutants, other representatives, inflated b0, foreign discriminants, random; each decoded strict and lenient and compared with an independent decoder and with uniqueness; distinct by (D,element) or (D,string)")
    ck.assumptions = ["reference encoder follows the documented layout; the choice of the cofactor t is the frozen 63-bit Lehmer sequence", "flagged (identity/generator) strings are exempt from uniqueness"]
    plain, asan = vlib.build_many([lambda: vlib.program("c06", ["c06.cpp"], "plain"), lambda: vlib.program("c06", ["c06.cpp"], "asan")])
    vlib.shards(ck, plain, ["--mode", "exhaustive", "--limit", ck.pick(9000, 400000)], ck.pick(300, 7200), prefix="exhaustive_")
    vlib.shards(ck, plain, ["--mode", "medium", "--cases", ck.pick(16, 1000)], ck.pick(300, 7200), prefix="medium_")
    vlib.shards(ck, plain, ["--cases", ck.pick(800, 100000)], ck.pick(300, 7200))
    vlib.shards(ck, asan, ["--cases", ck.pick(96, 8000)], ck.pick(300, 7200), prefix="asan_", tag="asan_build:")
    ck.need("exhaustive_forms_enumerated", 5000); ck.need("elements", 2000); ck.need("strict_accepted", 1000); ck.need("elements_with_g_of_3_or_more_bytes", 40)
