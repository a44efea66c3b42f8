"""C04: verifier verdicts against the definition (mode withb)."""
import vlib

RULES = {
 "simple": "honest depth-0 statements (reference-built; unknown and known group order, T over all 64 bits) and mutants of every field (T, bytes, related elements, swaps, lengths, depths, discriminants, proofs for another prime); one case = one statement judged on the direct, C, seeded and simple surfaces against the reference equation",
 "chain": "reference-built chains of depth 0..64 (64-bit segment counts in groups of known order) and structural mutants: dropped, duplicated, swapped, merged, shifted segments, primes altered or freely chosen with every local equation satisfied, sums that exceed the total or wrap 64 bits, discontinuities, depth and length lies",
 "withb": "chains and mutants: extracted prime, verification under it and full verification compared with each other and with the reference; other primes (neighbours, small, negative, prime+order), altered blobs, lengths and depths; failure must carry an empty output",
}

def check(ck):
    ck.rule = RULES["withb"] + "; distinct by (discriminant, start, blob, T, depth[, prime])"
    ck.assumptions = ["reference verifier and group arithmetic in /verif/ref/ref.hpp", "prime discriminants = 1 mod 8 of 5..1024 bits; iteration counts above 700 only in groups of at most 44 bits"]
    plain, asan = vlib.build_many([lambda: vlib.program("c02", ["c02.cpp"], "plain"), lambda: vlib.program("c02", ["c02.cpp"], "asan")])
    vlib.shards(ck, plain, ["--mode", "withb", "--cases", ck.pick(440, 16000)], ck.pick(400, 7200))
    vlib.shards(ck, asan, ["--mode", "withb", "--cases", ck.pick(32, 720)], ck.pick(400, 7200), prefix="asan_", tag="asan_build:")
    ck.need("statements_valid", 150); ck.need("statements_invalid", 1000)
    ck.need("with_b_valid", 150); ck.need("with_b_invalid", 1000); ck.need("primes_refused", 100); ck.need("output_bytes_identical", 100)
