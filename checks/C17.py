"""C17: hash-to-prime and the primality test."""
import vlib

def check(ck):
    ck.rule = ("every integer below a limit against a sieve; constructed primes (Proth, Mersenne, residue-heavy) and composites (squares, close primes, (k+1)(mk+1), Carmichael, Arnault, Lucas-shaped, published pseudoprimes) of 17..1024 bits; "
               "hash inputs (1..300 byte seeds, carries, cycling seeds) x lengths x bit masks, and challenges of element pairs, against an independent SHA-256 expansion; distinct by number or by (seed,length,mask)")
    ck.assumptions = ["composites are composite by construction; primality of other numbers by 13-base Miller-Rabin (deterministic below 2^80) and GMP above", "up to 1024 bits"]
    plain, asan = vlib.build_many([lambda: vlib.program("c17", ["c17.cpp"], "plain"), lambda: vlib.program("c17", ["c17.cpp"], "asan")])
    vlib.shards(ck, plain, ["--mode", "sieve", "--limit", ck.pick(1 << 23, 1 << 28)], ck.pick(300, 7200), prefix="sieve_")
    vlib.shards(ck, plain, ["--mode", "numbers", "--cases", ck.pick(500, 40000)], ck.pick(300, 7200))
    vlib.shards(ck, plain, ["--mode", "hash", "--cases", ck.pick(2400, 200000)], ck.pick(300, 7200))
    vlib.parallel([lambda: vlib.shards(ck, asan, ["--mode", "numbers", "--cases", ck.pick(32, 2000)], ck.pick(300, 7200), n=4, prefix="asan_", tag="asan_build:"),
                   lambda: vlib.shards(ck, asan, ["--mode", "hash", "--cases", ck.pick(240, 8000)], ck.pick(300, 7200), n=4, prefix="asan_", tag="asan_build:")])
    ck.need("strong_pseudoprimes_base2", 100); ck.need("primes", 1000); ck.need("composites", 3000); ck.need("hashes", 1000); ck.need("challenges", 300)
