// C17: hash-to-prime and the primality test. Modes: sieve (all small n), numbers (constructed), hash.
#include "cut.hpp"
using vh::Rng; using ref::Z; using ref::Bytes; using ref::Form;

static int verdict(const Z& n) { return is_prime_bpsw(n.get_mpz_t()) != 0; }
static bool mr2(const Z& n) {     // strong probable prime to base 2 (counts how deep a composite gets)
    Z d = n - 1; unsigned s = 0; while (d % 2 == 0) { d /= 2; s++; }
    Z b; mpz_powm(b.get_mpz_t(), Z(2).get_mpz_t(), d.get_mpz_t(), n.get_mpz_t()); if (b == 1 || b == n - 1) return true;
    for (unsigned i = 1; i < s; i++) { b = b * b % n; if (b == n - 1) return true; } return false;
}
// deterministic below 3.3e24, GMP's own 60-round test above
static bool truth(const Z& n) {
    if (n < 2) return false;
    static const unsigned P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41};
    for (unsigned p : P) { if (n == p) return true; if (n % p == 0) return false; }
    Z d = n - 1; unsigned s = 0; while (d % 2 == 0) { d /= 2; s++; }
    for (unsigned a : P) { Z b; mpz_powm(b.get_mpz_t(), Z(a).get_mpz_t(), d.get_mpz_t(), n.get_mpz_t()); if (b == 1 || b == n - 1) continue; bool ok = false; for (unsigned i = 1; i < s && !ok; i++) { b = b * b % n; ok = b == n - 1; } if (!ok) return false; }
    return ref::nbits(n) < 81 ? true : mpz_probab_prime_p(n.get_mpz_t(), 60) != 0;
}
static void judge(const Z& n, int known, const char* what) {   // known: 0 composite by construction, 1 prime by construction, -1 decide
    vh::at("number", n.get_str(10) + " (" + what + ")");
    bool want = known >= 0 ? known : truth(n);
    bool got = verdict(n);
    vh::eval(vh::fnv(n.get_str(16))); vh::count(want ? "primes" : "composites"); vh::count(std::string("family_") + what);
    if (!want && n > 65536 && n % 2 == 1 && mr2(n)) { vh::count("strong_pseudoprimes_base2"); vh::maxi("strong_pseudoprime_bits", ref::nbits(n)); static std::atomic<int> c{0}; if (c++ < 3) vh::sample("strong pseudoprime " + n.get_str(10) + " (" + what + ")"); }
    if (got != want) vh::viol(want ? "prime_rejected" : "composite_accepted", n.get_str(10) + " (" + what + ")");
}
static Z rp(Rng& r, unsigned bits) { if (bits < 3) bits = 3; while (true) { Z p = gen::rnd_bits(r, bits) | 1; mpz_setbit(p.get_mpz_t(), bits - 1); mpz_nextprime(p.get_mpz_t(), p.get_mpz_t()); if (ref::nbits(p) <= bits + 1) return p; } }

int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv);
    if (o.mode == "sieve") {
        // every n of this shard's blocks, against a sieve
        const uint64_t lim = o.num("limit", 1 << 22), B = 1 << 16;
        std::vector<bool> comp(lim + 1, false); comp[0] = comp[1] = true;
        for (uint64_t p = 2; p * p <= lim; p++) if (!comp[p]) for (uint64_t q = p * p; q <= lim; q += p) comp[q] = true;
        for (uint64_t b = 0; b * B < lim; b++) if (b % o.nshards == o.shard) {
            for (uint64_t n = b * B; n < std::min(lim, (b + 1) * B); n++) {
                if (n == 0) continue;
                Z z; mpz_set_ui(z.get_mpz_t(), n); bool got = verdict(z);
                if (got == comp[n]) vh::viol(comp[n] ? "composite_accepted" : "prime_rejected", std::to_string(n));
            }
            vh::eval(b, true); vh::count("all_numbers_below_limit", B);
        }
        return vh::finish();
    }
    if (o.mode == "hash") {
        vh::cases(o, 171, o.cases, [&](long long i, Rng& r) {
            Bytes seed = r.bytes(i % 6 == 0 ? r.range(1, 3) : i % 6 == 1 ? r.range(50, 300) : r.range(4, 64));
            if (r.chance(1, 4)) { size_t k = 1 + r.below(seed.size()); for (size_t q = 0; q < k; q++) seed[seed.size() - 1 - q] = 0xff; }
            if (r.chance(1, 12)) std::fill(seed.begin(), seed.end(), r.chance(1, 2) ? 0 : 0xff);
            int len = i % 3 == 0 ? 264 : i % 3 == 1 ? 8 * r.range(1, 40) : 8 * r.range(1, 128);
            std::vector<int> mask; switch (r.below(4)) { case 0: mask = {len - 1}; break; case 1: mask = {0, 1, 2, len - 1}; break; case 2: break; default: for (int k = r.below(5); k-- > 0;) mask.push_back(r.below(len)); }
            if (i % 3 == 0) mask = {263};
            std::string d = "seed=" + ref::hex(seed) + " len=" + std::to_string(len) + " mask="; for (int m : mask) d += std::to_string(m) + ",";
            vh::at("hash", d);
            int att = 0; Z want = ref::hash_prime(seed, len, mask, &att), got; bool threw = false; std::vector<uint8_t> s2(seed);
            try { got = cut::Z(HashPrime(s2, len, mask)); } catch (const std::exception&) { threw = true; }
            vh::eval(d); vh::count("hashes"); vh::maxi("candidates_examined", att); if (want == 0) vh::count("cycling_seeds");
            if (i < 3) vh::sample(d + " -> " + got.get_str(16));
            if (threw != (want == 0)) { vh::viol(threw ? "hash:refused" : "hash:cycling_accepted", d); return; }
            if (threw) return;
            if (got != want) vh::viol("hash:value", d + " got " + got.get_str(16) + " want " + want.get_str(16));
            if (!ref::is_prime(got)) vh::viol("hash:composite", d + " got " + got.get_str(16));
            for (int m : mask) if (!mpz_tstbit(got.get_mpz_t(), m)) vh::viol("hash:bit_not_forced", d);
            if (s2 != seed) vh::viol("hash:seed_modified", d);
        });
        vh::cases(o, 172, o.cases / 4, [&](long long i, Rng& r) {       // challenge of a pair of elements, also unreduced ones
            unsigned bits = i % 9 == 0 ? 1024 : 8 + r.below(400); Z D = gen::prime_disc(r, bits); Form x = gen::rnd_form(r, D), y = gen::rnd_form(r, D);
            if (r.chance(1, 6)) x = ref::identity(D); if (r.chance(1, 6)) y = ref::identity(D); if (r.chance(1, 6)) y = x;
            form X = cut::mk(x), Y = cut::mk(y); if (r.chance(1, 2)) { integer t = Y.a; Y.a = Y.c; Y.c = t; Y.b = -Y.b; } if (r.chance(1, 4)) { integer t = X.a; X.a = X.c; X.c = t; X.b = -X.b; }
            std::string d = "D=" + D.get_str(16) + " " + cut::str(x) + cut::str(y); vh::at("challenge", d);
            Z g = cut::Z(GetB(cut::I(D), X, Y)), w = ref::get_b(D, x, y); vh::eval(d); vh::count("challenges");
            if (g != w) vh::viol("challenge:value", d + " got " + g.get_str(16) + " want " + w.get_str(16));
            if (ref::nbits(g) != 264) vh::viol("challenge:length", d + " got " + g.get_str(16));
        });
        return vh::finish();
    }
    // numbers
    static const char* fixed[] = {"3215031751", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981", "1194649", "12327121", "341531", "1373653", "25326001", "2152302898747", "3474749660383", "341550071728321",
        "913", "150267335403", "430558874533", "14760229232131", "936916995253453", "1195068768795265792518361315725116351898245581", "803837457453639491257079614341942108138837688287558145837488917522297427376533365218650233616396004545791504202360320876656996676098728404396540823292873879185086916685732826776177102938969773947016708230428687109997439976544144845341155872450633409279022275296229414984230688168540432645753401832978611129896064484521619165287259753290449",
        "18446744073709551557", "18446744073709551533", "18446744073709551521", "18446744073709551615", "340282366920938463463374607431768211297", "340282366920938463463374607431768211455"};
    if (o.shard == 0) { for (auto f : fixed) judge(Z(f), f[0] == '8' && strlen(f) > 200 ? 0 : -1, "known"); for (unsigned e : {13u, 17u, 19u, 31u, 61u, 89u, 107u, 127u, 521u, 607u}) judge((Z(1) << e) - 1, 1, "mersenne"); for (unsigned e = 3; e < 900; e += 2) if (!ref::is_prime(Z(e))) judge((Z(1) << e) - 1, 0, "mersenne_composite"); for (unsigned k = 3; k < 10; k++) judge((Z(1) << (1u << k)) + 1, k < 5 ? 1 : 0, "fermat"); }
    vh::cases(o, 173, o.cases, [&](long long i, Rng& r) {
        unsigned bits = i % 4 == 0 ? r.range(17, 64) : i % 4 == 1 ? r.range(60, 200) : i % 4 == 2 ? 264 : r.range(200, 1024);
        // primes
        judge(rp(r, bits), -1, "random_prime");
        { Z n = gen::rnd_bits(r, bits); judge(n, -1, "random"); }
        { unsigned s = r.range(2, bits - 3 > 2 ? bits - 3 : 3); Z n; for (int t = 0; t < 400; t++) { n = (gen::rnd_bits(r, bits - s > 2 ? bits - s : 3) | 1) * (Z(1) << s) + 1; if (mpz_probab_prime_p(n.get_mpz_t(), 10)) break; } judge(n, -1, "proth"); }     // n-1 divisible by a high power of two
        { // primes for which the first many small discriminants are residues
            Z M = 8, x = 1; for (unsigned p : {3u, 5u, 7u, 11u, 13u, 17u, 19u, 23u, 29u, 31u, 37u, 41u, 43u, 47u, 53u, 59u, 61u, 67u}) { if (ref::nbits(M) + 10 > bits) break; M *= p; } Z n; for (int t = 0; t < 500; t++) { n = gen::rnd_bits(r, bits - ref::nbits(M) + 2) * M + 1; if (mpz_probab_prime_p(n.get_mpz_t(), 10)) break; } judge(n, -1, "residue_heavy"); }
        // composites
        unsigned h = bits / 2 < 9 ? 9 : bits / 2;
        Z p = rp(r, h), q = rp(r, h);
        judge(p * q, 0, "semiprime"); judge(p * p, 0, "square"); judge(p * p * p, 0, "cube");
        { Z n2; mpz_nextprime(n2.get_mpz_t(), p.get_mpz_t()); judge(p * n2, 0, "close_primes"); }
        { Z a = rp(r, 17 + r.below(12)), n = a; while (ref::nbits(n) + 30 < bits) n *= rp(r, 17 + r.below(12)); if (n != a) judge(n, 0, "many_factors"); }
        { Z a = rp(r, 3 + r.below(14)); judge(a * p, 0, "small_factor"); }
        // strong pseudoprime shapes: (k+1)(mk+1)
        for (unsigned m : {2u, 3u, 4u, 5u, 8u}) { for (int t = 0; t < 300; t++) { Z k = rp(r, h) - 1; Z b = k * m + 1; if (mpz_probab_prime_p(b.get_mpz_t(), 8)) { judge((k + 1) * b, 0, "k_mk"); break; } if (bits > 300 && t > 20) break; } }
        // Carmichael numbers (6k+1)(12k+1)(18k+1), and Lucas-Carmichael-like (p)(k(p+1)-1)
        if (bits < 330) { unsigned kb = bits / 3 < 12 ? 12 : bits / 3; for (int t = 0; t < 600; t++) { Z k = gen::rnd_bits(r, kb); Z a = 6 * k + 1, b = 12 * k + 1, c = 18 * k + 1; if (k > 30 && mpz_probab_prime_p(a.get_mpz_t(), 3) && mpz_probab_prime_p(b.get_mpz_t(), 3) && mpz_probab_prime_p(c.get_mpz_t(), 3)) { judge(a * b * c, 0, "carmichael"); break; } } }
        for (unsigned m : {2u, 3u, 4u, 6u}) { for (int t = 0; t < 60; t++) { Z a = rp(r, h), b = (a + 1) * m - 1; if (mpz_probab_prime_p(b.get_mpz_t(), 8)) { judge(a * b, 0, "lucas_shape"); break; } if (bits > 300 && t > 12) break; } }
        // Arnault: p1*(k2(p1-1)+1)*(k3(p1-1)+1)
        if (bits < 200) for (int t = 0; t < 400; t++) { Z a = rp(r, std::max(12u, bits / 3)); if (a % 4 != 3) continue; Z b = 13 * (a - 1) + 1, c = 41 * (a - 1) + 1; if (mpz_probab_prime_p(b.get_mpz_t(), 3) && mpz_probab_prime_p(c.get_mpz_t(), 3)) { judge(a * b * c, 0, "arnault"); break; } }
        // what stands between two neighbouring candidates of a hash sequence
        { Z n = rp(r, bits); for (int d : {-6, -4, -2, 2, 4, 6}) judge(n + d, -1, "near_prime"); }
    });
    return vh::finish();
}
