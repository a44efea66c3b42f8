// C08: class group arithmetic. Modes: exhaustive (whole small class groups), default (random and structured).
#include "cut.hpp"
#include "vdf_original.h"
#include <set>
using vh::Rng; using ref::Z; using ref::Form; using ref::Bytes;

static Form act(const Form& f, const Z& p, const Z& q, const Z& r, const Z& s) {
    Form o; o.a = f.a * p * p + f.b * p * r + f.c * r * r; o.b = 2 * f.a * p * q + f.b * (p * s + q * r) + 2 * f.c * r * s; o.c = f.a * q * q + f.b * q * s + f.c * s * s; return o;
}
// an equivalent, unreduced form: a random word in S, T^k
static Form unreduce(Rng& r, Form f, unsigned steps, unsigned kbits) {
    for (unsigned i = 0; i < steps; i++) {
        if (r.chance(1, 2)) { std::swap(f.a, f.c); f.b = -f.b; }
        Z k = gen::rnd_bits(r, 1 + r.below(kbits)); if (r.chance(1, 2)) k = -k;
        f = act(f, 1, k, 0, 1);
    }
    if (r.chance(1, 2)) { std::swap(f.a, f.c); f.b = -f.b; }
    return f;
}
struct Ctx { Z D; integer Di, L; bool prime; PulmarkReducer red; vdf_original vo; std::string name;
    Ctx(const Z& d, bool p) : D(d), Di(cut::I(d)), L(root(-cut::I(d), 4)), prime(p), name("D=" + d.get_str(10)) {} };
static std::string ops(const Ctx& c, const Form& x, const Form& y) { return c.name + " x=" + cut::str(x) + " y=" + cut::str(y); }

static void expect(const char* what, Ctx& c, const form& got_, const Form& want, bool must_reduced, const Form& x, const Form& y) {
    Form got = cut::F(got_);
    vh::count(std::string("op_") + what);
    if (!ref::valid_form(got, c.D)) { vh::viol(std::string(what) + ":invalid", ops(c, x, y) + " got " + cut::str(got)); return; }
    if (must_reduced && got != want) { vh::viol(std::string(what) + (ref::reduce(got) == want ? ":not_reduced" : ":value"), ops(c, x, y) + " got " + cut::str(got) + " want " + cut::str(want)); return; }
    if (ref::reduce(got) != want) vh::viol(std::string(what) + ":value", ops(c, x, y) + " got " + cut::str(got) + " want " + cut::str(want));
}
static void vo_set(vdf_original::form& f, const Form& x) { mpz_init_set(f.a, x.a.get_mpz_t()); mpz_init_set(f.b, x.b.get_mpz_t()); mpz_init_set(f.c, x.c.get_mpz_t()); }
static void vo_clear(vdf_original::form& f) { mpz_clears(f.a, f.b, f.c, NULL); }
static form vo_get(const vdf_original::form& f) { form r; mpz_set(r.a.impl, f.a); mpz_set(r.b.impl, f.b); mpz_set(r.c.impl, f.c); return r; }

static void reductions(Ctx& c, const Form& u, const Form& want) {
    form a = cut::mk(u); a.reduce(); expect("reduce", c, a, want, true, u, want);
    form b = cut::mk(u); c.red.reduce(b); expect("fast_reduce", c, b, want, true, u, want);
    { vdf_original::form f; vo_set(f, u); c.vo.reduce(f); expect("original_reduce", c, vo_get(f), want, true, u, want); vo_clear(f); }
    bool ir = cut::mk(u).is_reduced(); if (ir != ref::is_reduced(u)) vh::viol("is_reduced", ops(c, u, want));
}
static void compositions(Ctx& c, const Form& x, const Form& y, bool reduced_in) {
    Form want = ref::compose(x, y, c.D);
    form X = cut::mk(x), Y = cut::mk(y), o;
    nucomp_form(o, X, Y, c.Di, c.L); expect("nucomp", c, o, want, false, x, y);
    form al = X; nucomp_form(al, al, Y, c.Di, c.L); expect("nucomp_alias1", c, al, want, false, x, y);
    al = Y; nucomp_form(al, X, al, c.Di, c.L); expect("nucomp_alias2", c, al, want, false, x, y);
    c.red.reduce(al); expect("nucomp_fast_reduce", c, al, want, true, x, y);
    if (cut::F(X) != x || cut::F(Y) != y) vh::viol("nucomp:input_modified", ops(c, x, y));
    expect("multiply", c, multiply(X, Y), want, true, x, y);
    expect("operator*", c, X * Y, want, true, x, y);
    if (reduced_in) { vdf_original::form f, g; vo_set(f, x); vo_set(g, y); auto* r = c.vo.multiply(f, g); expect("original_multiply", c, vo_get(*r), want, true, x, y); vo_clear(f); vo_clear(g); }
    if (reduced_in) { form inv = X.inverse(); expect("inverse", c, inv, ref::inverse(x), true, x, x); if (!(X * inv == form::identity(c.Di))) vh::viol("inverse_law", ops(c, x, x)); if (!(X * form::identity(c.Di) == X)) vh::viol("identity_law", ops(c, x, x));
        form yx = Y * X; if (!((X * Y) == yx)) vh::viol("commutativity", ops(c, x, y)); bool eq = X == Y; if (eq != (x == y)) vh::viol("equality", ops(c, x, y)); }
}
static void squarings(Ctx& c, const Form& x, bool reduced_in) {
    Form want = ref::square(x, c.D);
    form X = cut::mk(x), o;
    nudupl_form(o, X, c.Di, c.L); expect("nudupl", c, o, want, false, x, x);
    if (cut::F(X) != x) vh::viol("nudupl:input_modified", ops(c, x, x));
    form al = X; nudupl_form(al, al, c.Di, c.L); expect("nudupl_alias", c, al, want, false, x, x);
    c.red.reduce(al); expect("nudupl_fast_reduce", c, al, want, true, x, x);
    if (c.prime && gcd(x.a, x.b) == 1) { expect("square", c, square(X), want, true, x, x); expect("operator*same", c, X * X, want, true, x, x);
        vdf_original::form f; vo_set(f, x); expect("original_square", c, vo_get(*c.vo.square(f)), want, true, x, x); vo_clear(f); }
}
static void powers(Ctx& c, Rng& r, const Form& x, unsigned ebits, const Z* forced = nullptr) {
    Z e = forced ? *forced : gen::rnd_bits(r, ebits); Form want = ref::pow(x, e, c.D);
    form p = FastPowFormNucomp(cut::mk(x), c.Di, cut::I(e), c.L, c.red);
    expect("power", c, p, want, true, x, x);
    vh::maxi("exponent_bits", ref::nbits(e));
}

static std::vector<Form> all_forms(long n) {     // primitive reduced forms of discriminant -n
    std::vector<Form> v;
    for (long b = n & 1; 3 * b * b <= n; b += 2) { long m = (b * b + n) / 4; for (long a = std::max(b, 1L); a * a <= m; a++) if (m % a == 0) {
        Form f; f.a = a; f.b = b; f.c = m / a; if (gcd(gcd(f.a, f.b), f.c) != 1) continue; v.push_back(f); if (b > 0 && b < a && a * a < m) { f.b = -b; v.push_back(f); } } }
    return v;
}
static bool squarefree(long n) { for (long p = 2; p * p <= n; p++) if (n % (p * p) == 0) return false; return true; }

int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv);
    if (o.mode == "exhaustive") {
        long lim = o.num("limit", 2000), k = 0;
        for (long n = 3; n < lim; n += 4) {
            if (!squarefree(n)) continue;
            if ((unsigned)(k++ % o.nshards) != o.shard) continue;
            Rng r(o.seed, 81, n);
            Ctx c(-Z(n), ref::is_prime(Z(n)));
            auto v = all_forms(n); vh::count("discriminants"); vh::count("group_elements", v.size()); if (!c.prime) vh::count("composite_discriminants");
            vh::at("group", c.name);
            std::set<std::string> seen;
            for (auto& x : v) {
                reductions(c, x, x); squarings(c, x, true);
                for (auto& y : v) { compositions(c, x, y, true); vh::eval(ops(c, x, y)); }
                Form u = unreduce(r, x, 1 + r.below(3), 6); reductions(c, u, x); squarings(c, u, false);
                compositions(c, u, unreduce(r, v[r.below(v.size())], 1, 4), false);
                // the code's own results obey the group laws (independent of the reference)
                form X = cut::mk(x), Y = cut::mk(v[r.below(v.size())]), W = cut::mk(v[r.below(v.size())]);
                if (!((X * Y) * W == X * (Y * W))) vh::viol("associativity", ops(c, x, cut::F(Y)) + cut::str(cut::F(W)));
                integer h(static_cast<uint64_t>(v.size())); form p = FastPowFormNucomp(X, c.Di, h, c.L, c.red); if (!(p == form::identity(c.Di))) vh::viol("lagrange", ops(c, x, x) + " h=" + std::to_string(v.size()) + " got " + cut::str(cut::F(p)));
                vh::count("law_checks", 2);
                for (unsigned e = 0; e < 6; e++) { Z ez = e; powers(c, r, x, 0, &ez); }
                powers(c, r, x, 20);
            }
        }
        return vh::finish();
    }
    vh::cases(o, 82, o.cases, [&](long long i, Rng& r) {
        static const unsigned sizes[] = {63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1023, 1024};
        unsigned bits = i % 3 == 0 ? sizes[r.below(17)] : i % 3 == 1 ? r.range(8, 400) : r.range(8, 1024);
        if (i % 17 == 5) bits = r.range(1025, 2048);
        bool prime = r.chance(3, 4); Z D; std::vector<Z> factors;
        if (prime) { if (bits > 1024) { Z p = gen::rnd_bits(r, bits); mpz_setbit(p.get_mpz_t(), bits - 1); p |= 7; while (!mpz_probab_prime_p(p.get_mpz_t(), 1)) p += 8; D = -p; } else D = gen::prime_disc(r, bits); if (r.chance(1, 8)) { Z p = -D; p -= 4; while (!ref::is_prime(p)) p -= 8; if (p > 0) D = -p; } }
        else { // product of distinct odd primes, = 3 mod 4: ambiguous forms of many shapes
            Z n = 1; while (ref::nbits(n) + 6 < bits) { unsigned b = std::min<unsigned>(bits - ref::nbits(n), 5 + r.below(r.chance(1, 2) ? 12 : bits)); Z p = gen::rnd_bits(r, b) | 1; mpz_setbit(p.get_mpz_t(), b - 1); while (!mpz_probab_prime_p(p.get_mpz_t(), 5)) p += 2; if (gcd(n, p) == 1) { n *= p; factors.push_back(p); } }
            if (n % 4 != 3) { Z p = 3; while (p % 4 != 3 || !ref::is_prime(p) || n % p == 0) p += 2; n *= p; } D = -n; }
        Ctx c(D, prime); vh::maxi("disc_bits", ref::nbits(D));
        for (int rep = 0; rep < 4; rep++) {
            Form x = gen::rnd_form(r, D), y; int shape = r.below(9);
            auto small_form = [&](Form& f) { f = ref::identity(D); for (int t = 0; t < 60; t++) { unsigned long p = 2 + r.below(500); if (ref::is_prime(Z(p)) && gen::prime_form(D, p, f)) { f = ref::reduce(f); return; } } };
            auto amb = [&](Form& f) { f = ref::identity(D); for (int t = 0; t < 10 && !factors.empty(); t++) { Z p = factors[r.below(factors.size())]; if (r.chance(1, 2)) p *= factors[r.below(factors.size())]; if (D % p == 0 && ref::make(p, p, D, f)) { f = ref::reduce(f); if (gcd(gcd(f.a, f.b), f.c) == 1) { vh::count("ambiguous_operands"); return; } } } f = ref::identity(D); };
            switch (shape) {
                case 0: y = x; break;
                case 1: y = ref::inverse(x); break;
                case 2: y = ref::identity(D); break;
                case 3: small_form(y); break;
                case 4: small_form(x); small_form(y); break;
                case 5: amb(x); if (r.chance(1, 2)) x = ref::compose(x, gen::rnd_form(r, D), D); y = r.chance(1, 2) ? x : gen::rnd_form(r, D); break;
                case 6: y = ref::square(x, D); break;                       // shared factors
                case 7: { Form s; small_form(s); x = ref::compose(x, s, D); y = ref::compose(gen::rnd_form(r, D), s, D); break; }
                default: y = gen::rnd_form(r, D); break;
            }
            vh::at("pair", ops(c, x, y)); vh::count("shape_" + std::to_string(shape)); vh::eval(ops(c, x, y));
            if (i < 2 && rep == 0) vh::sample(ops(c, x, y).substr(0, 700));
            if (r.chance(1, 2)) std::swap(x, y);
            compositions(c, x, y, true); squarings(c, x, true); reductions(c, x, x);
            Form u = unreduce(r, x, 1 + r.below(4), r.chance(1, 3) ? 400 : 20), w = unreduce(r, y, r.below(2), 8);
            vh::at("unreduced", ops(c, u, w));
            reductions(c, u, x); squarings(c, u, false); compositions(c, u, w, false); vh::eval(ops(c, u, w));
            u = unreduce(r, x, 60 + r.below(300), 1); reductions(c, u, x); u = unreduce(r, x, 2 + r.below(6), 1 + r.below(70)); reductions(c, u, x);
            { Form q = x; std::swap(q.a, q.c); q.b = -q.b; reductions(c, q, x); q = act(x, 1, 1, 0, 1); reductions(c, q, x); q = act(x, 1, -1, 0, 1); reductions(c, q, x); if (x.a == x.b) { q = x; q.b = -q.b; reductions(c, q, x); } }
            if (rep == 0) { powers(c, r, x, bits > 1024 ? 60 : r.chance(1, 4) ? 264 : 1 + r.below(200)); Z e = (Z(1) << (unsigned)r.range(1, 70)) - (unsigned long)r.below(2); powers(c, r, y, 0, &e); Z e0 = (unsigned long)r.below(9); powers(c, r, y, 0, &e0); powers(c, r, ref::identity(D), 70); }
            // a run of the ladder's step on unreduced intermediates
            { form f = cut::mk(x); Form g = x; form Y = cut::mk(y); for (int t = 0; t < 4; t++) { nudupl_form(f, f, c.Di, c.L); g = ref::square(g, D); if (r.chance(1, 2)) { nucomp_form(f, f, Y, c.Di, c.L); g = ref::compose(g, y, D); } } expect("chain", c, f, g, false, x, y); c.red.reduce(f); expect("chain_reduced", c, f, g, true, x, y); }
        }
    });
    return vh::finish();
}
