// Generators of discriminants and elements.
#pragma once
#include "vh.hpp"
#include "ref.hpp"
namespace gen {
using ref::Z; using ref::Form;
inline Z rnd_bits(vh::Rng& r, unsigned bits) { auto b = r.bytes((bits + 7) / 8); Z z = ref::from_be(b.data(), b.size()); if (bits % 8) z >>= (8 - bits % 8); return z; }
// |D| prime, = 7 mod 8, exact bit length
inline Z prime_disc(vh::Rng& r, unsigned bits) {
    while (true) { Z p = rnd_bits(r, bits); mpz_setbit(p.get_mpz_t(), bits - 1); for (int i = 0; i < 3 && i < (int)bits; i++) mpz_setbit(p.get_mpz_t(), i); if (ref::is_prime(p)) return -p; }
}
// small prime p with (D/p)=1 -> prime form (p, b, c), reduced
inline bool prime_form(const Z& D, unsigned long p, Form& f) {
    if (p == 2) return ref::make(2, 1, D, f);
    Z P = p;
    if (mpz_jacobi(D.get_mpz_t(), P.get_mpz_t()) != 1) return false;
    unsigned long d = mpz_fdiv_ui(D.get_mpz_t(), p), b = 0;
    for (b = 0; b < p; b++) if ((b * b) % p == d) break;
    if ((b & 1) != (unsigned)(mpz_odd_p(D.get_mpz_t()) ? 1 : 0)) b = p - b;
    return ref::make(P, Z(b), D, f);
}
inline Form rnd_form(vh::Rng& r, const Z& D) {
    unsigned nb = ref::nbits(abs(D));
    Form g = ref::identity(D);
    for (int tries = 0; tries < 200; tries++) { unsigned long p = 2 + r.below(tries < 3 ? 3 : 400); Z P = p; if (!ref::is_prime(P)) continue; if (prime_form(D, p, g)) break; }
    g = ref::reduce(g);
    return ref::pow(g, rnd_bits(r, nb / 2 + 8) + 1, D);
}
// A reduced form of a prime discriminant whose encoding has a wide common factor g (gbits) and a b0 filling it:
// a = g*h, b = r'/t' mod h lifted by h*j with j < g, then a c >= a making 4ac-b^2 prime.
inline bool wide_form(vh::Rng& r, unsigned gbits, unsigned hbits, unsigned cbits, Z& D, Form& f) {
    for (int tries = 0; tries < 50; tries++) {
        Z g = rnd_bits(r, gbits), h = rnd_bits(r, hbits); mpz_setbit(g.get_mpz_t(), gbits - 1); mpz_setbit(h.get_mpz_t(), hbits - 1);
        Z tp = 1 + Z((unsigned long)r.below(5)), rp = Z((long)r.range(0, 6)) - 3, inv, b;
        if (hbits > gbits + 12) { tp = 1 + rnd_bits(r, (hbits - gbits) / 2 - 3); rp = rnd_bits(r, (hbits - gbits) / 2 - 3); }
        if (!mpz_invert(inv.get_mpz_t(), tp.get_mpz_t(), h.get_mpz_t())) continue;
        Z a = g * h;
        mpz_fdiv_r(b.get_mpz_t(), Z(rp * inv).get_mpz_t(), h.get_mpz_t());
        Z j = rnd_bits(r, gbits); if (r.chance(1, 2)) j = g - 1 - Z((unsigned long)r.below(4)); mpz_fdiv_r(j.get_mpz_t(), j.get_mpz_t(), g.get_mpz_t());
        b += h * j; if (b >= a) continue;
        if (mpz_even_p(b.get_mpz_t())) { if (mpz_odd_p(h.get_mpz_t()) && b + h < a) b += h; else continue; }
        if (r.chance(1, 2)) b = -b;
        Z c = rnd_bits(r, cbits); mpz_setbit(c.get_mpz_t(), cbits - 1); if (c <= a) c += a;
        if (mpz_odd_p(a.get_mpz_t())) { mpz_clrbit(c.get_mpz_t(), 0); if (c <= a) continue; }
        for (int q = 0; q < 1500; q++, c += 2) { Z d = 4 * a * c - b * b; if (d > 0 && mpz_fdiv_ui(d.get_mpz_t(), 8) == 7 && ref::is_prime(d)) { D = -d; f.a = a; f.b = b; f.c = c; return ref::is_reduced(f) && ref::valid_form(f, D); } }
    }
    return false;
}
}  // namespace gen
