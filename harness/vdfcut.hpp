// Code under test: the squaring/proving engine (vdf.h), set up the way the binaries do it.
#pragma once
#include "vdf.h"
#include "create_discriminant.h"
#include "verifier.h"
#include "vh.hpp"
#include "ref.hpp"
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;
namespace cut {
inline ref::Z Z(const integer& i) { ref::Z z; mpz_set(z.get_mpz_t(), i.impl); return z; }
inline integer I(const ref::Z& z) { integer i; mpz_set(i.impl, z.get_mpz_t()); return i; }
inline ref::Form F(const form& f) { ref::Form r; r.a = Z(f.a); r.b = Z(f.b); r.c = Z(f.c); return r; }
inline form mk(const ref::Form& f) { form r; r.a = I(f.a); r.b = I(f.b); r.c = I(f.c); return r; }
inline std::string str(const ref::Form& f) { return "(" + f.a.get_str(16) + "," + f.b.get_str(16) + "," + f.c.get_str(16) + ")"; }
inline void setup() { init_gmp(); if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; } set_rounding_mode(); }
}  // namespace cut
#include "gen.hpp"
