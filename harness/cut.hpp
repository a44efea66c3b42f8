// Code under test: the C wrapper translation unit (which contains verifier, prover and encoding headers), plus the oracle.
#pragma once
#include "c_bindings/c_wrapper.cpp"
#include "vh.hpp"
#include "ref.hpp"

namespace cut {
inline ref::Z Z(const integer& i) { ref::Z z; mpz_set(z.get_mpz_t(), i.impl); return z; }
inline integer I(const ref::Z& z) { integer i; mpz_set(i.impl, z.get_mpz_t()); return i; }
inline ref::Form F(const form& f) { ref::Form r; r.a = Z(f.a); r.b = Z(f.b); r.c = Z(f.c); return r; }
inline form mk(const ref::Form& f) { form r; r.a = I(f.a); r.b = I(f.b); r.c = I(f.c); return r; }
inline std::string str(const ref::Form& f) { return "(" + f.a.get_str(16) + "," + f.b.get_str(16) + "," + f.c.get_str(16) + ")"; }
}  // namespace cut

#include "gen.hpp"
