// Groups whose element orders are known, so proofs for any iteration count can be built.
#pragma once
#include <unordered_map>
#include "gen.hpp"
using ref::Z; using ref::Form; using ref::Bytes; using vh::Rng;
struct Grp {
    Z D; unsigned bits; Bytes seed; Form g; Z order;   // order: a multiple of the order of g (0: unknown)
    Form gpow(const Z& e) const { return ref::pow(g, order != 0 ? ref::fmod_(e, order) : e, D); }
};
static Z order_multiple(const Form& g, const Z& D) {
    Form id = ref::identity(D), p = id; std::unordered_map<std::string, uint64_t> baby;
    size_t m = 1; while (Z((unsigned long)m) * (unsigned long)m < 4 * sqrt(Z(-D)) + 16) m++;
    auto key = [](const Form& f) { return f.a.get_str(36) + "," + f.b.get_str(36); };
    for (size_t i = 0; i < m; i++) { baby.emplace(key(p), i); p = ref::compose(p, g, D); if (p == id) return Z((unsigned long)(i + 1)); }
    Form giant = p, q = p;          // g^m
    for (size_t j = 1; j <= 4 * m; j++) { auto it = baby.find(key(q)); if (it != baby.end()) return Z((unsigned long)j) * (unsigned long)m - (unsigned long)it->second; q = ref::compose(q, giant, D); }
    return 0;
}
static Grp mkgrp(Rng& r, unsigned bits, bool seeded, bool ord) {
    Grp G; G.bits = bits;
    while (true) {
        if (seeded && bits % 8 == 0) { G.seed = r.bytes(r.range(4, 40)); G.D = ref::create_discriminant(G.seed, bits); if (G.D == 0) continue; }
        else { G.seed.clear(); G.D = gen::prime_disc(r, bits); G.bits = bits; }
        break;
    }
    G.g = r.chance(1, 3) ? [&] { Form f; ref::make(2, 1, G.D, f); return ref::reduce(f); }() : gen::rnd_form(r, G.D);
    G.order = 0;
    if (ord) { G.order = order_multiple(G.g, G.D); if (G.order == 0) vh::harness_error("order not found D=" + G.D.get_str(10)); }
    return G;
}
static Bytes enc(const Form& f, const Z& D) {
    if (f.a == 2 && f.b == 1) { Bytes b(100, 0); b[0] = 8; return b; }
    return ref::ser(f, D);
}
struct Seg { uint64_t T; Z B; Form x, y, pi; };
// the true statement for T squarings of x, where x = G.g^e (e known when the order is)
static Seg honest(const Grp& G, const Form& x, uint64_t T) {
    Seg s; s.T = T; s.x = x;
    if (G.order != 0) {
        s.y = ref::pow(x, ref::pow2_mod(T, G.order), G.D); s.B = ref::get_b(G.D, x, s.y);
        Z m = s.B * G.order, R = ref::pow2_mod(T, m), e = (R - ref::fmod_(R, s.B)) / s.B;
        s.pi = ref::pow(x, e, G.D);
    } else { s.y = ref::square_n(x, T, G.D); s.B = ref::get_b(G.D, x, s.y); s.pi = ref::weso_proof(G.D, x, s.y, T); }
    return s;
}
static void put_seg(Bytes& o, const Seg& s, const Z& D) { ref::put_be64(o, s.T); Bytes b = ref::to_be(s.B, 33); b.resize(33); o.insert(o.end(), b.begin(), b.end()); Bytes p = enc(s.pi, D); o.insert(o.end(), p.begin(), p.end()); }
// blob: final (y, pi), then segments latest first (the walk goes from the end)
static Bytes blob_of(const Z& D, const std::vector<Seg>& segs, const Seg& fin) {
    Bytes o = enc(fin.y, D), p = enc(fin.pi, D); o.insert(o.end(), p.begin(), p.end());
    for (size_t i = segs.size(); i-- > 0;) put_seg(o, segs[i], D);
    return o;
}
