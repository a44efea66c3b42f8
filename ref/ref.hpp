// Independent reference implementation used as oracle. Uses GMP only; shares no code with chiavdf.
// Composition: Cohen, "A Course in Computational Algebraic Number Theory", Alg. 5.4.7; reduction 5.4.2.
#pragma once
#include <gmp.h>
#include <gmpxx.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <utility>

namespace ref {
typedef mpz_class Z;
typedef std::vector<uint8_t> Bytes;
static const int FORM = 100;
static const int BBYTES = 33;
static const int SEG = 8 + BBYTES + FORM;

struct Form { Z a, b, c; };
inline bool operator==(const Form& x, const Form& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
inline bool operator!=(const Form& x, const Form& y) { return !(x == y); }

inline Z fdiv(const Z& n, const Z& d) { Z q; mpz_fdiv_q(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; }
inline Z fmod_(const Z& n, const Z& d) { Z q; mpz_fdiv_r(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; }
inline size_t nbits(const Z& z) { return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2); }

// D < 0 and D = 0,1 mod 4
inline bool valid_form(const Form& f, const Z& D) { return f.a > 0 && f.c > 0 && f.b * f.b - 4 * f.a * f.c == D; }
inline bool is_reduced(const Form& f) {
    if (abs(f.b) > f.a || f.a > f.c) return false;
    if (abs(f.b) == f.a && f.b < 0) return false;
    if (f.a == f.c && f.b < 0) return false;
    return true;
}
inline bool make(const Z& a, const Z& b, const Z& D, Form& out) {
    if (a <= 0) return false;
    Z n = b * b - D, d = 4 * a;
    if (!mpz_divisible_p(n.get_mpz_t(), d.get_mpz_t())) return false;
    out.a = a; out.b = b; out.c = n / d;
    return true;
}
// Cohen 5.4.2
inline Form reduce(Form f) {
    while (true) {
        // normalise: -a < b <= a
        if (!(f.b > -f.a && f.b <= f.a)) {
            Z two_a = 2 * f.a;
            Z r = fmod_(f.b, two_a);
            if (r > f.a) r -= two_a;
            Z q = (f.b - r) / two_a;      // exact
            f.c -= ((f.b + r) / 2) * q;   // c' = c - q*(b+r)/2 ; exact
            f.b = r;
        }
        if (f.a > f.c) { std::swap(f.a, f.c); f.b = -f.b; continue; }
        if (f.a == f.c && f.b < 0) f.b = -f.b;
        return f;
    }
}
inline Form identity(const Z& D) {
    Form f; f.a = 1; f.b = mpz_odd_p(D.get_mpz_t()) ? 1 : 0; f.c = (f.b * f.b - D) / 4; return f;
}
inline Form inverse(const Form& f) { Form r = f; r.b = -r.b; return reduce(r); }
// Cohen 5.4.7 (primitive forms, same D)
inline Form compose(const Form& f1_, const Form& f2_, const Z& D) {
    const Form *p1 = &f1_, *p2 = &f2_;
    if (p1->a > p2->a) std::swap(p1, p2);
    const Form &f1 = *p1, &f2 = *p2;
    Z s = (f1.b + f2.b) / 2, n = f2.b - s;
    Z y1, d, u, v;
    if (mpz_divisible_p(f2.a.get_mpz_t(), f1.a.get_mpz_t())) { y1 = 0; d = f1.a; }
    else mpz_gcdext(d.get_mpz_t(), u.get_mpz_t(), v.get_mpz_t(), f2.a.get_mpz_t(), f1.a.get_mpz_t()), y1 = u;
    Z x2, y2, d1;
    if (mpz_divisible_p(s.get_mpz_t(), d.get_mpz_t())) { y2 = -1; x2 = 0; d1 = d; }
    else { Z x, y; mpz_gcdext(d1.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t(), s.get_mpz_t(), d.get_mpz_t()); x2 = x; y2 = -y; }
    Z v1 = f1.a / d1, v2 = f2.a / d1;
    Z r = fmod_(y1 * y2 * n - x2 * f2.c, v1);
    Form o; o.b = f2.b + 2 * v2 * r; o.a = v1 * v2;
    o.c = (o.b * o.b - D) / (4 * o.a);
    return reduce(o);
}
inline Form square(const Form& f, const Z& D) {
    // specialised: d = gcd(a,b) ; c2 = b^2-..., standard duplication
    Z d, x, y;
    mpz_gcdext(d.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t(), f.b.get_mpz_t(), f.a.get_mpz_t());
    Z A = f.a / d;
    Z k = fmod_(-x * f.c, A);
    Form o; o.a = A * A; o.b = f.b + 2 * A * k;
    o.c = (o.b * o.b - D) / (4 * o.a);
    return reduce(o);
}
inline Form pow(const Form& f, const Z& e, const Z& D) {
    Form r = identity(D);
    if (e < 0) return pow(inverse(f), -e, D);
    for (long i = (long)nbits(e) - 1; i >= 0; i--) {
        r = square(r, D);
        if (mpz_tstbit(e.get_mpz_t(), i)) r = compose(r, f, D);
    }
    return r;
}
inline Form square_n(Form f, uint64_t n, const Z& D) { for (uint64_t i = 0; i < n; i++) f = square(f, D); return f; }

// ---------------------------------------------------------------- SHA-256
inline void sha256(const Bytes& in, uint8_t out[32]) {
    static const uint32_t K[64] = {
        0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
        0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
        0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
        0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    Bytes m(in);
    uint64_t bits = (uint64_t)in.size() * 8;
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 7; i >= 0; i--) m.push_back((uint8_t)(bits >> (8 * i)));
    auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)m[o+4*i] << 24 | (uint32_t)m[o+4*i+1] << 16 | (uint32_t)m[o+4*i+2] << 8 | m[o+4*i+3];
        for (int i = 16; i < 64; i++) {
            uint32_t s0 = rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3), s1 = rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10);
            w[i] = w[i-16] + s0 + w[i-7] + s1;
        }
        uint32_t v[8]; memcpy(v, h, sizeof v);
        for (int i = 0; i < 64; i++) {
            uint32_t S1 = rr(v[4],6) ^ rr(v[4],11) ^ rr(v[4],25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            uint32_t t1 = v[7] + S1 + ch + K[i] + w[i];
            uint32_t S0 = rr(v[0],2) ^ rr(v[0],13) ^ rr(v[0],22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            uint32_t t2 = S0 + mj;
            v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+t2;
        }
        for (int i = 0; i < 8; i++) h[i] += v[i];
    }
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) out[4*i+j] = (uint8_t)(h[i] >> (24 - 8*j));
}

inline Z from_be(const uint8_t* p, size_t n) { Z z; mpz_import(z.get_mpz_t(), n, 1, 1, 0, 0, p); return z; }
inline Z from_le(const uint8_t* p, size_t n) { Z z; mpz_import(z.get_mpz_t(), n, -1, 1, 0, 0, p); return z; }
inline Bytes to_be(const Z& z, size_t n) {
    Bytes r(n, 0); size_t c = 0; size_t need = (nbits(z) + 7) / 8;
    if (need > n) return Bytes();
    if (z != 0) mpz_export(r.data() + (n - need), &c, 1, 1, 0, 0, z.get_mpz_t());
    return r;
}
inline bool is_prime(const Z& n) { return mpz_probab_prime_p(n.get_mpz_t(), 30) != 0; }

// attempts (optional): number of candidates examined.  Returns 0 when the (short) seed's sequence cycles without a prime.
inline Z hash_prime(const Bytes& seed, int length, const std::vector<int>& mask, int* attempts = nullptr) {
    Bytes s = seed; uint8_t h[32];
    for (int n = 1;; n++) {
        Bytes blob;
        while ((int)blob.size() * 8 < length) {
            for (size_t i = s.size(); i-- > 0;) { if (++s[i]) break; }
            sha256(s, h);
            for (int i = 0; i < 32 && (int)blob.size() * 8 < length; i++) blob.push_back(h[i]);
        }
        Z p = from_be(blob.data(), blob.size());
        for (int b : mask) mpz_setbit(p.get_mpz_t(), b);
        mpz_setbit(p.get_mpz_t(), 0);
        if (attempts) *attempts = n;
        if (is_prime(p)) return p;
        if (s == seed) return 0;
    }
}
inline bool disc_args_ok(size_t seed_len, long long bits) { return seed_len > 0 && bits > 0 && bits <= 1024 && bits % 8 == 0; }
inline Z create_discriminant(const Bytes& seed, int bits) { return -hash_prime(seed, bits, {0, 1, 2, bits - 1}); }

// ---------------------------------------------------------------- compressed forms
inline bool put_le(Bytes& out, const Z& v_, size_t size) {
    Z v = abs(v_);
    size_t need = (nbits(v) + 7) / 8;
    if (need > size) return false;
    size_t at = out.size(); out.resize(at + size, 0); size_t c;
    if (v != 0) mpz_export(out.data() + at, &c, -1, 1, 0, 0, v.get_mpz_t());
    return true;
}
// Cofactor t of the encoding: partial Euclid on (a, b) towards L.  The canonical choice of t is the one made by a
// Lehmer partial xgcd on the leading 63-bit words (which may run one division past the first remainder <= L), so
// the word-level decisions are part of the format.  Invariant: r_k = s_k*b (mod a); t is the cofactor of the last one.
inline Z lehmer_cofactor(const Z& a, const Z& b, const Z& L) {
    Z x = a, y = b, sx = 0, sy = 1;              // x >= y are consecutive remainders, sx/sy their cofactors of b (signed)
    auto bl = [](const Z& v) { return v == 0 ? (size_t)1 : mpz_sizeinbase(v.get_mpz_t(), 2); };
    auto top = [](const Z& v, size_t sh) { Z q; mpz_fdiv_q_2exp(q.get_mpz_t(), v.get_mpz_t(), sh); return (int64_t)mpz_get_ui(q.get_mpz_t()); };
    while (y != 0 && y > L) {
        size_t n = std::max(bl(x), bl(y)), sh = n > 63 ? n - 63 : 0;
        int64_t u = top(x, sh), v = top(y, sh), lim = top(L, sh);
        // 2x2 cofactor matrix of the word-level sequence: u' = Au*u0 + Bu*v0, v' = Av*u0 + Bv*v0
        int64_t Au = 1, Bu = 0, Av = 0, Bv = 1; int steps = 0;
        while (v != 0 && v > lim) {
            int64_t q = u / v, w = u - q * v, Aw = Au - q * Av, Bw = Bu - q * Bv;
            bool ok = (steps & 1) ? (w >= -Aw && v - w >= Bw - Bv) : (w >= -Bw && v - w >= Aw - Av);   // quotient certain?
            if (!ok) break;
            u = v; v = w; Au = Av; Av = Aw; Bu = Bv; Bv = Bw; steps++;
        }
        if (!steps) { Z q = x / y, r = x - q * y; x = y; y = r; Z c = sx - q * sy; sx = sy; sy = c; }
        else {
            Z nx = x * Z((long)Au) + y * Z((long)Bu), ny = x * Z((long)Av) + y * Z((long)Bv);
            Z cx = sx * Z((long)Au) + sy * Z((long)Bu), cy = sx * Z((long)Av) + sy * Z((long)Bv);
            x = nx; y = ny; sx = cx; sy = cy;
            if (y < 0) { y = -y; sy = -sy; }
            if (x < 0) { x = -x; sx = -sx; }
        }
    }
    return sy;
}
// Encode any (a,b) (a>0) for discriminants of dbits bits. Returns false if it does not fit.
inline bool encode(const Z& a, const Z& b, size_t dbits, Bytes& out) {
    out.clear();
    if (dbits == 0 || dbits > 1024) return false;
    size_t d = (dbits + 31) / 32 * 32;
    if (b == 1 && (a == 1 || a == 2)) { out.assign(FORM, 0); out[0] = a == 2 ? 8 : 4; return true; }
    Z A, t, g, b0; bool bs = false;
    if (a == b) { A = a; t = 0; g = 0; b0 = 0; }
    else {
        bs = b < 0;
        Z L; mpz_sqrt(L.get_mpz_t(), a.get_mpz_t());
        t = lehmer_cofactor(a, abs(b), L);
        g = gcd(a, t);
        A = a / g; t /= g;
        if (g == 1) b0 = 0; else b0 = abs(b) / A;
    }
    size_t gs = g == 0 ? 0 : (nbits(g) + 7) / 8 - 1;
    if (gs > 255 || gs >= d / 32) return false;
    out.push_back((uint8_t)((bs ? 1 : 0) | (t < 0 ? 2 : 0)));
    out.push_back((uint8_t)gs);
    bool ok = put_le(out, A, d / 16 - gs) && put_le(out, t, d / 32 - gs) && put_le(out, g, gs + 1) && put_le(out, b0, gs + 1);
    if (!ok) return false;
    out.resize(FORM, 0);
    return true;
}
// Decode result: raw (a,b) before reduction.
inline bool decode_raw(const Z& D, const uint8_t* s, size_t size, bool strict, Z& a, Z& b) {
    size_t dbits = nbits(abs(D));
    if (dbits == 0 || dbits > 1024 || size != (size_t)FORM) return false;
    if (s[0] & 12) { a = (s[0] & 8) ? 2 : 1; b = 1; return true; }
    size_t d = (dbits + 31) / 32 * 32, gs = s[1];
    if (gs >= d / 32) return false;
    size_t o = 2;
    Z A = from_le(s + o, d / 16 - gs); o += d / 16 - gs;
    Z t = from_le(s + o, d / 32 - gs); o += d / 32 - gs;
    Z g = from_le(s + o, gs + 1); o += gs + 1;
    Z b0 = from_le(s + o, gs + 1);
    bool bs = s[0] & 1;
    if (s[0] & 2) t = -t;
    if (t == 0) { a = A; b = A; }
    else {
        if (A == 0) return false;
        Z tp = t < 0 ? Z(t + A) : t;
        Z inv;
        if (A == 1) inv = 0;
        else if (!mpz_invert(inv.get_mpz_t(), tp.get_mpz_t(), A.get_mpz_t())) return false;
        Z sq = fmod_(t * t * fmod_(D, A), A);
        if (!mpz_perfect_square_p(sq.get_mpz_t())) return false;
        Z r = sqrt(sq);
        b = fmod_(r * inv, A);
        a = g > 1 ? Z(A * g) : A;
        b += A * b0;
        if (bs) b = -b;
        if (strict && abs(b) > a) return false;
    }
    if (a <= 0) return false;
    Bytes canon;
    if (!encode(a, b, dbits, canon)) return false;
    return memcmp(canon.data(), s, FORM) == 0;
}
// Full decode to a reduced form of discriminant D.  Strict additionally demands that the encoded pair itself is reduced.
inline bool decode(const Z& D, const uint8_t* s, size_t size, bool strict, Form& f) {
    Z a, b;
    if (!decode_raw(D, s, size, strict, a, b)) return false;
    if (!make(a, b, D, f)) return false;
    Form r = reduce(f);
    if (strict && r != f) return false;
    f = r;
    return true;
}
inline Bytes ser(const Form& f, const Z& D) { Bytes o; Form r = reduce(f); encode(r.a, r.b, nbits(abs(D)), o); return o; }

// ---------------------------------------------------------------- Wesolowski
inline Z get_b(const Z& D, const Form& x, const Form& y) {
    Bytes s = ser(x, D), t = ser(y, D); s.insert(s.end(), t.begin(), t.end());
    return hash_prime(s, 264, {263});
}
inline Z pow2_mod(uint64_t e, const Z& m) { Z r, two = 2, ee; mpz_import(ee.get_mpz_t(), 1, 1, 8, 0, 0, &e); mpz_powm(r.get_mpz_t(), two.get_mpz_t(), ee.get_mpz_t(), m.get_mpz_t()); return r; }
inline Form weso_lhs(const Z& D, const Form& x, const Form& pi, const Z& B, uint64_t T) {
    return compose(pow(pi, B, D), pow(x, pow2_mod(T, B), D), D);
}
inline bool verify_weso(const Z& D, const Form& x, const Form& y, const Form& pi, uint64_t T) {
    return weso_lhs(D, x, pi, get_b(D, x, y), T) == y;
}
// exact proof form: pi = x^(floor(2^T / B))
inline Form weso_proof(const Z& D, const Form& x, const Form& y, uint64_t T) {
    Z B = get_b(D, x, y), e = (Z(1) << T) / B;
    return pow(x, e, D);
}
// Same value computed with T squarings, long division style (for large T)
inline Form weso_proof_ld(const Z& D, const Form& x, const Form& y, uint64_t T) {
    Z B = get_b(D, x, y), r = 1; Form p = identity(D);
    for (uint64_t i = 0; i < T; i++) { Z two = 2 * r; p = square(p, D); if (two >= B) { p = compose(p, x, D); two -= B; } r = two; }
    return p;
}
inline uint64_t be64(const uint8_t* p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
inline void put_be64(Bytes& o, uint64_t v) { for (int i = 7; i >= 0; i--) o.push_back((uint8_t)(v >> (8 * i))); }

// walk the segments; returns false when any is invalid. x and iters are updated.
inline bool walk_segments(const Z& D, Form& x, const uint8_t* blob, size_t len, size_t base, uint64_t& iters, bool check) {
    for (size_t i = len; i > base;) {
        i -= SEG;
        uint64_t si = be64(blob + i);
        Z B = from_be(blob + i + 8, BBYTES);
        Form pi;
        if (!decode(D, blob + i + 8 + BBYTES, FORM, false, pi)) return false;
        if (B == 0) return false;
        Form y = weso_lhs(D, x, pi, B, si);
        if (check && get_b(D, x, y) != B) return false;
        x = y;
        if (si > iters) return false;
        iters -= si;
    }
    return true;
}
inline bool len_ok(size_t len, size_t base, uint64_t depth) {
    return depth <= (SIZE_MAX - base) / SEG && len == base + depth * SEG;
}
inline bool verify_n(const Z& D, const uint8_t* xs, const uint8_t* blob, size_t len, uint64_t iters, uint64_t depth) {
    if (!len_ok(len, 2 * FORM, depth)) return false;
    Form x, y, pi;
    if (!decode(D, xs, FORM, false, x)) return false;
    if (!walk_segments(D, x, blob, len, 2 * FORM, iters, true)) return false;
    if (!decode(D, blob, FORM, false, y) || !decode(D, blob + FORM, FORM, false, pi)) return false;
    return verify_weso(D, x, y, pi, iters);
}
inline bool get_b_from_proof(const Z& D, const uint8_t* xs, const uint8_t* blob, size_t len, uint64_t iters, uint64_t depth, Z& B) {
    if (!len_ok(len, 2 * FORM, depth)) return false;
    Form x, y;
    if (!decode(D, xs, FORM, false, x)) return false;
    if (!walk_segments(D, x, blob, len, 2 * FORM, iters, false)) return false;
    if (!decode(D, blob, FORM, false, y)) return false;
    B = get_b(D, x, y);
    return true;
}
inline bool verify_with_b(const Z& D, const Z& B, const uint8_t* xs, const uint8_t* blob, size_t len, uint64_t iters, uint64_t depth, Bytes& y_out) {
    y_out.clear();
    if (!len_ok(len, FORM, depth)) return false;
    Form x, pi;
    if (!decode(D, xs, FORM, false, x)) return false;
    if (!walk_segments(D, x, blob, len, FORM, iters, true)) return false;
    if (!decode(D, blob, FORM, false, pi) || B == 0) return false;
    Form y = weso_lhs(D, x, pi, B, iters);
    if (get_b(D, x, y) != B) return false;
    y_out = ser(y, D);
    return true;
}
inline std::string hex(const uint8_t* p, size_t n) { static const char* H = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += H[p[i] >> 4]; s += H[p[i] & 15]; } return s; }
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
}  // namespace ref
