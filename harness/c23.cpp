// C23: partial extended gcd and the gcd kernels. Modes: xgcd, base, k128, unsigned.
#include "vdfcut.hpp"
using vh::Rng; using ref::Z;

struct Step { Z r0, r1; };           // consecutive remainders
static std::vector<Z> euclid(const Z& a, const Z& b) { std::vector<Z> v{a, b}; while (v.back() != 0) { Z r; mpz_fdiv_r(r.get_mpz_t(), v[v.size() - 2].get_mpz_t(), v.back().get_mpz_t()); v.push_back(r); } return v; }
static bool consecutive(const std::vector<Z>& e, const Z& x, const Z& y, size_t* at = nullptr) { for (size_t i = 0; i + 1 < e.size(); i++) if (e[i] == x && e[i + 1] == y) { if (at) *at = i; return true; } return false; }
// operands: random, from quotient sequences (big quotients, ones, powers of two), equal, multiples, limb boundaries
static unsigned last_kind;
static void operands(Rng& r, unsigned bits, Z& a, Z& b) {
    unsigned m = r.below(9); last_kind = m;
    auto rb = [&](unsigned n) { n = n ? n : 1; auto v = r.bytes((n + 7) / 8); Z z = ref::from_be(v.data(), v.size()); mpz_fdiv_r_2exp(z.get_mpz_t(), z.get_mpz_t(), n); return z; };
    if (m <= 2) { a = rb(bits); mpz_setbit(a.get_mpz_t(), bits - 1); b = m == 2 ? rb(1 + r.below(bits)) : rb(bits); }
    else if (m <= 6) {
        Z x = m == 3 ? Z(1) : rb(1 + r.below(std::min(bits, 40u))) + 1, y = 0;     // gcd x
        for (int g = 0; g < 4000; g++) {
            Z q;
            switch (m) { case 3: q = 1; break; case 4: q = 1 + Z((unsigned long)r.below(4)); break; case 5: q = r.chance(1, 5) ? rb(1 + r.below(70)) + 1 : Z(1 + (unsigned long)r.below(3)); break; default: q = Z(1) << r.below(9); q += (long)r.below(3) - 1; if (q < 1) q = 1; }
            Z n = q * x + y; if (ref::nbits(n) > bits) break; y = x; x = n;
        }
        a = x; b = y;
    } else if (m == 7) { a = (Z(1) << bits) - 1 - Z((unsigned long)r.below(3)); b = r.chance(1, 2) ? Z(a - (long)r.below(3)) : Z((Z(1) << (1 + r.below(bits))) - (long)r.below(2)); }
    else { a = rb(bits) + 1; Z k = 1 + rb(1 + r.below(bits)); b = a / k; if (r.chance(1, 3)) a = b * k; }
    if (b > a) std::swap(a, b);
    if (a < 1) a = 1;
    if (b < 0) b = 0;
}
static std::string h(const Z& z) { return z.get_str(16); }

static void mode_xgcd(const vh::Opts& o) {
    vh::cases(o, 231, o.cases, [&](long long i, Rng& r) {
        unsigned bits = i % 3 == 0 ? r.range(1, 140) : i % 3 == 1 ? 64 * r.range(1, 18) + r.below(3) - 1 : r.range(1, 1100);
        Z a, b; operands(r, bits, a, b); if (b == a) b = a - 1;
        if (b < 0) b = 0;
        auto e = euclid(a, b);
        Z L;
        switch (r.below(6)) { case 0: mpz_sqrt(L.get_mpz_t(), a.get_mpz_t()); break; case 1: L = 0; break; case 2: L = e[r.below(e.size())]; break; case 3: L = e[r.below(e.size())] + (long)r.below(3) - 1; break; case 4: mpz_fdiv_q_2exp(L.get_mpz_t(), a.get_mpz_t(), r.below(bits + 1)); break; default: mpz_root(L.get_mpz_t(), a.get_mpz_t(), 2 + r.below(4)); }
        if (L < 0) L = 0;
        std::string d = "r2=" + h(a) + " r1=" + h(b) + " L=" + h(L);
        vh::at("xgcd", d);
        Z co2 = 77, co1 = -5, r2 = a, r1 = b, Lc = L;
        mpz_xgcd_partial(co2.get_mpz_t(), co1.get_mpz_t(), r2.get_mpz_t(), r1.get_mpz_t(), Lc.get_mpz_t());
        d += " -> r2=" + h(r2) + " r1=" + h(r1) + " co2=" + h(co2) + " co1=" + h(co1);
        vh::eval(d); vh::count("xgcd_calls");
        if (Lc != L) vh::viol("xgcd:bound_modified", d);
        size_t at = 0;
        if (!consecutive(e, r2, r1, &at)) { vh::viol("xgcd:not_consecutive_remainders", d); return; }
        if (r1 > L) vh::viol("xgcd:above_bound", d);
        if (r1 < 0 || r2 < 0) vh::viol("xgcd:negative", d);
        Z cross = co2 * r1 - co1 * r2; if (abs(cross) != a) vh::viol("xgcd:cofactors", d);
        // each cofactor multiplies the second operand to the remainder (mod the first)
        if (a > 1) { Z t = co1 * b - r1, s = co1 * b + r1, u = co2 * b - r2, w = co2 * b + r2; if (t % a != 0 && s % a != 0) vh::viol("xgcd:cofactor1", d); if (u % a != 0 && w % a != 0) vh::viol("xgcd:cofactor2", d); }
        vh::count("xgcd_steps", at); if (at && e[at] > L) vh::count("xgcd_stopped_at_first_below"); if (at && e[at] <= L) vh::count("xgcd_overshoot");
        if (r1 == 0) vh::count("xgcd_ran_out"); if (ref::nbits(a) > 64) vh::count("xgcd_multi_limb");
        if (i < 2) vh::sample(d.substr(0, 900));
    });
}

// a matrix with sign pattern given by parity, entries are magnitudes
static bool check_matrix(const char* k, const Z& a, const Z& b, Z u0, Z u1, Z v0, Z v1, int parity, const Z& limit, bool lehmer, unsigned ext, Rng& r, std::string d, Z& na, Z& nb) {
    std::string K = k;
    d += " a=" + h(a) + " b=" + h(b) + " u=" + h(u0) + "," + h(u1) + " v=" + h(v0) + "," + h(v1) + " parity=" + std::to_string(parity);
    if (u0 > limit || u1 > limit || v0 > limit || v1 > limit) { vh::viol(K + ":entry_bound", d); return false; }
    Z det = u0 * v1 - v0 * u1; if (abs(det) != 1) { vh::viol(K + ":determinant", d); return false; }
    if ((det == 1) != (parity == 0)) { vh::viol(K + ":parity", d); return false; }
    auto apply = [&](const Z& x, const Z& y, Z& p, Z& q) { p = u0 * x - v0 * y; q = v1 * y - u1 * x; if (parity) { p = -p; q = -q; } };
    apply(a, b, na, nb);
    auto e = euclid(a, b);
    if (!consecutive(e, na, nb)) { vh::viol(K + ":not_consecutive_remainders", d + " gives " + h(na) + "," + h(nb)); return false; }
    if (lehmer) for (int q = 0; q < 4; q++) {     // any continuation of the operands must take the same quotients
        Z lo = r.bytes(1)[0], hi, m = (Z(1) << ext) - 1; auto v = r.bytes(ext / 8 + 1); Z x = ref::from_be(v.data(), v.size()) & m; v = r.bytes(ext / 8 + 1); Z y = ref::from_be(v.data(), v.size()) & m;
        if (q == 0) { x = 0; y = m; } if (q == 1) { x = m; y = 0; } if (q == 2) x = y;
        Z A = (a << ext) + x, B = (b << ext) + y, p, s; if (B > A) continue;
        apply(A, B, p, s); auto E = euclid(A, B);
        if (!consecutive(E, p, s)) { vh::viol(K + ":lehmer_prefix", d + " extended A=" + h(A) + " B=" + h(B)); return false; }
    }
    return true;
}

static void mode_base(const vh::Opts& o) {
    vh::cases(o, 232, o.cases, [&](long long i, Rng& r) {
        unsigned bits = r.chance(1, 3) ? 50 : r.range(2, 53); Z a, b; operands(r, bits, a, b); if (ref::nbits(a) > 53) return; if (b == 0) b = 1;
        bool leh = r.chance(1, 2); Z thr = r.chance(1, 2) ? Z(0) : Z(a >> r.range(1, bits)); if (thr >= a) thr = a - 1; if (thr < 0) thr = 0;
        for (int k = 0; k < 3; k++) {
            const char* nm = k == 0 ? "base_cel" : k == 1 ? "base_avx2" : "base_cpp";
            std::string d = std::string(nm) + " thr=" + h(thr) + " lehmer=" + std::to_string(leh);
            vh::at(nm, d + " a=" + h(a) + " b=" + h(b));
            double ab[2] = {a.get_d(), b.get_d()}, u[2] = {1, 0}, v[2] = {0, 1}, th[2] = {thr.get_d(), thr.get_d()}; uint64 lm[2] = {leh ? ~0ull : 0, leh ? ~0ull : 0}, np = 7;
            if (k < 2) { int rc = k ? asm_code::asm_avx2_func_gcd_base(ab, u, v, lm, th, &np) : asm_code::asm_cel_func_gcd_base(ab, u, v, lm, th, &np); if (rc) { vh::count(std::string(nm) + "_error"); continue; } }
            else { vector2 x{ab[0], ab[1]}; matrix2 uv; np = !gcd_base_continued_fraction(x, uv, leh, th[0]); ab[0] = x[0]; ab[1] = x[1]; u[0] = uv[0][0]; u[1] = uv[1][0]; v[0] = uv[0][1]; v[1] = uv[1][1]; }
            vh::eval(d + h(a) + "," + h(b)); vh::count(nm);
            if (np == 1) { vh::count(std::string(nm) + "_no_progress"); continue; }
            if (np != 0) { vh::viol(std::string(nm) + ":flag", d); continue; }
            for (double x : {ab[0], ab[1], u[0], u[1], v[0], v[1]}) if (!(fabs(x) <= 9007199254740991.0) || x != floor(x)) vh::viol(std::string(nm) + ":not_exact", d);
            int par = v[1] < 0; Z na, nb;
            if (!check_matrix(nm, a, b, Z(fabs(u[0])), Z(fabs(u[1])), Z(fabs(v[0])), Z(fabs(v[1])), par, Z("9007199254740991"), leh, 1 + r.below(80), r, d, na, nb)) continue;
            if (na != Z(ab[0]) || nb != Z(ab[1])) vh::viol(std::string(nm) + ":reported_operands", d + " a=" + h(a) + " b=" + h(b) + " reported " + h(Z(ab[0])) + "," + h(Z(ab[1])));
            if (na <= thr) vh::viol(std::string(nm) + ":past_threshold", d + " a=" + h(a) + " b=" + h(b));
        }
    });
}
static void mode_128(const vh::Opts& o) {
    auto U = [](const Z& z) { uint128 v = 0; Z t = z >> 64; v = mpz_get_ui(t.get_mpz_t()); v <<= 64; v |= mpz_get_ui(z.get_mpz_t()); return v; };
    auto Zo = [](uint128 v) { return (Z((unsigned long)(v >> 64)) << 64) + Z((unsigned long)v); };
    vh::cases(o, 233, o.cases, [&](long long i, Rng& r) {
        unsigned bits = r.chance(1, 2) ? 128 : r.range(2, 128); Z a, b; operands(r, bits, a, b); if (ref::nbits(a) > 128) return;
        bool leh = r.chance(1, 2); if (leh && r.chance(3, 4)) { if (ref::nbits(a) < 120) { a <<= (128 - ref::nbits(a)); b <<= r.below(20); if (b > a) b = a; } }
        Z thr = r.chance(1, 2) ? Z(0) : Z(a >> r.range(1, bits)); if (thr >= a) thr = a - 1; if (thr < 0) thr = 0;
        for (int k = 0; k < 3; k++) {
            const char* nm = k == 0 ? "k128_cel" : k == 1 ? "k128_avx2" : "k128_cpp";
            if (k == 2 && gcd_base_bits > 53) continue;   // the portable version is only exact with the 50-bit base
            std::string d = std::string(nm) + " thr=" + h(thr) + " lehmer=" + std::to_string(leh);
            vh::at(nm, d + " a=" + h(a) + " b=" + h(b));
            asm_code::asm_func_gcd_128_data x; memset(&x, 0x5a, sizeof x);
            uint128 ua = U(a), ub = U(b), ut = U(thr);
            x.ab_start_0_0 = (uint64)ua; x.ab_start_0_8 = (uint64)(ua >> 64); x.ab_start_1_0 = (uint64)ub; x.ab_start_1_8 = (uint64)(ub >> 64);
            x.is_lehmer = leh; x.ab_threshold_0 = (uint64)ut; x.ab_threshold_8 = (uint64)(ut >> 64);
            int rc = 0;
            if (k == 0) rc = asm_code::asm_cel_func_gcd_128(&x); else if (k == 1) rc = asm_code::asm_avx2_func_gcd_128(&x);
            else { array<uint128, 2> ab{ua, ub}; array<array<uint64, 2>, 2> uv; int par; x.no_progress = !gcd_128(ab, uv, par, leh, ut); x.u_0 = uv[0][0]; x.u_1 = uv[1][0]; x.v_0 = uv[0][1]; x.v_1 = uv[1][1]; x.parity = par; }
            vh::eval(d + h(a) + "," + h(b)); vh::count(nm);
            if (rc) { vh::count(std::string(nm) + "_error"); continue; }
            if (x.no_progress == 1) { vh::count(std::string(nm) + "_no_progress"); continue; }
            if (x.no_progress != 0 || x.parity > 1) { vh::viol(std::string(nm) + ":flag", d); continue; }
            Z na, nb;
            if (!check_matrix(nm, a, b, Z((unsigned long)x.u_0), Z((unsigned long)x.u_1), Z((unsigned long)x.v_0), Z((unsigned long)x.v_1), (int)x.parity, Z("ffffffffffffffff", 16), leh, 1 + r.below(200), r, d, na, nb)) continue;
            if (na <= thr) vh::viol(std::string(nm) + ":past_threshold", d + " a=" + h(a) + " b=" + h(b));
            vh::maxi(std::string(nm) + "_entry_bits", std::max(ref::nbits(Z((unsigned long)x.u_1)), ref::nbits(Z((unsigned long)x.v_1))));
            if (i < 2) vh::sample(d + " a=" + h(a) + " b=" + h(b));
        }
        (void)Zo;
    });
}
static void mode_unsigned(const vh::Opts& o) {
    constexpr int N = gcd_size, MI = gcd_max_iterations;
    vh::cases(o, 234, o.cases, [&](long long i, Rng& r) {
        unsigned bits = i % 3 == 0 ? r.range(1, 64 * N - 1) : i % 3 == 1 ? 64 * r.range(1, N) - r.below(3) : r.range(500, 540);
        Z a, b; operands(r, bits, a, b); if (ref::nbits(a) > 64u * N) return;
        Z thr; switch (r.below(4)) { case 0: thr = 0; break; case 1: mpz_sqrt(thr.get_mpz_t(), a.get_mpz_t()); break; case 2: { auto e = euclid(a, b); thr = e[r.below(e.size())] + (long)r.below(3) - 1; break; } default: thr = a >> (1 + r.below(bits)); }
        if (thr >= a) thr = a - 1; if (thr < 0) thr = 0;
        auto e = euclid(a, b); size_t want = 0; while (e[want + 1] > thr) want++;
        for (int k = 0; k < 2; k++) {
            const char* nm = k ? "unsigned_avx2" : "unsigned_cel";
            std::string d = std::string(nm) + " a=" + h(a) + " b=" + h(b) + " thr=" + h(thr);
            vh::at(nm, d);
            // guard words around every buffer show writes outside
            const uint64 G = 0x6a6a6a6a6a6a6a6aull;
            struct alignas(64) Buf { uint64 pre[8], w[N + 4], post[8]; };
            static Buf A, B, A2, B2, T; for (Buf* q : {&A, &B, &A2, &B2, &T}) { for (auto& w : q->pre) w = G; for (auto& w : q->post) w = G; for (int j = 0; j < N; j++) q->w[j] = 0; for (int j = N; j < N + 4; j++) q->w[j] = G; }
            auto put = [&](Buf& q, const Z& z) { size_t n; mpz_export(q.w, &n, -1, 8, 0, 0, z.get_mpz_t()); };
            put(A, a); put(B, b); put(T, thr); for (int j = 0; j < N; j++) { A2.w[j] = r.next(); B2.w[j] = r.next(); }
            struct alignas(64) UV { uint64 w[8]; }; static UV uv[MI + 4]; for (auto& q : uv) for (auto& w : q.w) w = G;
            uint64 counter = 5000;
            asm_code::asm_func_gcd_unsigned_data x; x.a = A.w; x.b = B.w; x.a_2 = A2.w; x.b_2 = B2.w; x.threshold = T.w; x.uv_counter_start = 5000; x.out_uv_counter_addr = &counter; x.out_uv_addr = (uint64*)&uv[2]; x.iter = -1;
            unsigned limbs = (ref::nbits(a) + 63) / 64; x.a_end_index = limbs ? limbs - 1 : 0;
            int rc = k ? asm_code::asm_avx2_func_gcd_unsigned(&x) : asm_code::asm_cel_func_gcd_unsigned(&x);
            vh::eval(d); vh::count(nm);
            for (Buf* q : {&A, &B, &A2, &B2, &T}) { for (auto w : q->pre) if (w != G) { vh::viol(std::string(nm) + ":writes_outside", d); break; } for (auto w : q->post) if (w != G) { vh::viol(std::string(nm) + ":writes_outside", d); break; } for (int j = N; j < N + 4; j++) if (q->w[j] != G) { vh::viol(std::string(nm) + ":writes_outside", d); break; } }
            if (uv[0].w[0] != G || uv[MI + 3].w[0] != G) vh::viol(std::string(nm) + ":uv_writes_outside", d);
            auto get = [&](Buf& q) { Z z; mpz_import(z.get_mpz_t(), N, -1, 8, 0, 0, q.w); return z; };
            if (get(T) != thr) vh::viol(std::string(nm) + ":threshold_modified", d);
            bool plain = last_kind <= 1 && bits > 128 && ref::nbits(b) + 40 > ref::nbits(a) && (thr == 0 || ref::nbits(thr) + 40 < ref::nbits(a));
            if (plain) vh::count(std::string(nm) + "_ordinary");
            if (rc) { vh::count(std::string(nm) + "_declined"); if (plain) vh::count(std::string(nm) + "_ordinary_declined"); continue; }
            vh::count(std::string(nm) + "_completed");
            if (x.iter < 0 || x.iter > MI) { vh::viol(std::string(nm) + ":iteration_count", d + " iter=" + std::to_string((long long)x.iter)); continue; }
            bool even = ((x.iter - 1) & 1) == 0; Z fa = get(even ? A2 : A), fb = get(even ? B2 : B);
            if (fa != e[want] || fb != e[want + 1]) { vh::viol(std::string(nm) + ":result", d + " got " + h(fa) + "," + h(fb) + " want " + h(e[want]) + "," + h(e[want + 1])); continue; }
            Z ca = a, cb = b; bool ok = true;
            for (int j = 0; j <= x.iter && ok; j++) {
                auto& q = uv[j + 1].w;          // the kernel writes entry -1's exit flag too
                if ((uv[j + 1].w[5] != 0) != (j == x.iter)) { vh::viol(std::string(nm) + ":exit_flag", d + " entry " + std::to_string(j - 1)); ok = false; break; }
                (void)q; if (j == x.iter) break;
                auto& m = uv[j + 2].w; Z na, nb;
                if (m[4] > 1) { vh::viol(std::string(nm) + ":parity_flag", d); ok = false; break; }
                ok = check_matrix(nm, ca, cb, Z((unsigned long)m[0]), Z((unsigned long)m[1]), Z((unsigned long)m[2]), Z((unsigned long)m[3]), (int)m[4], Z("ffffffffffffffff", 16), false, 0, r, d + " step " + std::to_string(j), na, nb);
                ca = na; cb = nb; vh::count("unsigned_steps");
            }
            if (ok && (ca != fa || cb != fb)) vh::viol(std::string(nm) + ":product", d);
            if (x.iter > 0 && counter != 5000 + (uint64)x.iter - 1) vh::viol(std::string(nm) + ":progress_counter", d + " counter " + std::to_string(counter - 5000) + " iter " + std::to_string((long long)x.iter));
            vh::maxi("unsigned_iterations", x.iter);
            if (i < 2) vh::sample(d.substr(0, 700));
        }
    });
}
int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv); cut::setup();
    if (o.str("base") == "50") { gcd_base_bits = 50; gcd_128_max_iter = 3; }
    if (o.mode == "xgcd") mode_xgcd(o); else if (o.mode == "base") mode_base(o); else if (o.mode == "k128") mode_128(o); else mode_unsigned(o);
    return vh::finish();
}
