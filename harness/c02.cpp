// C02/C03/C04: verifiers against the definition. Modes: simple, chain, withb.
#include "cut.hpp"
#include <unordered_map>
using vh::Rng; using ref::Z; using ref::Form; using ref::Bytes;

// ------------------------------------------------------------------ statements and their verdicts
struct St { Z D; unsigned bits; Bytes seed; Bytes xs, blob; uint64_t T = 0, depth = 0; };
static std::string ds(const St& s) {
    return "D=" + s.D.get_str(16) + " seed=" + ref::hex(s.seed) + " x=" + ref::hex(s.xs) + " T=" + std::to_string(s.T) + " depth=" + std::to_string(s.depth) + " blob=" + ref::hex(s.blob.data(), std::min<size_t>(s.blob.size(), 900));
}
static bool tryb(const std::function<bool()>& f) { try { return f(); } catch (const std::exception&) { return false; } }

static bool g_withb = false;
static void judge_b(const St& s, const char* what, bool full);

static bool judge(const St& s, const char* what) {
    vh::at("verify", ds(s) + " (" + what + ")");
    bool want = ref::verify_n(s.D, s.xs.data(), s.blob.data(), s.blob.size(), s.T, s.depth);
    integer Di = cut::I(s.D);
    uint64_t h = vh::fnv(s.blob.data(), s.blob.size(), vh::fnv(s.xs.data(), s.xs.size(), vh::fnv(s.D.get_str(16)) ^ (s.T * 0x9e3779b97f4a7c15ull + s.depth)));
    vh::eval(h); vh::count(want ? "statements_valid" : "statements_invalid");
    if (s.depth) vh::maxi("depth", s.depth < 1000 ? (long long)s.depth : 0);
    auto rep = [&](const char* surf, bool got) {
        vh::count(std::string("verdicts_") + surf);
        if (got != want) vh::viol(std::string(what) + ":" + surf + (got ? ":accepted" : ":rejected"), ds(s));
    };
    // exact-size heap copies: any read outside the supplied bytes is seen by ASan
    Bytes xs = s.xs, blob = s.blob;
    rep("direct", tryb([&] { return CheckProofOfTimeNWesolowski(Di, xs.data(), blob.data(), blob.size(), s.T, s.bits, s.depth); }));
    Bytes db = ref::to_be(-s.D, (s.bits + 7) / 8);
    rep("c_api", verify_n_wesolowski_wrapper(db.data(), db.size(), xs.data(), blob.data(), blob.size(), s.T, s.depth));
    if (!s.seed.empty()) rep("seeded", tryb([&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(s.seed, s.bits, xs.data(), blob.data(), blob.size(), s.T, s.depth); }));
    if (s.depth == 0 && s.blob.size() == 200) rep("simple", tryb([&] {
        form x = DeserializeForm(Di, xs.data(), xs.size()), y = DeserializeForm(Di, blob.data(), 100), p = DeserializeForm(Di, blob.data() + 100, 100);
        bool v = !want; VerifyWesolowskiProof(Di, x, y, p, s.T, v); return v; }));
    if (xs != s.xs || blob != s.blob) vh::viol("inputs_modified", ds(s));
    if (g_withb) judge_b(s, what, want);
    return want;
}

// verification with a supplied prime: blob without y
static void judge_with(const St& s, const Z& B, const Bytes& rest, const char* what) {
    vh::at("with_b", ds(s) + " B=" + B.get_str(16) + " (" + what + ")");
    Bytes wy; bool want = ref::verify_with_b(s.D, B, s.xs.data(), rest.data(), rest.size(), s.T, s.depth, wy);
    std::pair<bool, std::vector<uint8_t>> got(false, {});
    bool threw = false;
    try { got = CheckProofOfTimeNWesolowskiWithB(cut::I(s.D), cut::I(B), s.xs.data(), rest.data(), rest.size(), s.T, s.depth); } catch (const std::exception&) { threw = true; }
    vh::eval(vh::fnv(rest.data(), rest.size(), vh::fnv(s.xs.data(), s.xs.size(), vh::fnv(s.D.get_str(16) + B.get_str(16)) ^ (s.T * 31 + s.depth))));
    vh::count(want ? "with_b_valid" : threw ? "with_b_invalid_threw" : "with_b_invalid");
    std::string d = ds(s) + " B=" + B.get_str(16) + " rest=" + ref::hex(rest);
    if (got.first != want) vh::viol(std::string("with_b:") + what + (got.first ? ":accepted" : ":rejected"), d);
    else if (want && Bytes(got.second) != wy) vh::viol("with_b:output", d + " got " + ref::hex(got.second) + " want " + ref::hex(wy));
    else if (!want && !got.second.empty()) vh::viol("with_b:output_on_failure", d + " got " + ref::hex(got.second));
}
static void judge_b(const St& s, const char* what, bool full) {
    Z wb; bool wok = ref::get_b_from_proof(s.D, s.xs.data(), s.blob.data(), s.blob.size(), s.T, s.depth, wb);
    Z gb; bool gok = tryb([&] { gb = cut::Z(GetBFromProof(cut::I(s.D), s.xs.data(), s.blob.data(), s.blob.size(), s.T, s.depth)); return true; });
    vh::count(wok ? "primes_extracted" : "primes_refused");
    if (gok != wok) { vh::viol(std::string("get_b:") + what + (gok ? ":returned" : ":refused"), ds(s)); return; }
    if (!gok) return;
    if (gb != wb) { vh::viol("get_b:value", ds(s) + " got " + gb.get_str(16) + " want " + wb.get_str(16)); return; }
    Bytes rest(s.blob.begin() + 100, s.blob.end());
    judge_with(s, gb, rest, what);
    // the relation itself, independent of the reference route: success iff the full proof verifies, and the output is y
    integer Di = cut::I(s.D);
    bool f = tryb([&] { return CheckProofOfTimeNWesolowski(Di, s.xs.data(), s.blob.data(), s.blob.size(), s.T, s.bits, s.depth); });
    std::pair<bool, std::vector<uint8_t>> g(false, {});
    try { g = CheckProofOfTimeNWesolowskiWithB(Di, cut::I(gb), s.xs.data(), rest.data(), rest.size(), s.T, s.depth); } catch (const std::exception&) {}
    vh::count("route_agreements_checked");
    if (f != g.first || f != full) vh::viol(std::string("routes_disagree:") + what, ds(s));
    if (g.first) { Form y; ref::decode(s.D, s.blob.data(), 100, false, y); if (Bytes(g.second) != ref::ser(y, s.D)) vh::viol("routes_output", ds(s)); else if (Bytes(g.second) == Bytes(s.blob.begin(), s.blob.begin() + 100)) vh::count("output_bytes_identical"); }
}

// ------------------------------------------------------------------ groups in which arbitrary proofs can be built
#include "grp.hpp"
static uint64_t rnd_T(Rng& r, const Grp& G) {
    if (G.order == 0) return G.bits > 600 ? r.below(120) : r.below(700);
    switch (r.below(6)) {
        case 0: return r.below(50);
        case 1: return r.next();
        case 2: return ~0ull - r.below(3);
        case 3: return (1ull << r.range(30, 63)) + r.below(5) - 2;
        default: return r.below(1ull << r.range(1, 40));
    }
}
// other byte strings that encode an element (same one or a related one)
static std::vector<Bytes> relatives(Rng& r, const Bytes& e, const Z& D) {
    std::vector<Bytes> v; Form f;
    size_t nb = ref::nbits(abs(D)), d32 = (nb + 31) / 32 * 32;
    { Bytes m = e; m[0] ^= 1; v.push_back(m); }
    { Bytes m = e; m[0] ^= 2; v.push_back(m); }
    { Bytes m = e; m[r.below(d32 / 32 * 3 + 4)] ^= 1 << r.below(8); v.push_back(m); }
    { Bytes m(100, 0); m[0] = r.chance(1, 2) ? 4 : 8; v.push_back(m); }
    if (ref::decode(D, e.data(), 100, false, f)) {
        v.push_back(ref::ser(ref::inverse(f), D)); v.push_back(ref::ser(ref::square(f, D), D));
        Form g; ref::make(2, 1, D, g); v.push_back(ref::ser(ref::compose(f, g, D), D));
        Z aa[] = {f.c, f.a + f.b + f.c, f.a}, bb[] = {Z(-f.b), Z(-(2 * f.a + f.b)), Z(f.b + 2 * f.a)};   // lenient alternatives of the same element
        for (int i = 0; i < 3; i++) { Bytes m; if (ref::encode(aa[i], bb[i], nb, m) && m.size() == 100) v.push_back(m); }
    }
    return v;
}
static void sub(Bytes& b, size_t off, const Bytes& w) { std::copy(w.begin(), w.end(), b.begin() + off); }

// mutants every statement gets
static void mutate_common(Rng& r, const Grp& G, const St& s, int per) {
    for (int q = 0; q < per; q++) {
        St m = s; const char* what = "";
        switch (r.below(12)) {
            case 0: what = "T_off"; m.T += r.chance(1, 2) ? 1 : -1; break;
            case 1: what = "T_other"; { static const int sh[] = {8, 16, 31, 32, 33, 56, 62, 63}; m.T += 1ull << sh[r.below(8)]; } break;
            case 2: what = "byte"; m.blob[r.below(m.blob.size())] ^= 1 << r.below(8); break;
            case 3: what = "byte_add"; m.blob[r.below(m.blob.size())] += 1 + r.below(255); break;
            case 4: { what = "x_relative"; auto v = relatives(r, s.xs, s.D); m.xs = v[r.below(v.size())]; break; }
            case 5: { what = "y_relative"; auto v = relatives(r, Bytes(s.blob.begin(), s.blob.begin() + 100), s.D); sub(m.blob, 0, v[r.below(v.size())]); break; }
            case 6: { what = "pi_relative"; auto v = relatives(r, Bytes(s.blob.begin() + 100, s.blob.begin() + 200), s.D); sub(m.blob, 100, v[r.below(v.size())]); break; }
            case 7: { what = "swapped"; Bytes a(s.blob.begin(), s.blob.begin() + 100), b(s.blob.begin() + 100, s.blob.begin() + 200); int k = r.below(3); if (k == 0) { sub(m.blob, 0, b); sub(m.blob, 100, a); } else if (k == 1) { m.xs = a; sub(m.blob, 0, s.xs); } else { m.xs = b; sub(m.blob, 100, s.xs); } break; }
            case 8: what = "length"; { int k = r.below(4); if (k == 0) m.blob.resize(r.below(m.blob.size())); else if (k == 1) m.blob.resize(m.blob.size() + 1 + r.below(300)); else if (k == 2) m.blob.resize(m.blob.size() + 141); else m.blob.resize(m.blob.size() - 1); } break;
            case 9: what = "depth"; { static const uint64_t ds[] = {1, 2, 63, 64, 65, ~0ull, ~0ull / 141, ~0ull / 141 + 1, 1ull << 63, 1ull << 32}; uint64_t k = r.below(12); m.depth = k < 10 ? ds[k] : k == 10 ? s.depth + 1 : s.depth - 1;
                if (r.chance(1, 3)) m.depth = s.depth + (r.chance(1, 2) ? 0 : 0) + (r.chance(1, 2) ? (1ull << 32) : (1ull << 8)); } break;
            case 10: { what = "other_discriminant"; Grp H = mkgrp(r, G.bits, !G.seed.empty(), false); m.D = H.D; m.seed = H.seed; break; }
            case 11: what = "random_fields"; if (r.chance(1, 2)) m.xs = enc(gen::rnd_form(r, s.D), s.D); else sub(m.blob, r.chance(1, 2) ? 0 : 100, enc(gen::rnd_form(r, s.D), s.D)); break;
        }
        judge(m, what);
    }
}

static unsigned pick_bits(Rng& r, long long i) {
    static const unsigned small_[] = {8, 16, 24, 32, 40, 48, 56, 64, 96, 128, 160, 192, 256, 264, 320};
    if (i % 25 == 24) return 512 + 8 * r.range(0, 64);
    if (i % 5 == 4) return r.range(5, 300);
    return small_[r.below(15)];
}

static void case_simple(long long i, Rng& r) {
    bool ord = i % 3 == 0;
    unsigned bits = ord ? r.range(5, 44) : pick_bits(r, i);
    Grp G = mkgrp(r, bits, r.chance(1, 2), ord);
    uint64_t T = rnd_T(r, G);
    Seg h = honest(G, G.g, T);
    St s; s.D = G.D; s.bits = G.bits; s.seed = G.seed; s.T = T; s.xs = enc(G.g, G.D); s.blob = blob_of(G.D, {}, h);
    if (!judge(s, "honest")) vh::harness_error("reference proof does not verify under the reference verifier: " + ds(s));
    static std::atomic<int> n{0}; if (n++ < 3) vh::sample(ds(s).substr(0, 900));
    mutate_common(r, G, s, G.bits > 400 ? 6 : 10);
    if (ord && G.bits < 24) for (int q = 0; q < 12; q++) {      // tiny groups: accidental solutions of the equation exist
        St m = s; m.T = rnd_T(r, G); sub(m.blob, 0, enc(ref::pow(G.g, Z((unsigned long)r.below(1000)), G.D), G.D)); sub(m.blob, 100, enc(ref::pow(G.g, Z((unsigned long)r.below(1000)), G.D), G.D));
        if (judge(m, "tiny_group")) vh::count("accidentally_valid");
    }
    { // the proof that satisfies the equation for another prime only
        St m = s; Z B2 = h.B; int k = r.below(4); if (k == 0) B2 = h.B + 2; else if (k == 1) B2 = 1; else if (k == 2) B2 = 3; else B2 = ref::hash_prime(r.bytes(20), 264, {263});
        if (G.order != 0) { Z mm = B2 * G.order, R = ref::pow2_mod(T, mm); sub(m.blob, 100, enc(ref::pow(G.g, (R - ref::fmod_(R, B2)) / B2, G.D), G.D)); }
        else sub(m.blob, 100, enc(ref::pow(G.g, (Z(1) << T) / B2, G.D), G.D));
        judge(m, "proof_for_other_prime");
    }
}

// forged but locally consistent segment: arbitrary prime and proof, end computed from them
static Seg forged(Rng& r, const Grp& G, const Form& x, uint64_t T, const Z& B) {
    Seg s; s.T = T; s.x = x; s.B = B; s.pi = ref::pow(G.g, Z((unsigned long)r.below(1 << 20)), G.D); s.y = ref::weso_lhs(G.D, x, s.pi, B, T); return s;
}

// Lengths that fit the stated depth only modulo 2^64. The special elements leave 99 bytes of their encodings free, so
// segments can overlap the pair in front of them and still satisfy every equation (x = y, proofs 1, no iterations).
static void wrapped_depth(Rng& r, const Grp& G, const St& base, bool withb) {
    uint64_t inv = 141; for (int i = 0; i < 6; i++) inv *= 2 - 141 * inv;
    Form one = ref::identity(G.D); bool idx = r.chance(1, 2); Form x = idx ? one : G.g; Bytes X = enc(x, G.D), I = enc(one, G.D);
    bool special = (X[0] & 12) != 0; size_t fs = withb ? 100 : 200, n = 0; Bytes b; const char* what = "wrapped_depth";
    int k = r.below(4);
    if (k < 2 && special) {
        size_t e = r.range(42, 140), s = fs + e - 141; n = fs + e; b.assign(n, 0); if (!withb) { b[0] = X[0]; b[100] = I[0]; } else b[0] = I[0];
        for (int i = 0; i < 8; i++) b[s + i] = 0; sub(b, s + 8, ref::to_be(ref::get_b(G.D, x, x), 33)); b[s + 41] = I[0]; if (!withb) { b[0] = X[0]; b[100] = I[0]; } what = "wrapped_depth_overlap";
    } else if (k == 2) { n = r.range(1, fs - 1); b = r.bytes(n); if (r.chance(1, 2)) b[0] = X[0]; what = "wrapped_depth_short"; }
    else { b = withb ? Bytes(base.blob.begin() + 100, base.blob.end()) : base.blob; b.resize(b.size() + r.range(1, 140), r.chance(1, 2) ? 0 : I[0]); n = b.size(); what = "wrapped_depth_long"; }
    St m = base; m.seed.clear(); m.xs = X; m.T = k < 2 ? 0 : base.T; m.depth = inv * (n - fs); m.blob = b;
    vh::count(std::string("shape_") + what);
    if (withb) judge_with(m, ref::get_b(G.D, x, x), b, what); else judge(m, what);
}

static void case_chain(long long i, Rng& r) {
    bool ord = i % 2 == 0;
    unsigned bits = ord ? r.range(5, 44) : pick_bits(r, i);
    Grp G = mkgrp(r, bits, r.chance(1, 2), ord);
    size_t depth = i % 40 == 1 ? 64 : i % 40 == 3 ? r.range(8, 63) : r.below(5);
    if (G.bits > 300) depth = std::min<size_t>(depth, 2);
    std::vector<Seg> segs; Form x = G.g; uint64_t left = rnd_T(r, G), T = left;
    if (depth > 8 && !ord) T = left = r.below(4 * depth + 1);
    for (size_t k = 0; k < depth; k++) { uint64_t t = r.chance(1, 6) ? 0 : r.chance(1, 8) ? left : left / (depth - k + 1) + r.below(3); if (t > left) t = left; segs.push_back(honest(G, x, t)); x = segs.back().y; left -= t; }
    Seg fin = honest(G, x, left);
    St s; s.D = G.D; s.bits = G.bits; s.seed = G.seed; s.T = T; s.depth = depth; s.xs = enc(G.g, G.D); s.blob = blob_of(G.D, segs, fin);
    if (!judge(s, "honest")) vh::harness_error("reference chain does not verify under the reference verifier: " + ds(s));
    static std::atomic<int> n{0}; if (depth && n++ < 3) vh::sample(ds(s).substr(0, 700));
    mutate_common(r, G, s, depth > 8 ? 3 : 5);
    auto off = [&](size_t k) { return s.blob.size() - (k + 1) * 141; };   // segment k in time order
    for (int q = 0; q < (depth > 8 ? 4 : 10); q++) {
        St m = s; const char* what = "";
        int k = r.below(13);
        if (depth == 0 && (k < 7 || k == 12)) k = 7 + r.below(5);
        size_t j = depth ? r.below(depth) : 0;
        switch (k) {
            case 0: { what = "segment_dropped"; m.blob.erase(m.blob.begin() + off(j), m.blob.begin() + off(j) + 141); m.depth--; if (r.chance(1, 2)) m.T -= segs[j].T; break; }
            case 1: { what = "segment_duplicated"; Bytes d(m.blob.begin() + off(j), m.blob.begin() + off(j) + 141); m.blob.insert(m.blob.begin() + off(j), d.begin(), d.end()); m.depth++; if (r.chance(1, 2)) m.T += segs[j].T; break; }
            case 2: { what = "segments_swapped"; size_t j2 = r.below(depth); Bytes a(m.blob.begin() + off(j), m.blob.begin() + off(j) + 141), b(m.blob.begin() + off(j2), m.blob.begin() + off(j2) + 141); sub(m.blob, off(j), b); sub(m.blob, off(j2), a); break; }
            case 3: { what = "iterations_shifted"; size_t j2 = r.below(depth + 1); uint64_t d = 1 + r.below(3); Bytes w; ref::put_be64(w, segs[j].T - d); sub(m.blob, off(j), w); if (j2 < depth && j2 != j) { Bytes w2; ref::put_be64(w2, segs[j2].T + d); sub(m.blob, off(j2), w2); } else if (r.chance(1, 2)) m.T -= d; break; }
            case 4: { what = "prime_altered"; Z B = segs[j].B; int z = r.below(5); B = z == 0 ? Z(B + 2) : z == 1 ? Z(0) : z == 2 ? Z(1) : z == 3 ? fin.B : ref::hash_prime(r.bytes(9), 264, {263}); sub(m.blob, off(j) + 8, ref::to_be(B, 33)); break; }
            case 5: { what = "segment_proof_relative"; auto v = relatives(r, enc(segs[j].pi, G.D), G.D); sub(m.blob, off(j) + 41, v[r.below(v.size())]); break; }
            case 6: { what = "iteration_field"; Bytes w; ref::put_be64(w, segs[j].T ^ (1ull << r.below(64))); sub(m.blob, off(j), w); break; }
            case 7: case 8: {      // every local equation holds, the sum wraps past 64 bits or exceeds the total
                what = "sum_exceeds_total"; if (!ord) { if (T == 0) continue; }
                std::vector<Seg> v; Form y = G.g; uint64_t sum = 0; size_t d = r.range(1, 3);
                for (size_t z = 0; z < d; z++) { uint64_t t = ord ? (r.chance(1, 2) ? r.next() : (1ull << 63) + r.below(9)) : r.range(1, 60); v.push_back(honest(G, y, t)); y = v.back().y; sum += t; }
                m.T = ord ? r.chance(1, 2) ? v[0].T - 1 - r.below(5) : rnd_T(r, G) : sum - 1 - r.below(std::min<uint64_t>(sum, 5));
                uint64_t fT = m.T - sum;                       // wrapped
                if (!ord) fT = r.below(30);
                m.blob = blob_of(G.D, v, honest(G, y, fT)); m.depth = d; break; }
            case 9: case 10: {     // forged segment (prime chosen freely), everything else honest
                what = "forged_prime"; uint64_t t = ord ? rnd_T(r, G) >> 2 : r.below(60), f = ord ? rnd_T(r, G) >> 2 : r.below(60), g2 = r.below(40);
                Z B; int z = r.below(4); B = z == 0 ? Z(1) : z == 1 ? Z(3) : z == 2 ? Z(2) : ref::hash_prime(r.bytes(9), 264, {263});
                std::vector<Seg> v; Form y = G.g; size_t pos = r.below(3), d = 3 > pos ? pos + 1 + r.below(2) : 1; uint64_t sum = 0;
                for (size_t k2 = 0; k2 < d; k2++) { v.push_back(k2 == pos ? forged(r, G, y, t, B) : honest(G, y, g2)); y = v.back().y; sum += v.back().T; }
                m.blob = blob_of(G.D, v, honest(G, y, f)); m.T = sum + f; m.depth = d; break; }
            case 11: {             // the final pair proves a different start than the last segment's end
                what = "discontinuity"; uint64_t t = ord ? rnd_T(r, G) >> 1 : r.below(60), f = ord ? rnd_T(r, G) >> 1 : r.below(60);
                Seg a = honest(G, G.g, t), b = honest(G, r.chance(1, 2) ? G.g : ref::inverse(a.y), f);
                if (r.chance(1, 2)) { m.blob = blob_of(G.D, {a}, b); m.depth = 1; m.T = t + f; }
                else { Seg c = honest(G, b.y, 5); m.blob = blob_of(G.D, {a, b}, c); m.depth = 2; m.T = t + f + 5; }
                break; }
            case 12: {             // two neighbours merged under the first's or second's prime
                what = "merged"; if (depth < 2) continue; size_t a = r.below(depth - 1); std::vector<Seg> v = segs; Seg mg = v[a]; mg.T += v[a + 1].T; if (r.chance(1, 2)) mg.B = v[a + 1].B; mg.pi = ref::compose(v[a].pi, v[a + 1].pi, G.D);
                if (r.chance(1, 3)) mg = honest(G, v[a].x, mg.T > 4000 && !ord ? 1 : mg.T);   // correct merge stays valid
                v.erase(v.begin() + a, v.begin() + a + 2); v.insert(v.begin() + a, mg); m.blob = blob_of(G.D, v, fin); m.depth--; break; }
        }
        if (judge(m, what)) vh::count("structural_mutant_valid"); else vh::count("structural_mutant_invalid");
        vh::count(std::string("shape_") + what);
    }
    wrapped_depth(r, G, s, false); wrapped_depth(r, G, s, false);
}

static void case_withb(long long i, Rng& r) {
    bool ord = i % 2 == 0;
    unsigned bits = ord ? r.range(5, 40) : pick_bits(r, i);
    Grp G = mkgrp(r, bits, false, ord);
    size_t depth = i % 50 == 1 ? 64 : r.below(4); if (G.bits > 300) depth = std::min<size_t>(depth, 1);
    std::vector<Seg> segs; Form x = G.g; uint64_t left = depth > 8 ? r.below(300) : rnd_T(r, G), T = left;
    for (size_t k = 0; k < depth; k++) { uint64_t t = std::min(left, left / (depth - k + 1) + r.below(3)); segs.push_back(honest(G, x, t)); x = segs.back().y; left -= t; }
    Seg fin = honest(G, x, left);
    St s; s.D = G.D; s.bits = G.bits; s.T = T; s.depth = depth; s.xs = enc(G.g, G.D); s.blob = blob_of(G.D, segs, fin);
    g_withb = true;
    if (!judge(s, "honest")) vh::harness_error("reference chain does not verify: " + ds(s));
    static std::atomic<int> n{0}; if (n++ < 3) vh::sample(ds(s).substr(0, 700));
    mutate_common(r, G, s, depth > 8 ? 2 : 4);
    Bytes rest(s.blob.begin() + 100, s.blob.end());
    for (int q = 0; q < 6; q++) {
        St m = s; Z B = fin.B; Bytes rs = rest; const char* what = "prime";
        switch (r.below(9)) {
            case 0: B += 1 + r.below(4); break;
            case 1: B = r.below(3); what = "small_prime"; break;
            case 2: B = -B; what = "negative_prime"; break;
            case 3: B = depth ? segs[r.below(depth)].B : ref::hash_prime(r.bytes(8), 264, {263}); what = "other_prime"; break;
            case 4: if (ord) { B += G.order; what = "prime_plus_order"; } else B += Z(1) << (unsigned)r.range(256, 300); break;
            case 5: rs = s.blob; what = "blob_with_output"; break;
            case 6: rs.resize(rs.size() + (r.chance(1, 2) ? 141 : 100)); what = "extended"; break;
            case 7: if (rs.size() >= 141) rs.resize(rs.size() - 141 + (r.chance(1, 2) ? 0 : 41)); else rs.resize(rs.size() - 1); what = "truncated"; break;
            case 8: { auto v = relatives(r, enc(fin.pi, G.D), G.D); sub(rs, 0, v[r.below(v.size())]); what = "pi_relative"; break; }
        }
        judge_with(m, B, rs, what);
    }
    wrapped_depth(r, G, s, true); wrapped_depth(r, G, s, false);
    // sums that wrap, segments with forged primes: same constructions, through the prime route
    for (int q = 0; q < 2; q++) {
        St m = s; uint64_t t = ord ? r.next() : r.range(1, 60); Seg a = q ? forged(r, G, G.g, t >> 2, Z(3)) : honest(G, G.g, t);
        uint64_t f = q ? r.below(50) : ord ? r.next() : r.below(20); m.T = q ? a.T + f : ord ? a.T + f : a.T - 1; m.depth = 1;
        if (!q && ord && m.T >= a.T) { m.T = a.T - 1 - r.below(9); f = m.T - a.T; }
        Seg b = honest(G, a.y, f); m.blob = blob_of(G.D, {a}, b);
        judge(m, q ? "forged_prime" : "sum_exceeds_total");
        judge_with(m, b.B, Bytes(m.blob.begin() + 100, m.blob.end()), q ? "forged_prime" : "sum_exceeds_total");
    }
}

int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv);
    vh::cases(o, o.mode == "simple" ? 21 : o.mode == "chain" ? 22 : 23, o.cases, [&](long long i, Rng& r) {
        if (o.mode == "simple") case_simple(i, r); else if (o.mode == "chain") case_chain(i, r); else case_withb(i, r);
    });
    return vh::finish();
}
