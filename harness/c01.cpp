// C01: one-shot proving is complete, exact, deterministic; invalid arguments fail cleanly.
#include "cut.hpp"
using vh::Rng; using ref::Z; using ref::Form; using ref::Bytes;

static Bytes prove_c(const Bytes& seed, const Bytes& xs, size_t bits, uint64_t T, bool& null_) {
    ByteArray a = prove_wrapper(seed.data(), seed.size(), xs.data(), xs.size(), bits, T);
    null_ = a.data == nullptr;
    Bytes b; if (a.data) b.assign(a.data, a.data + a.length); else if (a.length != 0) vh::viol("fail:length_nonzero", "null data with length");
    delete_byte_array(a);
    return b;
}

// order of x in the class group, brute force (tiny discriminants)
static uint64_t order_of(const Form& x, const Z& D, uint64_t limit) {
    Form id = ref::identity(D), p = ref::reduce(x);
    for (uint64_t n = 1; n <= limit; n++) { if (p == id) return n; p = ref::compose(p, x, D); }
    return 0;
}

static void one(const Bytes& seed, unsigned bits, const Form* xf, int kind, uint64_t T, bool big) {
    Z D = -ref::hash_prime(seed, bits, {0, 1, 2, (int)bits - 1});
    if (D == 0) return;
    Form x; Rng r(vh::fnv(seed.data(), seed.size()), bits, T);
    if (xf) x = *xf;
    else if (kind == 0) ref::make(2, 1, D, x), x = ref::reduce(x);
    else if (kind == 1) x = ref::identity(D);
    else x = gen::rnd_form(r, D);
    Bytes xs = ref::ser(x, D);
    if (kind == 0) { xs.assign(100, 0); xs[0] = 8; }
    std::string desc = "seed=" + ref::hex(seed) + " bits=" + std::to_string(bits) + " T=" + std::to_string(T) + " x=" + ref::hex(xs);
    vh::at("prove", desc);
    Form back; if (!ref::decode(D, xs.data(), xs.size(), false, back) || back != x) { vh::count("skipped_unencodable"); return; }
    vh::eval(desc); vh::count("proved"); vh::maxi("iterations", T); vh::maxi("disc_bits", bits);
    vh::count(T < 100 ? "T_tiny" : T < 65536 ? "T_mid" : "T_large");
    bool null_;
    Bytes xs_copy = xs, seed_copy = seed;
    Bytes p = prove_c(seed_copy, xs_copy, bits, T, null_);
    if (xs_copy != xs || seed_copy != seed) vh::viol("inputs_modified", desc);
    if (null_) { vh::viol("complete:failed", desc); return; }
    if (p.size() != 200) { vh::viol("output:length", desc + " len=" + std::to_string(p.size())); return; }
    Form y;
    if (big) { uint64_t o = order_of(x, D, 1u << 22); if (!o) vh::harness_error("order not found"); Z e = ref::pow2_mod(T, Z((unsigned long)o)); y = ref::pow(x, e, D); vh::count("order_oracle"); }
    else y = ref::square_n(x, T, D);
    if (Bytes(p.begin(), p.begin() + 100) != ref::ser(y, D)) { vh::viol("output:y", desc + " got " + ref::hex(p.data(), 100) + " want " + ref::hex(ref::ser(y, D))); return; }
    Form pi;
    if (!ref::decode(D, p.data() + 100, 100, true, pi)) { vh::viol("output:proof_encoding", desc + " " + ref::hex(p)); return; }
    if (!ref::verify_weso(D, x, y, pi, T)) { vh::viol("output:proof_invalid", desc + " " + ref::hex(p)); return; }
    // public verifiers
    Bytes db = ref::to_be(-D, bits / 8);
    if (!verify_n_wesolowski_wrapper(db.data(), db.size(), xs.data(), p.data(), p.size(), T, 0)) vh::viol("verifier:c", desc);
    auto guard = [&](const char* what, std::function<bool()> f) { try { if (!f()) vh::viol(std::string("verifier:") + what, desc); } catch (const std::exception& e) { vh::viol(std::string("verifier:") + what, desc + " threw " + e.what()); } };
    integer Di = cut::I(D);
    guard("seeded", [&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(seed, bits, xs.data(), p.data(), p.size(), T, 0); });
    guard("simple", [&] { form fx = DeserializeForm(Di, xs.data(), 100), fy = DeserializeForm(Di, p.data(), 100), fp = DeserializeForm(Di, p.data() + 100, 100); bool v = false; VerifyWesolowskiProof(Di, fx, fy, fp, T, v); return v; });
    guard("with_b", [&] { integer B = GetBFromProof(Di, xs.data(), p.data(), p.size(), T, 0); auto q = CheckProofOfTimeNWesolowskiWithB(Di, B, xs.data(), p.data() + 100, 100, T, 0); return q.first && Bytes(q.second) == Bytes(p.begin(), p.begin() + 100); });
    if (!big) { Bytes p2 = prove_c(seed, xs, bits, T, null_); if (p2 != p) vh::viol("determinism", desc); }
    static std::atomic<int> n{0};
    if (n++ < 4) vh::sample(desc.substr(0, 400) + " -> " + ref::hex(p).substr(0, 60));
}

int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv);
    if (o.mode == "big") {           // iteration counts where the prover switches to several interleaved passes (T > 10^7)
        vh::cases(o, 103, o.cases, [&](long long i, Rng& r) {
            static const uint64_t Ts[] = {10000000, 10002511, 9999989, 10485760, 12000001, 10007777};
            one(r.bytes(12), 32, nullptr, i % 3 == 1 ? 2 : 0, i < 3 ? Ts[i] + r.below(1000) : Ts[i % 6] + r.below(300000), true);
        });
        return vh::finish();
    }
    if (o.mode == "invalid") {
        vh::cases(o, 102, o.cases, [&](long long i, Rng& r) {
            unsigned bits = 8 * r.range(8, 64);
            Bytes seed = r.bytes(r.range(3, 40));
            Z D = ref::create_discriminant(seed, bits);
            Bytes xs = ref::ser(gen::rnd_form(r, D), D);
            size_t size = bits; uint64_t T = r.below(200);
            int kind = i % 6;
            switch (kind) {
                case 0: xs.resize(r.chance(1, 2) ? r.below(100) : 101 + r.below(60)); break;
                case 1: seed.clear(); break;
                case 2: { static const size_t b[] = {0, 1, 4, 7, 1025, 1032, 4096, (size_t)1 << 31, ((size_t)1 << 32) + 512, ~(size_t)0, ~(size_t)0 - 7}; size = b[r.below(11)]; break; }
                case 3: size = bits + r.range(1, 7); break;
                case 4: xs = r.bytes(100); xs[0] &= ~12; break;
                case 5: xs[2 + r.below(bits / 16)] ^= (uint8_t)(1 + r.below(255)); break;
            }
            if (kind == 4 || kind == 5) { Form f; if (ref::decode(D, xs.data(), xs.size(), false, f)) { vh::count("mutant_still_valid"); return; } }
            std::string desc = "seed=" + ref::hex(seed) + " bits=" + std::to_string(size) + " T=" + std::to_string(T) + " x=" + ref::hex(xs);
            vh::at("invalid", desc); vh::eval(desc); vh::count("invalid_requests");
            bool null_; Bytes p = prove_c(seed, xs, size, T, null_);
            if (!null_) vh::viol("invalid:proof_produced", desc + " kind=" + std::to_string(kind));
        });
        return vh::finish();
    }
    vh::cases(o, 101, o.cases, [&](long long i, Rng& r) {
        static const unsigned small_bits[] = {8, 16, 24, 32, 40, 48, 56, 64, 72, 88, 96, 104, 128, 136, 160, 192, 200, 256};
        unsigned bits = i % 4 ? small_bits[r.below(18)] : 8 * r.range(1, 128);
        uint64_t T;
        if (i < 320) T = i;                                     // every small count once
        else switch (r.below(4)) {
            case 0: T = r.below(400); break;
            case 1: T = (1ull << r.range(1, 12)) + r.range(0, 4) - 2; break;
            case 2: T = r.below(4000); break;
            default: T = r.below(20000); break;
        }
        if (bits > 600) T %= 900;
        else if (bits > 256) T %= 3000;
        if (i % 200 == 7 && i > 320) { bits = 64; T = 65536 + r.below(40000) - 500; }
        one(r.bytes(r.range(4, 48)), bits, nullptr, (int)r.below(3) == 0 ? 0 : r.chance(1, 20) ? 1 : 2, T, false);
    });
    return vh::finish();
}
