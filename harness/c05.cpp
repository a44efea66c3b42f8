// C05: discriminant derivation, judged through the C wrapper and the C++ entry point against the reference expansion.
#include "cut.hpp"
using vh::Rng;

static std::vector<uint8_t> mk_seed(Rng& r, long long i) {
    static const size_t lens[] = {1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 100, 119, 120, 128, 1000};
    size_t n = i % 3 == 0 ? lens[r.below(sizeof lens / sizeof *lens)] : i % 97 == 5 ? r.range(1000, 20000) : r.range(1, 80);
    std::vector<uint8_t> s = r.bytes(n);
    switch (r.below(8)) {
        case 0: std::fill(s.begin(), s.end(), 0xff); break;                       // wraps to zero on the first increment
        case 1: std::fill(s.begin(), s.end(), 0); break;
        case 2: for (size_t k = s.size() > 6 ? s.size() - r.below(6) - 1 : 0; k < s.size(); k++) s[k] = 0xff; break;   // long carry
        case 3: s.back() = (uint8_t)(0xf0 + r.below(16)); break;
        case 4: if (s.size() > 1) { s[s.size() - 1] = 0xff; s[s.size() - 2] = (uint8_t)(0xfe + r.below(2)); } break;
        default: break;
    }
    return s;
}

int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv);
    FILE* dump = o.str("dump").empty() ? nullptr : fopen((o.str("dump") + "." + std::to_string(o.shard)).c_str(), "w");
    vh::cases(o, 5, o.cases, [&](long long i, Rng& r) {
        std::vector<uint8_t> seed = mk_seed(r, i);
        bool bad = r.chance(1, 5);
        long long bits = 8 * (long long)(i % 128 + 1);
        if (bits > 768 && r.chance(1, 2)) bits = 8 * (long long)r.range(1, 64);
        unsigned long long size_arg = (unsigned long long)bits;
        if (bad) {
            static const unsigned long long bads[] = {0, 1, 7, 9, 12, 63, 255, 257, 1023, 1025, 1028, 1032, 1040, 2048, 4096, 0x7fffffff, 0x7ffffff8, 0x80000000ull, 0x80000008ull, 0xfffffff8ull, 0x100000000ull, 0x100000200ull, 0x100000400ull, 0x8000000000000000ull, 0xfffffffffffffff8ull, 0xffffffffffffffffull};
            switch (r.below(4)) {
                case 0: seed.clear(); break;
                case 1: size_arg = bits + r.range(1, 7); break;
                default: size_arg = bads[r.below(sizeof bads / sizeof *bads)];
            }
        }
        bool want_ok = !seed.empty() && size_arg > 0 && size_arg <= 1024 && size_arg % 8 == 0;
        ref::Z D; int attempts = 0;
        if (want_ok) D = -ref::hash_prime(seed, (int)size_arg, {0, 1, 2, (int)size_arg - 1}, &attempts);
        if (want_ok && D == 0) { want_ok = false; vh::count("cycling_seeds"); }      // short seed whose sequence holds no prime
        std::string desc = "seed=" + ref::hex(seed) + " bits=" + std::to_string(size_arg);
        vh::eval(desc);
        vh::count(want_ok ? "derived" : "refused_inputs");
        if (want_ok) { vh::maxi("candidates", attempts); vh::count("candidates_hashed", attempts); }

        // C wrapper, with canaries around exactly the documented result size
        size_t nbytes = want_ok ? size_arg / 8 : 128;
        if (seed.size() == 1) vh::at("derive", desc);
        std::vector<uint8_t> buf(64 + nbytes + 64, 0xA5), seed_copy = seed;
        seed_copy.shrink_to_fit();
        bool ok = create_discriminant_wrapper(seed_copy.data(), seed_copy.size(), size_arg, buf.data() + 64);
        if (seed_copy != seed) vh::viol("c_wrapper:seed_modified", desc);
        if (ok != want_ok) vh::viol("c_wrapper:accept", desc + " returned " + (ok ? "true" : "false"));
        bool canary = true;
        for (size_t k = 0; k < buf.size(); k++) if ((k < 64 || k >= 64 + nbytes || !want_ok) && buf[k] != 0xA5) canary = false;
        if (!canary) vh::viol(want_ok ? "c_wrapper:wrote_outside" : "c_wrapper:wrote_on_failure", desc);
        if (ok && want_ok) {
            ref::Z got = ref::from_be(buf.data() + 64, nbytes);
            if (got != -D) vh::viol("c_wrapper:value", desc + " got " + got.get_str(16) + " want " + ref::Z(-D).get_str(16));
            // independent of the reference expansion: shape of the result
            if (ref::nbits(got) != size_arg || mpz_fdiv_ui(got.get_mpz_t(), 8) != 7 || !ref::is_prime(got)) vh::viol("c_wrapper:shape", desc);
        }
        // C++ entry point
        bool threw = false; ref::Z got;
        if (size_arg <= 0x7fffffff) {
            try { auto s2 = seed; integer d = CreateDiscriminant(s2, (int)size_arg); got = cut::Z(d); if (s2 != seed) vh::viol("cpp:seed_modified", desc); } catch (const std::exception& e) { threw = true; }
            if (threw == want_ok) vh::viol("cpp:accept", desc);
            if (want_ok && !threw && got != D) vh::viol("cpp:value", desc);
        }
        if (dump && size_arg <= 0x7fffffff) fprintf(dump, "%s %llu %s\n", seed.empty() ? "-" : ref::hex(seed).c_str(), size_arg, want_ok ? D.get_str(10).c_str() : "-");
        if (i < 4) vh::sample(desc.substr(0, 300) + " -> " + (want_ok ? D.get_str(16).substr(0, 40) : "refused"));
    });
    if (dump) fclose(dump);
    return vh::finish();
}
