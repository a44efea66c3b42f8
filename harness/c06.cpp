// C06: compressed encoding. Modes: exhaustive (all reduced forms / all strings of tiny discriminants), random, mutate.
#include "cut.hpp"
using vh::Rng; using ref::Z; using ref::Form; using ref::Bytes;

static bool code_decode(const integer& D, const Bytes& s, bool strict, Form& f, std::string* err = nullptr) {
    try { form g = DeserializeForm(D, s.data(), s.size(), strict); f = cut::F(g); return true; } catch (const std::exception& e) { if (err) *err = e.what(); return false; }
}
static std::string ds(const Z& D) { return "D=" + D.get_str(10); }

static void check_element(const Z& D, const integer& Di, const Form& f) {
    std::string desc = ds(D) + " form=" + cut::str(f);
    // exact-size heap buffer so that any write past 100 bytes is seen by ASan
    Bytes buf(100, 0xEE); integer a = cut::I(f.a), b = cut::I(f.b);
    int rc = bqfc_serialize(buf.data(), a.impl, b.impl, ref::nbits(abs(D)));
    if (rc != 0) { vh::viol("encode:failed", desc); return; }
    if (cut::Z(a) != f.a || cut::Z(b) != f.b) vh::viol("encode:modified_input", desc);
    form g = cut::mk(f); Bytes s2 = SerializeForm(g, ref::nbits(abs(D)));
    if (s2 != buf) vh::viol("encode:surfaces_differ", desc);
    for (int strict = 0; strict < 2; strict++) {
        Form back; std::string e;
        if (!code_decode(Di, buf, strict, back, &e)) { vh::viol(strict ? "roundtrip:strict_refused" : "roundtrip:lenient_refused", desc + " enc=" + ref::hex(buf) + " " + e); continue; }
        if (back != f) vh::viol("roundtrip:value", desc + " enc=" + ref::hex(buf) + " got " + cut::str(back));
    }
    Bytes re; if (!ref::encode(f.a, f.b, ref::nbits(abs(D)), re) || re != buf) vh::viol("encode:format", desc + " got " + ref::hex(buf) + " want " + ref::hex(re));
}

static void judge_string(const Z& D, const integer& Di, const Bytes& s, const char* what) {
    std::string desc = ds(D) + " bytes=" + ref::hex(s) + " (" + what + ")";
    for (int strict = 0; strict < 2; strict++) {
        Form got, want; bool ok = code_decode(Di, s, strict, got);
        bool rok = ref::decode(D, s.data(), s.size(), strict, want);
        vh::count(ok ? (strict ? "strict_accepted" : "lenient_accepted") : "refused");
        if (ok) {
            if (!ref::valid_form(got, D) || !ref::is_reduced(got)) { vh::viol(strict ? "strict:invalid_element" : "lenient:invalid_element", desc + " got " + cut::str(got)); continue; }
            bool special = s[0] & 12;
            if (strict && !special && ref::ser(got, D) != s) vh::viol("strict:second_encoding", desc + " decodes to " + cut::str(got) + " canonical " + ref::hex(ref::ser(got, D)));
        }
        if (ok != rok) vh::viol(strict ? "strict:accept_differs" : "lenient:accept_differs", desc + (ok ? " accepted" : " refused") + ", definition says otherwise");
        else if (ok && got != want) vh::viol(strict ? "strict:value" : "lenient:value", desc + " got " + cut::str(got) + " want " + cut::str(want));
        // the strict set is a subset of the lenient one
        if (strict && ok) { Form l; if (!code_decode(Di, s, false, l) || l != got) vh::viol("strict_not_subset", desc); }
    }
}

// all reduced forms of discriminant D (|D| small)
static std::vector<Form> all_forms(long D) {
    std::vector<Form> v; long n = -D;
    for (long b = n & 1; 3 * b * b <= n; b += 2) {
        long m = (b * b + n) / 4;
        for (long a = std::max(b, 1L); a * a <= m; a++) if (m % a == 0) {
            Form f; f.a = a; f.b = b; f.c = m / a; v.push_back(f);
            if (b > 0 && b < a && a * a < m) { f.b = -b; v.push_back(f); }
        }
    }
    return v;
}

int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv);
    if (o.mode == "exhaustive") {
        // every prime discriminant = 1 mod 8 below the limit (plus all 8-bit strings of tiny sizes): every reduced form
        long lim = o.num("limit", 40000), k = 0;
        for (long n = 7; n < lim; n += 8) {
            if (!ref::is_prime(Z(n))) continue;
            if ((unsigned)(k++ % o.nshards) != o.shard) continue;
            Z D = -n; integer Di = cut::I(D);
            vh::at("forms", ds(D));
            auto v = all_forms(-n);
            for (auto& f : v) { check_element(D, Di, f); vh::eval(ds(D) + cut::str(f)); vh::count("forms_enumerated"); }
            vh::count("discriminants");
            // every (flags, a', t', g, b0) string for the small alphabet
            if (k % 61 == 1) {
                for (int fl = 0; fl < 4; fl++) for (int a = 0; a < 256; a += 1) for (int t = 0; t < 16; t++) for (int g = 0; g < 3; g++) for (int b0 = 0; b0 < 3; b0++) {
                    Bytes s(100, 0); s[0] = fl; s[2] = a; s[4] = t; s[5] = g; s[6] = b0;
                    Form want; bool interesting = ref::decode(D, s.data(), 100, false, want);
                    if (!interesting && (a * 7 + t * 3 + g + b0) % 11) { Form got; if (code_decode(Di, s, false, got)) judge_string(D, Di, s, "enum"); vh::count("strings_enumerated"); continue; }
                    judge_string(D, Di, s, "enum"); vh::count("strings_enumerated");
                }
            }
        }
        return vh::finish();
    }
    if (o.mode == "medium") {         // whole class groups of scattered 20..32-bit discriminants
        vh::cases(o, 61, o.cases, [&](long long i, Rng& r) {
            Z D = gen::prime_disc(r, 18 + i % 12); integer Di = cut::I(D);
            vh::at("forms", ds(D));
            for (auto& f : all_forms(D.get_si())) { check_element(D, Di, f); vh::eval(ds(D) + cut::str(f)); vh::count("forms_enumerated"); }
            vh::count("discriminants");
        });
        return vh::finish();
    }
    vh::cases(o, 62, o.cases, [&](long long i, Rng& r) {
        unsigned bits = i % 3 == 0 ? 8 * r.range(1, 128) : i % 3 == 1 ? r.range(4, 1024) : 1024;
        if (bits < 5) bits = 5;
        Z D; Form wide; bool is_wide = false;
        if (i % 4 == 2) {
            unsigned gb = r.range(2, 100), hb = gb + r.range(1, 140); if (2 * (gb + hb) > 1000) hb = 500 - gb; unsigned cb = gb + hb + r.range(1, 40);
            if (i % 16 != 2 && gb > 40) { gb = r.range(9, 40); hb = gb + r.range(1, 60); cb = gb + hb + r.range(1, 30); }
            is_wide = gen::wide_form(r, gb, hb, cb, D, wide);
        }
        if (!is_wide) D = gen::prime_disc(r, bits); else bits = ref::nbits(abs(D));
        integer Di = cut::I(D);
        for (int rep = 0; rep < 6; rep++) {
            Form f = gen::rnd_form(r, D);
            if (is_wide && rep < 2) { f = wide; if (rep) f.b = -f.b; vh::count("constructed_wide_elements"); } else
            switch (r.below(6)) {        // shapes with |b|=a, a=c, common factors between a and its cofactor, tiny a
                case 0: f = ref::identity(D); break;
                case 1: { Form g; for (int t = 0; t < 50; t++) { unsigned long p = 2 + r.below(300); if (ref::is_prime(Z(p)) && gen::prime_form(D, p, g)) { f = ref::reduce(g); break; } } break; }
                case 2: f = ref::square(f, D); break;
                case 3: {   // build a non-reduced or structured 'a' with many small factors: product of small prime forms
                    Form g = ref::identity(D);
                    for (int t = 0, c = 0; t < 80 && c < 12 && ref::nbits(g.a) + 8 < bits / 2; t++) { unsigned long p = 2 + r.below(200); Form q; if (ref::is_prime(Z(p)) && gen::prime_form(D, p, q)) { for (int e = r.below(4); e >= 0 && ref::nbits(g.a) + 8 < bits / 2; e--) g = ref::compose(g, q, D); c++; } }
                    f = g; break; }
                default: break;
            }
            f = ref::reduce(f);
            vh::at("element", ds(D) + " " + cut::str(f));
            check_element(D, Di, f); vh::eval(ds(D) + cut::str(f)); vh::count("elements");
            Bytes s = ref::ser(f, D);
            if (s[1] > 0 && s[0] < 4) { vh::count("elements_with_wide_g"); vh::maxi("g_bytes", s[1] + 1); if (s[1] > 1) vh::count("elements_with_g_of_3_or_more_bytes"); }
            size_t d32 = (bits + 31) / 32 * 32;
            if (s[0] < 4 && s[2 + d32 / 16 - s[1] + d32 / 32 - s[1]] > 1) vh::count("elements_with_common_factor");
            // strings around it
            auto J = [&](const Bytes& m, const char* w) { vh::at("string", ds(D) + " " + ref::hex(m)); judge_string(D, Di, m, w); vh::eval(vh::fnv(m.data(), m.size(), vh::fnv(ds(D)))); vh::count("strings"); };
            J(s, "canonical");
            { Bytes m = s; m[0] ^= 1; J(m, "b sign"); } { Bytes m = s; m[0] ^= 2; J(m, "t sign"); } { Bytes m = s; m[0] ^= 3; J(m, "both signs"); }
            { Bytes m = s; m[0] ^= (uint8_t)(16 << r.below(4)); J(m, "reserved flag"); }
            { Bytes m = s; m[r.below(100)] ^= (uint8_t)(1 << r.below(8)); J(m, "bit flip"); }
            { Bytes m = s; m[1] = (uint8_t)r.below(256); J(m, "g size"); } { Bytes m = s; m[1]++; J(m, "g size+1"); }
            { Bytes m = s; m[99] = 1 + r.below(255); J(m, "padding"); } { size_t used = d32 / 32 * 3 + 4; if (used < 100) { Bytes m = s; m[used] = 1; J(m, "first padding byte"); } }
            { Bytes m = s; m.resize(r.below(100)); Form g; if (code_decode(Di, m, false, g) || code_decode(Di, m, true, g)) vh::viol("length:short_accepted", ds(D) + ref::hex(m)); m = s; m.resize(101 + r.below(50)); if (code_decode(Di, m, false, g) || code_decode(Di, m, true, g)) vh::viol("length:long_accepted", ds(D) + ref::hex(m)); vh::count("wrong_length", 2); }
            // other representatives of the same element in the same format: (c,-b), (c,-b+2c), (a,b+2ka), ...
            Z as[] = {f.c, f.a, f.a, f.a, f.a + f.b + f.c, f.a - f.b + f.c}, bs[] = {Z(-f.b), Z(f.b + 2 * f.a), Z(f.b - 2 * f.a), Z(f.b + 2 * f.a * Z((unsigned long)r.range(2, 60))), Z(f.b + 2 * f.a), Z(f.b - 2 * f.a)};
            bs[4] = -(2 * f.a + f.b); bs[5] = 2 * f.a - f.b; 
            for (int q = 0; q < 6; q++) { Bytes m; if (ref::encode(as[q], bs[q], ref::nbits(abs(D)), m)) { J(m, "other representative"); vh::count("nonreduced_strings"); } }
            // inflated b0
            if (s[0] < 4) { size_t gs = s[1], off = 2 + d32 / 16 - gs + d32 / 32 - gs + gs + 1; Bytes m = s; for (int q = 0; q < 3; q++) { m[off + (gs ? r.below(gs + 1) : 0)] += 1 + r.below(8); J(m, "inflated b0"); } Bytes m2 = s; m2[2 + d32 / 16 - gs + d32 / 32 - gs] = 0; J(m2, "g=0"); }
            // the element of another discriminant
            { Z D2 = gen::prime_disc(r, bits); integer Di2 = cut::I(D2); judge_string(D2, Di2, s, "other discriminant"); vh::count("strings"); }
            { Bytes m = r.bytes(100); m[0] &= 3; if (r.chance(1, 2)) m[1] = 0; J(m, "random"); }
            if (i < 2 && rep == 0) vh::sample(ds(D).substr(0, 200) + " " + cut::str(f).substr(0, 200) + " -> " + ref::hex(s));
        }
    });
    return vh::finish();
}
