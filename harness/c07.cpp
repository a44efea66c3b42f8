// C07: hostile arguments at the C, C++ entry points. Every buffer is an exact-size heap block so the sanitizer sees any byte too far.
#include <thread>
#include <time.h>
#include <pthread.h>
#include <new>
#include "cut.hpp"
#include "grp.hpp"

// absurd sizes fail the way they would without a sanitizer: bad_alloc
void* operator new(size_t n) { void* p = n > (4ull << 30) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ---- a call that burns more than `limit` CPU seconds is a hang
static pthread_t main_thread; static std::atomic<long> call_start_ms{-1}; static std::string cur_kind, cur_detail; static std::mutex cur_m;
static long cpu_ms() { clockid_t c; timespec t; pthread_getcpuclockid(main_thread, &c); clock_gettime(c, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
static long limit_ms = 60000;
static void watchdog() { while (true) { usleep(200000); long s = call_start_ms; if (s >= 0 && cpu_ms() - s > limit_ms) { std::lock_guard<std::mutex> l(cur_m); vh::viol("hang:" + cur_kind, "no return after " + std::to_string(limit_ms / 1000) + " s of CPU: " + cur_detail); vh::finish(); _exit(0); } } }
template <class F> static void call(const char* kind, const std::string& d, F f) {
    { std::lock_guard<std::mutex> l(cur_m); cur_kind = kind; cur_detail = d; } vh::at(kind, d.substr(0, 5000));
    long t0 = cpu_ms(); call_start_ms = t0;
    std::string res;
    try { res = f(); } catch (const std::exception&) { res = "exception"; } catch (...) { vh::viol(std::string("not_std_exception:") + kind, d); res = "exception"; }
    call_start_ms = -1; long t = cpu_ms() - t0; vh::maxi("call_ms", t);
    vh::eval(std::string(kind) + d); vh::count(std::string("calls_") + kind); vh::count(std::string("outcome_") + res);
}
struct Buf { uint8_t* p; size_t n; Buf(const Bytes& b, bool null_if_empty = false) : p(b.empty() && null_if_empty ? nullptr : (uint8_t*)malloc(b.size())), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Buf() { free(p); } Buf(const Buf&) = delete; };

static Z hostile_D(Rng& r, int& kind) {
    kind = r.below(12);
    switch (kind) {
        case 0: return Z((long)r.range(0, 600)) - 300;
        case 1: return -(4 * gen::rnd_bits(r, r.range(1, 64)) + (long)r.below(4));
        case 2: return gen::rnd_bits(r, r.range(1, 1100));
        case 3: return -gen::rnd_bits(r, r.range(1, 1100));
        case 4: { Z q = gen::rnd_bits(r, r.range(1, 500)); return -(q * q); }
        case 5: { Z q = 2 * gen::rnd_bits(r, r.range(1, 300)) + 1, p = 2 * gen::rnd_bits(r, r.range(1, 200)) + 1; return -(q * q * p); }
        case 6: { Z p = 1; p <<= r.range(0, 1100); return (r.chance(1, 2) ? -p : p) + (long)r.below(9) - 4; }
        case 7: return -(8 * gen::rnd_bits(r, r.range(1, 1021)) + 7);
        default: return gen::prime_disc(r, r.range(5, 100));
    }
}
static Bytes hostile_form(Rng& r, const Z& D, const Bytes* good) {
    Bytes b(100, 0); unsigned m = r.below(10);
    size_t nb = ref::nbits(abs(D)), d32 = (nb + 31) / 32 * 32;
    switch (m) {
        case 0: b = r.bytes(100); break;
        case 1: b[0] = 8; break;
        case 2: b[0] = 4; break;
        case 3: b[0] = r.below(16); if (r.chance(1, 2)) b[1 + r.below(99)] = r.next(); break;
        case 4: { b[0] = r.below(4); b[1] = r.chance(1, 2) ? 0 : r.below(d32 / 32 + 2); size_t lim = std::min<size_t>(98, d32 / 32 * 3 + 4); for (size_t i = 2; i < 2 + lim && i < 100; i++) if (r.chance(1, 3)) b[i] = r.chance(1, 2) ? r.next() : r.below(4); break; }
        case 5: { // encoding of an arbitrary pair (a, b), whether or not it is a form of this discriminant
            Z a = 1 + gen::rnd_bits(r, r.range(1, std::max<unsigned>(1, nb / 2 + r.below(3)))), bb = gen::rnd_bits(r, ref::nbits(a)); if (bb > a) bb = a; if (r.chance(1, 2)) bb = -bb; Bytes o; if (ref::encode(a, bb, std::min<size_t>(nb ? nb : 1, 1024), o)) b = o; break; }
        case 6: case 7: if (good) { b = *good; int k = r.below(4); while (k-- > 0) b[r.below(100)] ^= 1 << r.below(8); break; } // fallthrough
        default: if (good) b = *good; else if (D < 0 && fmod(1, 2) && ref::fmod_(D, 8) == 1) { Form f = r.chance(1, 2) ? ref::identity(D) : gen::rnd_form(r, D); Bytes e = enc(f, D); if (e.size() == 100) b = e; }
    }
    b.resize(100); return b;
}
static uint64_t hostile_u64(Rng& r) { switch (r.below(7)) { case 0: return r.below(5); case 1: return ~0ull - r.below(3); case 2: return 1ull << r.below(64); case 3: return (1ull << r.below(64)) - 1; case 4: return r.next(); default: return r.below(300); } }
static std::string H(const Bytes& b) { return ref::hex(b); }

static void verify_all(Rng& r, const Z& D, const Bytes& xs, const Bytes& blob, uint64_t T, uint64_t bits, uint64_t depth, const Z& B) {
    std::string d = "D=" + D.get_str(10) + " x=" + H(xs) + " T=" + std::to_string(T) + " bits=" + std::to_string(bits) + " depth=" + std::to_string(depth) + " blob=" + std::to_string(blob.size()) + ":" + H(blob).substr(0, 1200);
    Buf x(xs), p(blob, r.chance(1, 2));
    integer Di = cut::I(D);
    call("verify_n", d, [&] { return CheckProofOfTimeNWesolowski(Di, x.p, p.p, p.n, T, bits, depth) ? "true" : "false"; });
    if (blob.size() >= 100 && r.chance(1, 2)) { Bytes rest(blob.begin() + (r.chance(4, 5) ? 100 : 0), blob.end()); Buf q(rest); call("with_b", d + " B=" + B.get_str(16), [&] { auto g = CheckProofOfTimeNWesolowskiWithB(Di, cut::I(B), x.p, q.p, q.n, T, depth); if (!g.first && !g.second.empty()) vh::viol("with_b:output_on_failure", d); return g.first ? "true" : "false"; }); }
    if (r.chance(1, 2)) call("get_b", d, [&] { GetBFromProof(Di, x.p, p.p, p.n, T, depth); return "value"; });
    if (r.chance(1, 2)) { Bytes db = ref::to_be(abs(D), (ref::nbits(abs(D)) + 7) / 8); db.resize((ref::nbits(abs(D)) + 7) / 8); if (r.chance(1, 6)) db.insert(db.begin(), r.below(4), 0); Buf dd(db, true); call("c_verify", d, [&] { return verify_n_wesolowski_wrapper(dd.p, dd.n, x.p, p.p, p.n, T, depth) ? "true" : "false"; }); }
    if (blob.size() >= 200) call("simple", d, [&] { form fx = DeserializeForm(Di, x.p, 100), fy = DeserializeForm(Di, p.p, 100), fp = DeserializeForm(Di, p.p + 100, 100); bool v = false; VerifyWesolowskiProof(Di, fx, fy, fp, T, v); return v ? "true" : "false"; });
}

static void mode_verify(const vh::Opts& o) {
    vh::cases(o, 71, o.cases, [&](long long i, Rng& r) {
        int kind; Z D = hostile_D(r, kind); uint64_t bits = ref::nbits(abs(D)); Bytes gx; bool sane = kind >= 7 && D < 0 && bits <= 1024 && ref::fmod_(D, 8) == 1;
        if (sane && kind > 7) { gx = enc(gen::rnd_form(r, D), D); if (gx.size() != 100) sane = false; }
        const Bytes* good = sane && kind > 7 ? &gx : nullptr;
        uint64_t depth = r.chance(1, 2) ? 0 : r.below(4); size_t len = 200 + 141 * depth; uint64_t T = hostile_u64(r), T0 = T;
        Bytes xs = hostile_form(r, D, good), blob; auto put = [&](const Bytes& b) { blob.insert(blob.end(), b.begin(), b.end()); };
        put(hostile_form(r, D, good)); put(hostile_form(r, D, good));
        for (uint64_t k = 0; k < depth; k++) { uint64_t t = r.chance(2, 3) ? (T0 ? r.below(T0) : 0) : hostile_u64(r); ref::put_be64(blob, t); Bytes B = r.chance(1, 3) ? Bytes(33, 0) : r.bytes(33); if (r.chance(1, 6)) B[32] = r.below(3); put(B); put(hostile_form(r, D, good)); }
        if (good && r.chance(1, 2)) { // a genuine statement with at most one thing wrong
            uint64_t t = r.below(60); Form x, y; ref::decode(D, gx.data(), 100, false, x); y = ref::square_n(x, t, D); xs = gx; blob = enc(y, D); put(enc(ref::weso_proof(D, x, y, t), D)); depth = 0; T = t; if (r.chance(1, 3)) blob[r.below(blob.size())] ^= 1 << r.below(8); if (r.chance(1, 4)) depth = r.below(3); blob.resize(200); }
        if (r.chance(1, 5)) { size_t n = r.chance(1, 2) ? r.below(700) : blob.size() + r.below(3) - 1; blob.resize(n); }
        if (r.chance(1, 8)) depth = hostile_u64(r);
        if (r.chance(1, 8)) bits = hostile_u64(r);
        Z B; switch (r.below(6)) { case 0: B = 0; break; case 1: B = -gen::rnd_bits(r, 200); break; case 2: B = 1; break; case 3: B = gen::rnd_bits(r, r.range(1, 3000)); break; default: B = gen::rnd_bits(r, 264); }
        verify_all(r, D, xs, blob, T, bits, depth, B);
        if (i < 2) vh::sample("D=" + D.get_str(10) + " blob=" + H(blob));
        // decoding
        Bytes f = hostile_form(r, D, good); if (r.chance(1, 6)) f.resize(r.below(140)); Buf b(f); integer Di = cut::I(D);
        for (bool strict : {false, true}) call("deserialize", "D=" + D.get_str(10) + " strict=" + std::to_string(strict) + " " + H(f), [&] { form g = DeserializeForm(Di, b.p, b.n, strict); return "value"; });
    });
}
// every small discriminant of either sign with every small encoding
static void mode_tiny(const vh::Opts& o) {
    long lim = o.num("limit", 120);
    vh::cases(o, 72, 2 * lim + 1, [&](long long i, Rng& r) {
        Z D = (long)i - lim; std::vector<Bytes> fs;
        for (int fl = 0; fl < 16; fl++) { Bytes b(100, 0); b[0] = fl; fs.push_back(b); }
        for (int k = 0; k < 60; k++) { Bytes b(100, 0); b[0] = r.below(4); b[2] = r.below(12); b[3] = r.chance(1, 12); b[4] = r.below(6); b[5] = r.chance(3, 4) ? 1 : r.below(4); b[6] = r.below(4); fs.push_back(b); }
        for (size_t k = 0; k < 150; k++) { Bytes xs = r.pick(fs), blob = r.pick(fs), p = r.pick(fs); blob.insert(blob.end(), p.begin(), p.end()); uint64_t depth = r.below(4) == 0; if (depth) { ref::put_be64(blob, r.below(10)); Bytes B = r.bytes(33); if (r.chance(1, 3)) { B.assign(33, 0); B[32] = r.below(4); } blob.insert(blob.end(), B.begin(), B.end()); Bytes q = r.pick(fs); blob.insert(blob.end(), q.begin(), q.end()); }
            verify_all(r, D, xs, blob, r.below(50), ref::nbits(abs(D)), depth, Z((long)r.range(0, 20)) - 2); }
    });
}
static void mode_make(const vh::Opts& o) {
    vh::cases(o, 73, o.cases, [&](long long i, Rng& r) {
        static const std::vector<size_t> szs = {0, 1, 7, 8, 9, 16, 24, 64, 128, 256, 512, 1000, 1016, 1024, 1025, 1032, 2048, 4096, 0x7fffffff, 0x7ffffff8, 0x80000000ull, 0xfffffff8ull, 0x100000008ull, 0x100000400ull, ~0ull, ~7ull};
        size_t bits = r.chance(1, 2) ? r.pick(szs) : 8 * r.range(1, 40);
        Bytes seed = r.bytes(r.chance(1, 4) ? r.below(3) : r.below(200)); if (r.chance(1, 8)) std::fill(seed.begin(), seed.end(), 0xff);
        size_t outn = bits <= 65536 ? (bits + 7) / 8 : 8; Buf s(seed, r.chance(1, 2)); Bytes canary = r.bytes(outn); Buf out(canary);
        std::string d = "bits=" + std::to_string(bits) + " seed=" + H(seed);
        bool okargs = ref::disc_args_ok(seed.size(), bits > 4096 ? -1 : (long long)bits);
        call("c_create", d, [&] { bool k = create_discriminant_wrapper(s.p, s.n, bits, out.p); if (!k && outn && memcmp(out.p, canary.data(), outn)) vh::viol("create:wrote_on_failure", d); if (k && !okargs) vh::viol("create:accepted", d); return k ? "true" : "false"; });
        if (r.chance(1, 2)) {
            uint64_t T = r.chance(1, 3) && o.num("huge", 1) ? std::vector<uint64_t>{~0ull, ~0ull - 1, ~0ull - 30, 1ull << 63, (1ull << 63) + 5, 1ull << 62, ~0ull - 400}[r.below(7)] : r.below(120);
            size_t pb = r.chance(1, 4) ? r.pick(szs) : 8 * r.range(2, 24); Bytes ps = r.bytes(r.chance(1, 5) ? r.below(2) : 1 + r.below(40)), xs;
            if (ref::disc_args_ok(ps.size(), pb > 4096 ? -1 : (long long)pb)) { Z D = ref::create_discriminant(ps, pb); if (D != 0) xs = hostile_form(r, D, nullptr); } if (xs.empty()) { xs = Bytes(100, 0); xs[0] = 8; }
            if (r.chance(1, 5)) xs.resize(r.below(140)); Buf q(ps, true), x(xs, r.chance(1, 2));
            std::string e = "bits=" + std::to_string(pb) + " seed=" + H(ps) + " x=" + H(xs) + " T=" + std::to_string(T);
            call("c_prove", e, [&] { ByteArray b = prove_wrapper(q.p, q.n, x.p, x.n, pb, T); bool k = b.data != nullptr; if (k && b.length != 200) vh::viol("prove:length", e); if (!k && b.length) vh::viol("prove:length_on_failure", e); if (k && T > 1000) vh::viol("prove:impossible", e); if (k) for (size_t j = 0; j < b.length; j++) { volatile uint8_t z = b.data[j]; (void)z; } delete_byte_array(b); return k ? "value" : "null"; });
        }
        if (r.chance(1, 3)) { int lb = r.chance(1, 2) ? (int)r.pick(szs) : -(int)r.below(100); Bytes sd = seed; call("cpp_create", "len=" + std::to_string(lb) + " seed=" + H(seed), [&] { integer D = CreateDiscriminant(sd, lb); return "value"; }); }
        if (r.chance(1, 3)) { Bytes blob = r.bytes(r.chance(1, 2) ? 200 : r.below(500)); Bytes xs(100, 0); xs[0] = 8; Buf x(xs), p(blob, true); uint32_t b = (uint32_t)(r.chance(1, 2) ? r.pick(szs) : r.below(1100)); uint64_t dp = hostile_u64(r); if (r.chance(1, 2)) dp = 0; if (r.chance(1, 2)) std::fill(p.p, p.p + p.n, 0), p.n ? p.p[0] = 4 : 0; std::vector<uint8_t> sd = seed; call("seeded_verify", d + " b=" + std::to_string(b), [&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(sd, b, x.p, p.p, p.n, hostile_u64(r), dp) ? "true" : "false"; }); }
        if (i < 1) vh::sample(d);
    });
}
int main(int argc, char** argv) {
    vh::R(); auto o = vh::parse(argc, argv); main_thread = pthread_self(); limit_ms = o.num("limit_ms", 60000); std::thread(watchdog).detach();
    if (o.mode == "verify") mode_verify(o); else if (o.mode == "tiny") mode_tiny(o); else if (o.mode == "make") mode_make(o); else vh::harness_error("mode");
    return vh::finish();
}
