// C18: the C API used from many threads at once: results equal the ones a caller alone gets, buffers stay intact, nothing is left behind.
#include <new>
#include <thread>
#include <sys/mman.h>
#include <malloc.h>
#include "cut.hpp"
#include "grp.hpp"

// ---- accounting of every byte obtained through operator new and GMP
static std::atomic<long long> live_bytes{0}, live_blocks{0};
static void* acc_alloc(size_t n) { char* p = (char*)malloc(n + 16); if (!p) return nullptr; *(size_t*)p = n; live_bytes += n; live_blocks++; return p + 16; }
static void acc_free(void* v) { if (!v) return; char* p = (char*)v - 16; live_bytes -= *(size_t*)p; live_blocks--; free(p); }
#ifdef ACCOUNT
void* operator new(size_t n) { void* p = n > (2ull << 30) ? nullptr : acc_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { acc_free(p); }
void operator delete[](void* p) noexcept { acc_free(p); }
void operator delete(void* p, size_t) noexcept { acc_free(p); }
void operator delete[](void* p, size_t) noexcept { acc_free(p); }
static void* g_alloc(size_t n) { void* p = acc_alloc(n); if (!p) abort(); return p; }
static void* g_realloc(void* v, size_t, size_t n) { void* q = g_alloc(n); size_t o = *(size_t*)((char*)v - 16); memcpy(q, v, std::min(o, n)); acc_free(v); return q; }
static void g_free(void* v, size_t) { acc_free(v); }
#endif

// ---- a caller's buffer: read-only pages with the data against an inaccessible one (either end)
struct Guarded {
    uint8_t* base; size_t map; uint8_t* p; size_t n;
    Guarded(const Bytes& b, bool at_end, bool ro) : n(b.size()) {
        size_t pg = 4096, len = (n + pg - 1) / pg * pg; if (!len) len = pg; map = len + 2 * pg;
        base = (uint8_t*)mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) vh::harness_error("mmap");
        p = at_end ? base + pg + len - n : base + pg; if (n) memcpy(p, b.data(), n);
        mprotect(base, pg, PROT_NONE); mprotect(base + pg + len, pg, PROT_NONE); if (ro) mprotect(base + pg, len, PROT_READ);
    }
    ~Guarded() { munmap(base, map); }
    Guarded(const Guarded&) = delete;
};
struct Task { int op; Bytes a, b, c; uint64_t T = 0, depth = 0; size_t bits = 0; std::string name, want; };
static std::string res_bytes(const uint8_t* p, size_t n) { return "ok:" + ref::hex(Bytes(p, p + n)); }
static std::string perform(const Task& t, bool at_end, bool guarded) {
    auto buf = [&](const Bytes& b) { return std::unique_ptr<Guarded>(guarded ? new Guarded(b, at_end, true) : nullptr); };
    auto a = buf(t.a), b = buf(t.b), c = buf(t.c);
    const uint8_t *pa = guarded ? a->p : t.a.data(), *pb = guarded ? b->p : t.b.data(), *pc = guarded ? c->p : t.c.data();
    switch (t.op) {
        case 0: { size_t n = t.bits <= 4096 ? (t.bits + 7) / 8 : 8; Bytes fill(n, 0xa5); std::string r;
            if (guarded) { Guarded out(fill, at_end, false); bool ok = create_discriminant_wrapper(pa, t.a.size(), t.bits, out.p); r = ok ? res_bytes(out.p, n) : memcmp(out.p, fill.data(), n) ? "fail_dirty" : "fail"; }
            else { fill.reserve(1); uint8_t* o = (uint8_t*)malloc(n ? n : 1); memcpy(o, fill.data(), n); bool ok = create_discriminant_wrapper(pa, t.a.size(), t.bits, o); r = ok ? res_bytes(o, n) : memcmp(o, fill.data(), n) ? "fail_dirty" : "fail"; free(o); }
            return r; }
        case 1: { ByteArray r = prove_wrapper(pa, t.a.size(), pb, t.b.size(), t.bits, t.T); std::string s = r.data ? res_bytes(r.data, r.length) : r.length ? "null_with_length" : "fail"; delete_byte_array(r); return s; }
        default: return verify_n_wesolowski_wrapper(pa, t.a.size(), pb, pc, t.c.size(), t.T, t.depth) ? "true" : "false";
    }
}
// A pool of calls with the answers the reference gives (not the code under test).
static std::vector<Task> pool(Rng& r, size_t n, bool heavy) {
    std::vector<Task> v;
    while (v.size() < n) {
        size_t bits = 8 * r.range(3, heavy ? 64 : 24); Bytes seed = r.bytes(r.range(2, 40)); Z D = ref::create_discriminant(seed, bits); if (D == 0) continue;
        Bytes mag = ref::to_be(abs(D), bits / 8), gen(100, 0); gen[0] = 8; uint64_t T = r.below(heavy ? 400 : 60);
        Form x{2, 1, (1 - D) / 8}; x = ref::reduce(x); Form y = ref::square_n(x, T, D), p = ref::weso_proof(D, x, y, T); Bytes blob = enc(y, D), pe = enc(p, D); blob.insert(blob.end(), pe.begin(), pe.end());
        Task c; c.op = 0; c.a = seed; c.bits = bits; c.name = "create"; c.want = "ok:" + ref::hex(mag); v.push_back(c);
        Task q; q.op = 1; q.a = seed; q.b = gen; q.bits = bits; q.T = T; q.name = "prove"; q.want = "ok:" + ref::hex(blob); v.push_back(q);
        Task w; w.op = 2; w.a = mag; w.b = gen; w.c = blob; w.T = T; w.name = "verify"; w.want = "true"; v.push_back(w);
        // failing calls, each for another reason
        Task f = c; f.name = "create_refused"; f.want = "fail"; if (r.chance(1, 2)) f.bits = r.pick(std::vector<size_t>{0, 9, 1032, 1ull << 31, 1ull << 40, ~0ull}); else f.a.clear(); v.push_back(f);
        f = q; f.name = "prove_refused"; f.want = "fail"; switch (r.below(4)) { case 0: f.b.resize(99); break; case 1: f.b = Bytes(100, 0); f.b[2] = 0xff; f.b[20] = 1; f.b[1] = 0xff; break; case 2: f.bits = 1 + bits; break;
#if defined(ACCOUNT)
            default: f.T = ~0ull - r.below(1000); break;
#else
            default: f.a.clear(); break;
#endif
        } v.push_back(f);
        f = w; f.name = "verify_refused"; f.want = "false"; switch (r.below(5)) { case 0: f.c[r.below(3)] ^= 16; f.c[1] = 0xff; break; case 1: f.depth = 1 + r.below(3); break; case 2: f.c.resize(r.below(200)); break; case 3: f.b[0] = 0; f.b[1] = 0xee; break; default: f.a.assign(1 + r.below(130), 0); break; } v.push_back(f);
    }
    return v;
}
static void mode_threads(const vh::Opts& o) {
    bool guarded = o.num("guarded", 1), heavy = o.num("heavy", 1); unsigned nt = o.num("threads", 8); int rounds = o.num("rounds", 6);
    vh::cases(o, 81, o.cases, [&](long long i, Rng& r) {
        auto ts = pool(r, 24, heavy); std::atomic<unsigned> ready{0}; std::atomic<long long> overlap{0}, active{0};
        vh::at("threads", "case " + std::to_string(i));
        // nothing between the calls may order the threads: relaxed counters, results tallied per thread
        auto worker = [&](unsigned k, uint64_t sd) { Rng q(sd, k); std::map<std::string, int> tally; ready++; while (ready < nt) std::this_thread::yield();
            for (int j = 0; j < rounds * 10; j++) { const Task& t = q.chance(1, 3) ? ts[j % ts.size()] : q.pick(ts); // one third: everyone on the same arguments
                if (active.fetch_add(1, std::memory_order_relaxed) > 0) overlap.fetch_add(1, std::memory_order_relaxed); std::string g = perform(t, q.chance(1, 2), guarded); active.fetch_sub(1, std::memory_order_relaxed);
                if (g != t.want) vh::viol("result:" + t.name, "thread " + std::to_string(k) + " got " + g + " instead of " + t.want + " for a=" + ref::hex(t.a) + " b=" + ref::hex(t.b) + " c=" + ref::hex(t.c) + " bits=" + std::to_string(t.bits) + " T=" + std::to_string(t.T));
                tally["calls_" + t.name]++; if (q.chance(1, 8)) std::this_thread::yield(); } for (auto& c : tally) vh::count(c.first, c.second); };
        std::vector<std::thread> th; uint64_t sd = r.next(); for (unsigned k = 0; k < nt; k++) th.emplace_back(worker, k, sd); for (auto& t : th) t.join();
        vh::count("overlapping_calls", overlap); vh::eval("threads" + std::to_string(i) + ts[0].want); if (i < 2) vh::sample(std::to_string(nt) + " threads, " + std::to_string(ts.size()) + " distinct calls, first " + ts[0].name + " bits=" + std::to_string(ts[0].bits));
    });
}
// results kept while later calls run, released out of order, from other threads
static void mode_lifetime(const vh::Opts& o) {
    vh::cases(o, 82, o.cases, [&](long long i, Rng& r) {
        auto ts = pool(r, 24, false); std::vector<std::pair<ByteArray, std::string>> held; std::mutex m; vh::at("lifetime", std::to_string(i));
        auto body = [&](uint64_t sd) { Rng q(sd); for (int j = 0; j < 40; j++) {
            if (q.chance(1, 2)) { const Task& t = q.pick(ts); if (t.op != 1) { std::string g = perform(t, true, false); if (g != t.want) vh::viol("result:" + t.name, g + " instead of " + t.want); continue; } ByteArray b = prove_wrapper(t.a.data(), t.a.size(), t.b.data(), t.b.size(), t.bits, t.T); std::lock_guard<std::mutex> l(m); held.push_back({b, t.want}); vh::count("results_held"); }
            else { ByteArray b; std::string w; { std::lock_guard<std::mutex> l(m); if (held.empty()) continue; size_t k = q.below(held.size()); b = held[k].first; w = held[k].second; held.erase(held.begin() + k); } std::string g = b.data ? res_bytes(b.data, b.length) : "fail"; if (g != w) vh::viol("held_result_changed", g + " instead of " + w); delete_byte_array(b); vh::count("results_released"); } } };
        std::vector<std::thread> th; for (int k = 0; k < 4; k++) th.emplace_back(body, r.next()); for (auto& t : th) t.join();
        for (auto& h : held) { std::string g = h.first.data ? res_bytes(h.first.data, h.first.length) : "fail"; if (g != h.second) vh::viol("held_result_changed", g + " instead of " + h.second); delete_byte_array(h.first); }
        ByteArray z{nullptr, 0}; delete_byte_array(z); vh::eval("lifetime" + std::to_string(i) + ts[0].want);
    });
}
#ifdef ACCOUNT
// memory that stays after a call: after a warm-up, no call may leave anything behind, call after call
static void mode_account(const vh::Opts& o) {
    vh::cases(o, 83, o.cases, [&](long long i, Rng& r) {
        auto ts = pool(r, 12, false); vh::at("account", std::to_string(i)); std::string g; g.reserve(4096);
        for (auto& t : ts) {
            for (int k = 0; k < 3; k++) { g = perform(t, true, false); if (g != t.want) vh::viol("result:" + t.name, g + " instead of " + t.want); }
            long long b0 = live_bytes, n0 = live_blocks; const int K = 12;
            for (int k = 0; k < K; k++) { std::string x = perform(t, true, false); }
            long long db = live_bytes - b0, dn = live_blocks - n0;
            vh::count("accounted_calls", K); vh::eval(t.name + ref::hex(t.a) + std::to_string(t.T) + std::to_string(t.bits));
            if (dn >= K || db >= K) vh::viol("leak:" + t.name, std::to_string(K) + " further identical calls left " + std::to_string(dn) + " blocks, " + std::to_string(db) + " bytes; bits=" + std::to_string(t.bits) + " T=" + std::to_string(t.T) + " result " + t.want.substr(0, 40));
        }
    });
}
#endif
int main(int argc, char** argv) {
    auto o = vh::parse(argc, argv); vh::R();
#ifdef ACCOUNT
    mp_set_memory_functions(g_alloc, g_realloc, g_free);
    if (o.mode == "account") mode_account(o); else
#endif
    if (o.mode == "threads") mode_threads(o); else if (o.mode == "lifetime") mode_lifetime(o); else vh::harness_error("mode");
    return vh::finish();
}
