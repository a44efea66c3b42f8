// Continuous (n-segment), two-level and simple proving on the real engine, driven by requester threads under
// perturbed schedules, judged by known group orders and the reference verifier.
// Modes: n (continuous), two, one, nstop, slow, steps; --stops 1 stops requests of two and one at random moments
#include <thread>
#include <chrono>
#include <deque>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "vdfcut.hpp"
#include "grp.hpp"
#include "perturb.hpp"
#include "freeze.hpp"
static double now() { static double t0 = pert_now(); return pert_now() - t0; }
static const auto RX = std::memory_order_relaxed;

// ---- schedule perturbation and observation through the hook points; relaxed atomics only, so that no ordering is added
struct Rec { std::atomic<uint32_t> steps{0}; std::atomic<int64_t> first{0}, last{0}; };
static Rec g_rec[8][512];                            // [bucket][segment index]
struct Stall { std::atomic<int> bucket{-1}; std::atomic<uint64_t> start{0}; std::atomic<uint32_t> at{0}, ms{0}; };
static Stall g_stall[16];
static std::atomic<int> g_nstall{0}, g_indelay{0}; static std::atomic<int64_t> g_lasthit{0};
static std::atomic<uint32_t> g_jitter{0}, g_store_ms{0}, g_loop_ms{0}, g_unit{1000}; static std::atomic<uint64_t> g_seed{1}, g_stalled{0}, g_points{0}, g_halves{0}; static std::atomic<uint32_t> g_half_ms{0};
static std::atomic<bool> g_release{false};           // cut all delays short
static std::atomic<int> g_block_bucket{-1}, g_unblock{0}, g_blocked{0};   // the first segment of one length is held back
static void zz(unsigned ms) { g_indelay.fetch_add(1, RX); for (unsigned i = 0; i < ms && !g_release.load(RX); i++) usleep(g_unit.load(RX)); g_lasthit.store((int64_t)(now() * 1e6), RX); g_indelay.fetch_sub(1, RX); }
void chiavdf_verif_point(const char* what, uint64_t a, uint64_t b) {
    uint64_t n = g_points.fetch_add(1, RX);
    if (what[1] == 'e') {                            // segment_step(start, bucket)
        int64_t t = (int64_t)(now() * 1e6); g_lasthit.store(t, RX);
        uint64_t idx = a >> (16 + 2 * b); if (b > 7 || idx > 511) return;
        Rec& r = g_rec[b][idx]; uint32_t s = r.steps.fetch_add(1, RX); if (!s) r.first.store(t, RX); r.last.store(t, RX);
        if ((int64_t)b == g_block_bucket.load(RX) && a == 0 && s == 0) { g_blocked = 1; while (!g_unblock.load(RX)) usleep(1000); g_lasthit.store((int64_t)(now() * 1e6), RX); }
        for (int i = 0; i < g_nstall.load(RX); i++) { Stall& q = g_stall[i]; if (q.bucket.load(RX) == (int)b && q.start.load(RX) == a && q.at.load(RX) == s) { g_stalled.fetch_add(1, RX); zz(q.ms.load(RX)); } }
        uint32_t j = g_jitter.load(RX); if (j) { Rng x(g_seed.load(RX), n, a * 8 + b); if (x.chance(1, j)) zz(x.range(1, 6)); }
    } else if (what[1] == 't') {
        uint32_t h = g_half_ms.load(RX); if (h && a % 65536 == 0) { Rng x(g_seed.load(RX), a, 5); if (x.chance(1, 3)) { g_halves.fetch_add(1, RX); zz(x.range(h / 2, h)); } }   // the first half of a segment stored after the second
        uint32_t m = g_store_ms.load(RX); if (m) { Rng x(g_seed.load(RX), n, a); if (x.chance(1, 2)) zz(x.below(m + 1)); } }
    else { uint32_t m = g_loop_ms.load(RX); if (m) { Rng x(g_seed.load(RX), n, a); if (x.chance(1, 3)) zz(x.below(m + 1)); } }
}
static void clear_obs() { for (auto& b : g_rec) for (auto& r : b) { r.steps.store(0, RX); r.first.store(0, RX); r.last.store(0, RX); } g_nstall = 0; g_jitter = 0; g_store_ms = 0; g_half_ms = 0; g_loop_ms = 0; g_release = false; g_stalled = 0; }

struct World { Grp G; Form x; bool known; std::string ctx; std::vector<uint8_t> xs; integer D; form f; };
static int g_viols = 0; static std::mutex g_vm;
static void bad(const std::string& k, const std::string& d) { std::lock_guard<std::mutex> l(g_vm); if (g_viols++ < 5) vh::viol(k, d); }
static void world(World& w, Rng& r, unsigned bits, bool known) {
    w.G = mkgrp(r, bits, false, known); w.known = known;
    w.x = r.chance(1, 3) ? w.G.g : known ? w.G.gpow(Z((unsigned long)r.next())) : ref::pow(w.G.g, Z((unsigned long)r.next()), w.G.D);
    w.xs = enc(w.x, w.G.D); w.D = cut::I(w.G.D); w.f = cut::mk(w.x);
    w.ctx = "D=" + w.G.D.get_str(16) + " x=" + cut::str(w.x);
}
// judge a finished proof for T squarings; empty string = right
static std::string judge(const World& w, const Proof& p, uint64_t T, int depth_want) {
    if (p.y.size() != ref::FORM) return "no proof returned (y has " + std::to_string(p.y.size()) + " bytes)";
    std::vector<uint8_t> blob(p.y); blob.insert(blob.end(), p.proof.begin(), p.proof.end());
    unsigned depth = p.witness_type;
    if (depth_want >= 0 && (int)depth != depth_want) return "witness type " + std::to_string(depth);
    if (depth > 63) return "more than 64 segments: " + std::to_string(depth + 1);
    if (blob.size() != 2 * ref::FORM + depth * ref::SEG) return "length " + std::to_string(blob.size()) + " does not fit witness type " + std::to_string(depth);
    Form y; if (!ref::decode(w.G.D, blob.data(), ref::FORM, false, y)) return "y is not an element";
    if (w.known && !(y == ref::pow(w.x, ref::pow2_mod(T, w.G.order), w.G.D))) return "y is not x^(2^T): " + cut::str(y);
    if (!ref::verify_n(w.G.D, w.xs.data(), blob.data(), blob.size(), T, depth)) return "reference verifier rejects (depth " + std::to_string(depth) + ")";
    bool ok = false; try { ok = CheckProofOfTimeNWesolowski(w.D, w.xs.data(), blob.data(), blob.size(), T, w.G.bits, depth); } catch (const std::exception& e) { return std::string("verifier throws ") + e.what(); }
    if (!ok) return "verifier rejects";
    return "";
}

// ---------------------------------------------------------------- continuous
struct Loop {                 // the squaring thread's gate
    std::mutex m; std::condition_variable cv; std::atomic<uint64_t> n{0}; uint64_t hold_at = ~0ull; bool canary_ok = false; std::atomic<uint64_t> holds{0}; std::atomic<bool> giveup{false}; std::atomic<uint32_t> slow{0};
};
template <class Base> struct Gated : Base {
    using Base::Base; Loop* g; std::function<void(uint64_t)> at_hold; std::atomic<uint64_t> hold{~0ull};
    void OnIteration(int t, void* d, uint64_t it) override {
        Base::OnIteration(t, d, it); uint64_t n = it + 1; g->n.store(n, RX);
        if (n == hold.load(RX)) at_hold(n);
        uint32_t s = g->slow.load(RX); if (s && (n & 8191) == 0) usleep(s);
    }
};
// everything started is finished: no prover step for a while and nobody inside an injected delay
static bool wait_idle(double max_s) {
    double t0 = now(); while (now() - t0 < max_s) { if (g_indelay.load(RX) == 0 && (int64_t)(now() * 1e6) - g_lasthit.load(RX) > 120000) return true; usleep(5000); }
    return false;
}
// in some runs of an uninstrumented build, threads are frozen at arbitrary instructions
struct Cold {
#ifdef PERT_FULL
    std::unique_ptr<frz::Freezer> fz;
    Cold(const vh::Opts& o, long long i) { Rng fr(o.seed, i, 991); if (fr.chance(2, 5)) { unsigned u = fr.chance(1, 2) ? 2000 : fr.range(2000, 25000); fz.reset(new frz::Freezer(u, u * 3 + 3000, fr.next(), false)); } }
    void end() { if (fz) { fz.reset(); vh::count("runs_frozen"); vh::count("freezes", frz::frozen.exchange(0)); } }
#else
    Cold(const vh::Opts&, long long) {}
    void end() {}
#endif
    ~Cold() { end(); }
};
struct Pending { uint64_t T; double t; bool done; };

static void mode_n(const vh::Opts& o, long long i, Rng& r) {
    clear_obs(); double tstart = now(); World w; bool big = o.num("big", 0);
#ifdef CHIA_DISABLE_ASM
    bool slowbuild = o.num("slow", 0);
#else
    bool slowbuild = false;
#endif
    world(w, r, big ? (r.chance(1, 2) ? 1024 : r.range(200, 700)) : r.range(20, 44), !big);
    bool bg = o.num("bg", -1) >= 0 ? o.num("bg", 0) : i % 2;
    int segments = r.chance(1, 3) ? 7 : r.range(1, 4), threads = r.chance(1, 3) ? r.range(1, 2) : r.range(1, 7), nreq = r.range(1, 6);
    uint64_t N = o.num("windows", 24) * 65536ull; if (r.chance(1, 3)) N = N / 2 + 65536; if (segments == 1 && N > 60 * 65536ull) N = 60 * 65536ull;
    w.ctx += (bg ? " background" : " direct") + std::string(" segments=") + std::to_string(segments) + " threads=" + std::to_string(threads) + " requesters=" + std::to_string(nreq) + " N=" + std::to_string(N);
    // schedule perturbation
    g_seed = r.next(); unsigned style = r.below(7); pert::compress = 60; bool held = r.chance(1, 3); pert::cond_num = held ? r.range(5000, 300000) : 0; pert::cond_us = r.range(10, 3000); pert::unlock_num = held || style == 6 ? r.range(20, 1000) : 0; pert::unlock_us = r.range(10, 2000);
    if (style == 1) g_jitter = 2000; if (style == 2) g_loop_ms = r.range(2, 40); if (bg && i % 4 == 1) g_half_ms = r.range(200, 800); if (style == 3 || bg) g_store_ms = r.chance(1, 2) ? r.range(1, 30) : 0;
    if (style >= 4 || style == 1) { int k = 0; for (; k < 12; k++) { Stall& q = g_stall[k]; int b = segments > 1 && r.chance(2, 3) ? r.range(0, std::min(segments - 1, 2)) : 0; uint64_t len = 1ull << (16 + 2 * b), cnt = N / len; q.bucket = b; q.start = len * (r.chance(1, 2) ? r.below(std::min<uint64_t>(cnt + 1, 4)) : r.below(cnt + 1)); q.at = r.chance(1, 2) ? r.below(20) : r.below(8000); q.ms = r.range(5, style == 5 ? 700 : 200); } g_nstall = k; }
    w.ctx += " style=" + std::to_string(style); vh::at("n", w.ctx);
    fast_algorithm = true; two_weso = false; new_event = false;
    integer L = root(-w.D, 4); Loop g; std::atomic<bool> stopped{false}, loop_over{false};
    Gated<FastAlgorithmCallback> cb(segments, w.D, w.f, bg); cb.g = &g;
    std::unique_ptr<FastStorage> fs; if (bg) fs.reset(new FastStorage(&cb));
    ProverManager pm(w.D, &cb, fs.get(), segments, threads);
    const double patience = o.num("patience", 140);
    auto result = [&](uint64_t T, const Proof& p, const char* kind) {
        std::string e = judge(w, p, T, -1);
        if (!e.empty()) bad(std::string("n:") + kind, w.ctx + " T=" + std::to_string(T) + ": " + e);
        vh::count("proofs"); vh::count(std::string("proofs_") + kind); vh::maxi("segments_in_a_proof", e.empty() ? p.witness_type + 1 : 0); vh::eval(w.ctx + std::to_string(T) + kind);
    };
    std::mutex pmx; std::deque<Pending> asked; std::atomic<int> outstanding{0}, unanswered{0};
    auto prove = [&](uint64_t T, const char* kind) {
        size_t at; { std::lock_guard<std::mutex> l(pmx); asked.push_back({T, now(), false}); at = asked.size() - 1; } outstanding++;
        Proof p; bool threw = false; std::string what; try { p = pm.Prove(T); } catch (const std::exception& e) { threw = true; what = e.what(); }
        { std::lock_guard<std::mutex> l(pmx); asked[at].done = true; double dt = now() - asked[at].t; if (dt > 20) { vh::count("slow_answers"); vh::at("slow", w.ctx + " T=" + std::to_string(T) + " " + kind + " took " + std::to_string(dt) + " loop at " + std::to_string(g.n.load(RX))); } } outstanding--;
        if (stopped) return; if (threw) bad("n:prove_threw", w.ctx + " T=" + std::to_string(T) + " " + what); else result(T, p, kind);
    };
    // hold points with a request for the last boundary before them, placed before the loop gets there
    std::thread canary; std::atomic<bool> canary_done{true};
    uint64_t H = 65536ull * r.range(3, 12);
    auto place = [&](uint64_t h) { if (canary.joinable()) canary.join(); canary_done = false; uint64_t T = h; canary = std::thread([&, T] { prove(T, "canary"); canary_done = true; }); cb.hold.store(h + 65536 + 33000 + r.below(20000), RX); /* past the publication that lets the last segment before h finish */ };
    std::vector<std::thread> rq; std::atomic<bool> no_more{false}; std::atomic<uint64_t> popular{0};
    cb.at_hold = [&](uint64_t n) {
        double t0 = now(); while (!canary_done && now() - t0 < patience && !stopped) usleep(2000);
        if (!canary_done) { g.giveup = true; cb.hold.store(~0ull, RX); return; }
        if (!wait_idle(60)) vh::count("never_idle"); g.holds++;
        H = (n / 65536 + r.range(2, 12)) * 65536; if (loop_over || no_more) H = (n / 65536 + 12) * 65536;
        place(H);
    };
    Cold cold(o, i);
    pm.start(); place(H);
    std::thread sq([&] { repeated_square(0, w.f, w.D, L, &cb, fs.get(), stopped); });
    for (int q = 0; q < nreq; q++) rq.emplace_back([&, q] {
        Rng s(o.seed, i * 64 + q, 77);
        while (!no_more) {
            uint64_t n = g.n.load(RX), T = 0; const char* kind = "past"; if (n < 20000) { usleep(500); if (q) continue; }
            switch (s.below(8)) {
                case 0: T = s.range(1, n + 1); break;
                case 1: T = n + s.range(1, 3 * 65536); kind = "future"; break;
                case 2: T = (n / 65536 + s.range(0, 2)) * 65536 + s.below(3); T -= s.below(2); kind = "boundary"; break;
                case 3: T = popular.load(); kind = "duplicate"; if (!T) continue; break;
                case 4: T = s.range(1, 20); kind = "small"; break;
                case 5: { uint64_t u = 1ull << (16 + 2 * s.range(0, segments - 1)); T = (n / u + s.below(2)) * u + s.below(2) * s.below(65536); kind = "segment_edge"; break; }
                case 6: T = n > 200000 ? n - s.below(200000) : n; kind = "recent"; break;
                default: T = s.range(1, N); kind = T > n ? "future" : "past"; popular = T;
            }
            if (!T || T > N) continue;
            prove(T, kind); if (s.chance(1, 2)) usleep(s.below(60000));
        }
    });
    // the loop goes on until it has passed N and every request placed by then has been answered
    double t0 = now(); while (g.n.load(RX) < N && !g.giveup && now() - t0 < 300) usleep(3000);
    no_more = true; g.slow = 3000; double t1 = now();
    while (outstanding > 1 && !g.giveup && now() - t1 < patience) usleep(3000);      // the canary stays
    if (g.giveup || outstanding > 1) {
        // Is it late or lost? Name what is outstanding.
        std::string l; { std::lock_guard<std::mutex> k(pmx); for (auto& a : asked) if (!a.done) l += " " + std::to_string(a.T) + "(" + std::to_string((int)(now() - a.t)) + "s)"; }
        if (g.n.load(RX) >= N || g.giveup) bad("n:unanswered", w.ctx + " loop at " + std::to_string(g.n.load(RX)) + " waiting:" + l); else vh::inconclusive("loop too slow: " + std::to_string(g.n.load(RX)));
    }
    stopped = true; g_release = true; pert::unlock_num = 0; uint64_t end = g.n.load(RX);
    sq.join(); pm.stop(); for (auto& t : rq) t.join(); if (canary.joinable()) canary.join(); fs.reset();
    cold.end();
    uint64_t segs = 0, ooo = 0, gaps = 0, wrap = 0;
    for (int b = 0; b < 7; b++) for (int k = 0; k < 511; k++) { Rec &a = g_rec[b][k], &c = g_rec[b][k + 1]; if (!a.steps) continue; segs++; if (k >= 20) wrap++; if (c.steps && c.last < a.last) ooo++; if (c.steps && c.first < a.last) gaps++; }
    vh::count("segments_proved", segs); vh::count("segments_finished_out_of_order", ooo); vh::count("segments_overlapping", gaps); vh::count("segments_after_window_wrap", wrap); vh::count("stalls_injected", g_stalled.load()); vh::count("holds", g.holds.load()); vh::count("first_halves_held", g_halves.exchange(0)); vh::count("condition_waits_delayed", pert::cond_delays.exchange(0)); vh::count("unlocks_delayed", pert::unlock_delays.exchange(0)); vh::count("long_sleeps_shortened", pert::long_sleeps.exchange(0));
    vh::maxi("loop_iterations", end); vh::maxi("run_ms", (now() - tstart) * 1000); vh::count("runs_n"); vh::count(bg ? "runs_background" : "runs_direct"); if (i < 2) vh::sample(w.ctx + " loop ended at " + std::to_string(end));
}

// Chains near the limit of 64 segments: requests that only a chain of longer segments can reach wait for those, and never get a longer chain.
static void mode_long(const vh::Opts& o, long long i, Rng& r) {
    clear_obs(); World w; world(w, r, r.range(20, 40), true); bool bg = i % 2, reach = (i / 2) % 2 == 0; int segments = reach ? 2 : 1, threads = r.range(3, 6);
    w.ctx += std::string(bg ? " background" : " direct") + (reach ? " longer segments late" : " one length") + " segments=" + std::to_string(segments); vh::at("long", w.ctx);
    fast_algorithm = true; two_weso = false; new_event = false; pert::compress = 60; pert::cond_num = 0; pert::unlock_num = 0; g_block_bucket = reach ? 1 : -1; g_unblock = 0; g_blocked = 0;
    integer L = root(-w.D, 4); Loop g; std::atomic<bool> stopped{false};
    Gated<FastAlgorithmCallback> cb(segments, w.D, w.f, bg); cb.g = &g;
    std::unique_ptr<FastStorage> fs; if (bg) fs.reset(new FastStorage(&cb));
    ProverManager pm(w.D, &cb, fs.get(), segments, threads + 1);
    const double patience = o.num("patience", 140); std::atomic<int> waiting{0}; std::atomic<bool> giveup{false}; std::mutex tm; std::vector<std::thread> th;
    auto ask = [&](uint64_t T, const char* kind, bool must) { waiting += must; std::lock_guard<std::mutex> l(tm); th.emplace_back([&, T, kind, must] {
        Proof p; std::string e; try { p = pm.Prove(T); } catch (const std::exception& x) { e = x.what(); }
        if (stopped && p.y.empty()) { waiting -= must; return; }
        if (e.empty()) e = judge(w, p, T, -1);
        if (!e.empty()) bad(std::string("long:") + kind, w.ctx + " T=" + std::to_string(T) + ": " + e); else { vh::count(std::string("long_proofs_") + kind); vh::maxi("segments_in_a_proof", p.witness_type + 1); vh::eval(w.ctx + std::to_string(T)); }
        waiting -= must; }); };
    // as in mode_n, the loop is held from time to time until the provers have caught up
    std::atomic<uint64_t> next{0};
    auto place = [&](uint64_t h) { ask(h, "before", true); next = h; cb.hold.store(h + 65536 + 33000, RX); };
    cb.at_hold = [&](uint64_t n) { double t0 = now(); while (waiting && now() - t0 < patience && !stopped) usleep(2000);
        if (waiting) giveup = true; wait_idle(60); cb.hold.store(~0ull, RX);
        if (next < 56 * 65536ull) place(std::min<uint64_t>(next + 65536ull * r.range(6, 11), 56 * 65536ull)); };
    pm.start(); place(65536ull * r.range(6, 11));
    std::thread sq([&] { repeated_square(0, w.f, w.D, L, &cb, fs.get(), stopped); });
    double t0 = now(); while (g.n.load(RX) < 62 * 65536ull && !giveup && now() - t0 < 240) usleep(1000);
    g.slow = 4000;
    if (!giveup && g.n.load(RX) >= 62 * 65536ull) {
        ask(63 * 65536ull + r.range(1, 65535), "at_the_limit", true); ask(63 * 65536ull, "at_the_limit", true);
        for (int k = 0; k < 3; k++) ask(64 * 65536ull + (k ? 65536ull * r.below(3) + r.below(65536) : r.below(2)), "past_the_limit", reach);
        while (g.n.load(RX) < 69 * 65536ull && !giveup && now() - t0 < 300) usleep(1000);
        g.slow = 60000; double t1 = now(); while (now() - t1 < (reach ? .3 : 2)) usleep(10000);
        if (reach && g_blocked) vh::count("long_segments_held_back");
        g_unblock = 1; t1 = now(); while (waiting && now() - t1 < patience) usleep(3000);
        if (waiting) bad("long:unanswered", w.ctx + " " + std::to_string(waiting.load()) + " requests, loop at " + std::to_string(g.n.load(RX)));
    } else if (giveup) bad("long:unanswered", w.ctx + " before the limit, loop at " + std::to_string(g.n.load(RX)));
    else vh::inconclusive("loop too slow: " + std::to_string(g.n.load(RX)));
    stopped = true; g_unblock = 1; g_release = true; sq.join(); pm.stop(); for (auto& t : th) t.join(); fs.reset(); g_block_bucket = -1;
    vh::count(reach ? "runs_long_reach" : "runs_long_one");
}

// ---------------------------------------------------------------- two-level
static uint64_t two_T(Rng& s, uint64_t n, uint64_t end, uint64_t sw, const char*& kind) {
    switch (s.below(8)) {
        case 0: kind = "small"; return s.range(1, 320);
        case 1: kind = "near_switch"; return sw - std::min<uint64_t>(sw / 30, 3000) + s.below(sw / 3);
        case 2: kind = "layout_edge"; return sw * 90 / 91 - 300 + s.below(600);          // where the block layout changes
        case 3: kind = "after_switch"; return sw + s.below(end - sw);
        case 4: kind = "past"; return n > 10 ? s.range(1, n) : 1;
        case 5: kind = "future"; return n + s.range(1, 30000);
        case 6: kind = "before_switch"; return s.range(1, sw);
        default: kind = "multiple_of_100"; return 100 * s.range(1, end / 100 - 1);
    }
}
struct WatchDog { std::atomic<bool> done{false}; std::thread t; WatchDog(const std::string& key, const std::string& ctx, double limit) { t = std::thread([=, this] { double t0 = now(); while (!done.load(RX)) { usleep(20000); if (now() - t0 > limit) { vh::viol(key, ctx + " not finished after " + std::to_string((int)limit) + " s"); fflush(vh::R().out); _exit(0); } } }); } ~WatchDog() { done.store(true, RX); t.join(); } };

static void mode_two(const vh::Opts& o, long long i, Rng& r) {
    clear_obs(); World w; bool big = o.num("big", 0);
    world(w, r, big ? (r.chance(1, 2) ? 1024 : r.range(200, 700)) : r.range(20, 44), !big);
    bool stops = o.num("stops", 0); int nreq = r.range(1, 6);
    uint64_t sw = kSwitchIters, end = (uint64_t)kMaxItersAllowed - 500000 - 6000; if (o.num("iters", 0)) end = o.num("iters", 0);
    w.ctx += " two requesters=" + std::to_string(nreq) + (stops ? " with stops" : ""); vh::at("two", w.ctx);
    pert::min_ns = 50000000; pert::compress = 25; pert::cond_num = 0; pert::unlock_num = 0;
    fast_algorithm = false; two_weso = true; integer L = root(-w.D, 4); Loop g; std::atomic<bool> stopped{false}, over{false}, quit{false};
    Gated<TwoWesolowskiCallback> cb(w.D, w.f); cb.g = &g; g.slow = r.chance(1, 3) ? 0 : r.range(100, 20000);
    Cold cold(o, i); WatchDog dog(stops ? "two:stop_stuck" : "two:stuck", w.ctx, o.num("limit", 280));
    std::thread sq([&] { repeated_square(o.num("iters", 0), w.f, w.D, L, &cb, nullptr, stopped); over = true; });
    std::vector<std::thread> rq; int per = o.num("per", 6);
    struct Own { std::atomic<bool> stop{false}; std::atomic<double> asked{0}; };
    std::vector<std::unique_ptr<Own>> own; for (int q = 0; q < nreq; q++) own.emplace_back(new Own);
    for (int q = 0; q < nreq; q++) rq.emplace_back([&, q] {
        Rng s(o.seed, i * 64 + q, 78); integer D = w.D;
        for (int k = 0; k < per && !quit; k++) {
            const char* kind; uint64_t T = two_T(s, g.n.load(RX), end, sw, kind); if (!T || T > end) { k--; continue; }
            bool will = stops && s.chance(1, 2); std::atomic<bool>& sig = own[q]->stop; sig = false; std::thread killer; double delay = s.chance(1, 4) ? 0 : s.below(1000) / 1000.0 * (s.chance(1, 2) ? 0.05 : 0.6); std::atomic<bool> back{false}; double at = 0;
            if (will) { if (delay == 0) { sig = true; at = now(); } else killer = std::thread([&] { double t0 = now(); while (now() - t0 < delay && !back.load(RX)) usleep(500); if (!back.load(RX)) { at = now(); sig = true; } }); }
            Proof p; std::string threw; try { p = ProveTwoWeso(D, w.f, T, 0, &cb, 0, sig); } catch (const std::exception& e) { threw = e.what(); }
            double t1 = now(); back = true; if (killer.joinable()) killer.join();
            if (!threw.empty()) { bad("two:threw", w.ctx + " T=" + std::to_string(T) + " " + threw); continue; }
            if (sig) { vh::count("stopped_requests"); vh::maxi("stop_ms", (t1 - at) * 1000); if (t1 - at > 20) bad("two:stop_late", w.ctx + " T=" + std::to_string(T) + " " + std::to_string(t1 - at) + " s"); if (p.y.empty() && p.proof.empty()) { vh::count("stopped_without_proof"); continue; } }
            std::string e = judge(w, p, T, 2); if (!e.empty()) bad(std::string("two:") + kind, w.ctx + " T=" + std::to_string(T) + ": " + e);
            vh::count("proofs"); vh::count(std::string("proofs_") + kind); if (T >= sw) vh::count("proofs_past_threshold"); vh::eval(w.ctx + std::to_string(T)); vh::maxi("two_T", T);
        }
    });
    for (auto& t : rq) t.join();
    if (!o.num("iters", 0) && !stops) { g.slow = 0; double t0 = now(); while (!over && now() - t0 < 120) usleep(2000); if (!over) bad("two:loop_never_ends", w.ctx + " at " + std::to_string(g.n.load(RX))); else { vh::count("ran_to_the_end"); uint64_t n = g.n.load(RX); if (n >= (uint64_t)kMaxItersAllowed || n + 6000 < end) bad("two:ended_at", w.ctx + " at " + std::to_string(n)); vh::maxi("loop_iterations", n); } }
    stopped = true; sq.join(); if (cb.LargeConstants()) vh::count("switches_crossed"); vh::count("runs_two"); if (i < 2) vh::sample(w.ctx);
}

// ---------------------------------------------------------------- simple (one segment), with and without stop
static void mode_one(const vh::Opts& o, long long i, Rng& r) {
    clear_obs(); World w; bool big = r.chance(1, 3); if (o.num("big", -1) >= 0) big = o.num("big", 0);
    world(w, r, big ? (r.chance(1, 2) ? 1024 : r.range(200, 700)) : r.range(20, 44), !big);
    static const uint64_t spots[] = {1, 2, 9, 10, 11, 99, 100, 65535, 65536, 65537, 65546};
    uint64_t T = i % 2 ? spots[r.below(11)] : r.range(1, big ? 200000 : 1200000); bool stops = o.num("stops", 0); if (stops) T = r.range(1000, big ? 120000 : 1500000);
    w.ctx += " one T=" + std::to_string(T) + (stops ? " with stop" : ""); vh::at("one", w.ctx);
    pert::min_ns = 500000000; pert::compress = r.chance(1, 2) ? 200 : 1000; pert::cond_num = 0; pert::unlock_num = 0;
    fast_algorithm = false; two_weso = false; integer L = root(-w.D, 4), D = w.D; Loop g; std::atomic<bool> stopped{false};
    Gated<OneWesolowskiCallback> cb(D, w.f, T); cb.g = &g;
    Cold cold(o, i); WatchDog dog(stops ? "one:stop_stuck" : "one:stuck", w.ctx, 200);
    std::thread sq([&] { repeated_square(T, w.f, w.D, L, &cb, nullptr, stopped); }); std::thread killer; std::atomic<bool> back{false}; double at = 0;
    if (stops) killer = std::thread([&] { Rng s(o.seed, i, 79); bool late = s.chance(2, 3); double d = s.below(1000) / 1000.0 * (late ? 0.15 : 1.0); if (late) while (cb.iterations < (int64_t)T && !back.load(RX)) usleep(200); double t0 = now(); while (now() - t0 < d && !back.load(RX)) usleep(200); if (!back.load(RX)) { if (late) vh::count("stops_in_proof_phase"); at = now(); stopped = true; } });
    Proof p; std::string threw; try { p = ProveOneWesolowski(T, D, w.f, &cb, stopped); } catch (const std::exception& e) { threw = e.what(); }
    double t1 = now(); back = true; if (killer.joinable()) killer.join(); bool was = stopped; stopped = true; sq.join();
    if (!threw.empty()) bad("one:threw", w.ctx + " " + threw);
    else if (was && p.y.empty() && p.proof.empty()) { vh::count("stopped_without_proof"); vh::maxi("stop_ms", (t1 - at) * 1000); if (t1 - at > 20) bad("one:stop_late", w.ctx); }
    else { std::string e = judge(w, p, T, 0); if (!e.empty()) bad(was ? "one:partial" : "one:wrong", w.ctx + ": " + e); vh::count("proofs"); vh::count("proofs_one"); }
    vh::eval(w.ctx); vh::count("runs_one");
}

// ---------------------------------------------------------------- continuous, stopped at any moment
static void mode_nstop(const vh::Opts& o, long long i, Rng& r) {
    clear_obs(); World w; bool big = o.num("big", 0); world(w, r, big ? (r.chance(1, 2) ? 1024 : r.range(200, 700)) : r.range(20, 44), !big);
    bool bg = i % 2; int segments = r.chance(1, 3) ? 7 : r.range(1, 4), threads = r.range(1, 6), nreq = r.range(0, 8);
    unsigned style = r.below(5); g_seed = r.next(); double life = r.chance(1, 5) ? 0 : r.below(1000) / 1000.0 * (r.chance(1, 2) ? 0.1 : 1.2);
    if (style == 1) g_jitter = 500; if (style == 2) g_loop_ms = r.range(2, 40); if (style == 3) g_store_ms = r.range(1, 30);
    if (style == 4) { for (int k = 0; k < 12; k++) { Stall& q = g_stall[k]; int b = r.range(0, std::min(segments - 1, 1)); q.bucket = b; q.start = (1ull << (16 + 2 * b)) * r.below(4); q.at = r.below(4000); q.ms = r.range(5, 400); } g_nstall = 12; }
    bool held = o.num("held", -1) >= 0 ? o.num("held", 0) : r.chance(1, 2); pert::min_ns = 500000000; pert::compress = r.chance(1, 2) ? 1 : 60; pert::cond_num = held ? r.range(100000, 1000000) : 0; pert::cond_us = r.chance(1, 2) ? 200000 : r.range(100, 20000); pert::unlock_num = held ? r.range(100, 3000) : 0; pert::unlock_us = 2000;
    w.ctx += std::string(bg ? " background" : " direct") + " stop after " + std::to_string(life) + " segments=" + std::to_string(segments) + " threads=" + std::to_string(threads) + " requesters=" + std::to_string(nreq) + " style=" + std::to_string(style) + (held ? " held" : "");
    vh::at("nstop", w.ctx);
    fast_algorithm = true; two_weso = false; new_event = false; integer L = root(-w.D, 4); Loop g; std::atomic<bool> stopped{false}; std::atomic<int> in{0}, partial{0};
    Gated<FastAlgorithmCallback> cb(segments, w.D, w.f, bg); cb.g = &g; if (r.chance(1, 2)) g.slow = r.range(100, 8000);
    cb.at_hold = [](uint64_t) {}; Cold cold(o, i); WatchDog dog("n:stop_stuck", w.ctx, 100);
    std::unique_ptr<FastStorage> fs; if (bg) fs.reset(new FastStorage(&cb)); auto pm = std::make_unique<ProverManager>(w.D, &cb, fs.get(), segments, threads);
    pm->start(); std::vector<std::thread> rq; std::atomic<bool> quit{false}, pacing{true};
    // keep the loop within the documented lead over the provers
    std::thread sq([&] { repeated_square(0, w.f, w.D, L, &cb, fs.get(), stopped); });
    std::thread pace([&] { while (pacing.load(RX)) { if (g.n.load(RX) > 12 * 65536) g.slow = 30000; usleep(300); } });
    for (int q = 0; q < nreq; q++) rq.emplace_back([&, q] {
        Rng s(o.seed, i * 64 + q, 80);
        while (!quit) {
            uint64_t n = g.n.load(RX), T; switch (s.below(5)) { case 0: T = n + s.range(1, 200000); break; case 1: T = (n / 65536 + s.below(4)) * 65536; break; case 2: T = s.range(1, n + 1); break; case 3: T = n + 40000000; break; default: T = s.range(1, 100); }
            if (!T) continue; Proof p; std::string threw; in++; try { p = pm->Prove(T); } catch (const std::exception& e) { threw = e.what(); } in--;
            bool q2 = quit; if (!threw.empty()) { bad("nstop:threw", w.ctx + " T=" + std::to_string(T) + " " + threw); continue; }
            if (p.y.empty() && p.proof.empty()) { if (!q2) bad("nstop:empty_without_stop", w.ctx + " T=" + std::to_string(T)); vh::count("stopped_without_proof"); continue; }
            std::string e = judge(w, p, T, -1); if (!e.empty()) bad(q2 ? "nstop:partial" : "nstop:wrong", w.ctx + " T=" + std::to_string(T) + ": " + e);
            vh::count("proofs"); if (q2) vh::count("proofs_completed_across_stop");
        }
    });
    double t0 = now(); while (now() - t0 < life) usleep(300);
    vh::count("requests_waiting_at_stop", in); double ts = now(); quit = true;
    bool loopfirst = r.chance(1, 2); if (loopfirst) { stopped = true; sq.join(); }
    pm->stop(); if (!loopfirst) { stopped = true; }
    for (auto& t : rq) t.join(); double dt = now() - ts; if (sq.joinable()) sq.join(); pacing = false; pace.join();
    vh::maxi("stop_ms", dt * 1000); if (dt > 30) bad("nstop:late", w.ctx + " " + std::to_string(dt) + " s");
    pm.reset(); fs.reset(); vh::count("condition_waits_delayed", pert::cond_delays.exchange(0)); vh::count("unlocks_delayed", pert::unlock_delays.exchange(0));
    vh::eval(w.ctx); vh::count("runs_nstop"); if (i < 2) vh::sample(w.ctx);
}

// ---------------------------------------------------------------- one-shot with a shutdown file
#include "prover_slow.h"
static void mode_slow(const vh::Opts& o, long long i, Rng& r) {
    World w; bool big = r.chance(1, 3); world(w, r, big ? (r.chance(1, 2) ? 1024 : r.range(200, 700)) : r.range(20, 44), !big);
    std::string dir = o.str("dir"); if (dir.empty()) vh::harness_error("dir"); std::string path = dir + "/stop." + std::to_string(getpid()) + "." + std::to_string(i);
    enum { GONE, REMOVED, KEPT, DIRECTORY, LATE, UNREACHABLE } what = (decltype(GONE))(i % 6);
    uint64_t T = what == REMOVED ? (big ? 30000000 : 200000000) : what == LATE ? r.range(50000, big ? 150000 : 1500000) : r.range(1, big ? 100000 : 600000); if (what == GONE || what == UNREACHABLE) T = r.chance(1, 2) ? r.range(1, 1000) : 20000000;
    w.ctx += " slow T=" + std::to_string(T) + " case=" + std::to_string(what); vh::at("slow", w.ctx);
    auto touch = [&](const std::string& p) { int fd = ::open(p.c_str(), O_CREAT | O_WRONLY, 0600); if (fd < 0) vh::harness_error("touch " + p); close(fd); };
    if (what == REMOVED || what == KEPT || what == LATE) touch(path); if (what == DIRECTORY) mkdir(path.c_str(), 0700); if (what == UNREACHABLE) path += "/below/a/missing/directory";
    std::thread killer; std::atomic<bool> back{false}; double at = 0; if (what == GONE || what == UNREACHABLE) at = now();
    double d = what == LATE ? r.below(1000) / 1000.0 * (T * (big ? 12e-6 : 1.0e-6)) : r.below(900) / 1000.0;
    if (what == REMOVED || what == LATE) killer = std::thread([&] { double t0 = now(); while (now() - t0 < d && !back.load(RX)) usleep(200); if (back.load(RX)) return; at = now(); unlink(path.c_str()); });
    WatchDog dog("slow:stop_stuck", w.ctx, 250);
    integer D = w.D; form f = w.f; std::vector<uint8_t> p; std::string threw; try { p = ProveSlow(D, f, T, path); } catch (const std::exception& e) { threw = e.what(); }
    double t1 = now(); back = true; if (killer.joinable()) killer.join(); unlink(path.c_str()); rmdir(path.c_str());
    if (!threw.empty()) bad("slow:threw", w.ctx + " " + threw);
    if (p.empty()) {
        if (at == 0) bad("slow:stopped_unasked", w.ctx); else { vh::count("stopped_without_proof"); vh::maxi("stop_ms", (t1 - at) * 1000); if (t1 - at > 20) bad("slow:stop_late", w.ctx + " " + std::to_string(t1 - at) + " s"); }
        if (what == REMOVED || what == LATE) vh::count("stopped_while_running");
    } else {
        if (what == GONE || what == UNREACHABLE || what == REMOVED) bad("slow:not_stopped", w.ctx);
        Proof q(std::vector<uint8_t>(p.begin(), p.begin() + std::min<size_t>(p.size(), 100)), std::vector<uint8_t>(p.begin() + std::min<size_t>(p.size(), 100), p.end())); q.witness_type = 0;
        std::string e = judge(w, q, T, 0); if (!e.empty()) bad("slow:partial", w.ctx + ": " + e); vh::count("proofs"); if (at) vh::count("proofs_completed_across_stop");
    }
    vh::eval(w.ctx); vh::count("runs_slow");
}

// ---------------------------------------------------------------- work done after a stop, counted in values looked at (no clock)
struct Watch { std::atomic<uint64_t> looks{0}, after{0}; uint64_t at = 0; std::function<void()> hit; std::atomic<bool> on{false};
    void look() { if (on) after++; if (++looks == at) { hit(); on = true; } } };
struct WOne : OneWesolowskiProver { Watch* w = nullptr; using OneWesolowskiProver::OneWesolowskiProver; form GetForm(uint64_t i) override { w->look(); return OneWesolowskiProver::GetForm(i); } uint64_t values() const { return num_iterations / (k * l); } };
struct WTwo : TwoWesolowskiProver { Watch* w = nullptr; using TwoWesolowskiProver::TwoWesolowskiProver; form GetForm(uint64_t i) override { w->look(); return TwoWesolowskiProver::GetForm(i); } uint64_t values() const { return num_iterations / (k * l); } };
struct WInt : InterruptableProver { Watch* w = nullptr; using InterruptableProver::InterruptableProver; form GetForm(uint64_t i) { w->look(); return InterruptableProver::GetForm(i); } uint64_t values() const { return num_iterations / (k * l); } };
struct WPar : ParallelProver { Watch* w = nullptr; std::vector<form>* v; std::atomic<bool>& stop_flag;
    WPar(Segment sg, integer D, std::vector<form>* vv, std::atomic<bool>& s, int kk, int ll) : ParallelProver(sg, D), v(vv), stop_flag(s) { k = kk; l = ll; }
    form GetForm(uint64_t i) override { w->look(); return (*v)[i]; } void start() override { GenerateProof(); } void stop() override {} bool PerformExtraStep() override { return !stop_flag; } void OnFinish() override { is_finished = true; } };
static void mode_steps(const vh::Opts& o, long long i, Rng& r) {
    clear_obs(); World w; world(w, r, r.range(20, 44), true); int kind = o.num("kind", -1) >= 0 ? o.num("kind", 0) : i % 4; bool scaled = kind == 4;
    static const char* names[] = {"simple prover", "segment prover", "parallel prover", "squaring loop", "two-level prover"};
    uint64_t T = kind == 1 ? (r.chance(1, 2) ? 65536 : 262144) : scaled ? r.range(30000, 90000) : r.range(150000, 600000); uint64_t after = 0, bound = 256; bool finished = false;
    w.ctx += std::string(" ") + names[kind] + " T=" + std::to_string(T); vh::at("steps", w.ctx); WatchDog dog("steps:stop_stuck", w.ctx, 150);
    pert::min_ns = 500000000; pert::compress = 200; pert::cond_num = 0; pert::unlock_num = 0; fast_algorithm = false; two_weso = false;
    integer L = root(-w.D, 4), D = w.D; std::atomic<bool> never{false}, stop{false}; Watch wt; uint64_t values = 0;
    auto pick = [&](uint64_t v) { values = v; bound = std::max<uint64_t>(256, v / 16); wt.at = r.range(1, v / 3); };
    if (kind == 3) {
        struct Cb : OneWesolowskiCallback { Watch* w; using OneWesolowskiCallback::OneWesolowskiCallback; void OnIteration(int t, void* d, uint64_t it) override { OneWesolowskiCallback::OnIteration(t, d, it); w->look(); } } cb(D, w.f, T);
        cb.w = &wt; values = T; wt.at = r.range(1, T); bound = 65536; wt.hit = [&] { stop = true; }; repeated_square(r.chance(1, 2) ? 0 : 3000000, w.f, w.D, L, &cb, nullptr, stop);
    } else if (kind == 0) {
        OneWesolowskiCallback cb(D, w.f, T); repeated_square(T, w.f, w.D, L, &cb, nullptr, never); Segment sg(0, T, w.f, cb.result);
        WOne p(sg, D, cb.forms.get(), stop); p.w = &wt; pick(p.values()); wt.hit = [&] { stop = true; }; p.start(); finished = p.IsFinished();
    } else if (kind == 4) {
        two_weso = true; TwoWesolowskiCallback cb(D, w.f); repeated_square(T, w.f, w.D, L, &cb, nullptr, never); uint64_t len = T - T % 10; form y = cb.GetFormCopy(len); Segment sg(0, len, w.f, y);
        WTwo p(sg, D, &cb, stop); p.w = &wt; pick(p.values()); wt.hit = [&] { stop = true; }; if (r.chance(1, 2)) p.GenerateProof(); else { p.start(); p.stop(); } finished = p.IsFinished();
    } else if (kind == 1) {
        fast_algorithm = true; FastAlgorithmCallback cb(2, D, w.f, false); repeated_square(T + 1, w.f, w.D, L, &cb, nullptr, never);
        Segment sg(0, T, cb.checkpoints[0], cb.checkpoints[T >> 16]); WInt p(sg, D, &cb); p.w = &wt; pick(p.values()); std::atomic<bool> go{false}, got{false};
        wt.hit = [&] { go = true; while (!got.load(RX)) usleep(200); usleep(20000); }; p.start(); while (!go) usleep(200);
        std::thread st([&] { p.stop(); }); usleep(r.chance(1, 2) ? 0 : 5000); got = true; st.join(); fast_algorithm = false;
    } else {
        int k = r.range(4, 8), l = r.range(2, 9); std::vector<form> v; form y = w.f; PulmarkReducer red;
        for (uint64_t n = 0; n < T; n++) { if (n % (k * l) == 0) v.push_back(y); nudupl_form(y, y, D, L); red.reduce(y); }
        Segment sg(0, T, w.f, y); WPar p(sg, D, &v, stop, k, l); p.w = &wt; pick(v.size()); wt.hit = [&] { stop = true; }; p.start(); finished = p.IsFinished();
    }
    after = wt.after; vh::maxi("looks_after_stop", after); vh::count(std::string("steps_") + (kind == 3 ? "loop" : kind == 1 ? "segment" : kind == 2 ? "parallel" : kind == 4 ? "two" : "one"));
    if (wt.looks < wt.at) { vh::inconclusive("stop point not reached: " + w.ctx); return; }
    if (after > bound) bad(std::string("steps:") + names[kind], w.ctx + ": stopped at value " + std::to_string(wt.at) + " of " + std::to_string(values) + ", looked at " + std::to_string(after) + " more");
    if (finished && after == 0) {} else if (finished) bad(std::string("steps:finished_after_stop:") + names[kind], w.ctx);
    vh::eval(w.ctx); vh::count("stops_counted_in_steps");
}

int main(int argc, char** argv) {
    vh::R(); if (!getenv("VERIF_STDOUT")) { int nul = ::open("/dev/null", 1); if (nul >= 0) dup2(nul, 1); }
    auto o = vh::parse(argc, argv); cut::setup();
    std::map<std::string, std::pair<int, void (*)(const vh::Opts&, long long, Rng&)>> m{{"n", {131, mode_n}}, {"two", {132, mode_two}}, {"one", {133, mode_one}}, {"long", {137, mode_long}}, {"nstop", {134, mode_nstop}}, {"slow", {135, mode_slow}}, {"steps", {136, mode_steps}}};
    if (!m.count(o.mode)) vh::harness_error("mode");
    vh::cases(o, m[o.mode].first, o.cases, [&](long long i, Rng& r) { g_viols = 0; m[o.mode].second(o, i, r); });
    return vh::finish();
}
