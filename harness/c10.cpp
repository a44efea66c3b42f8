// C10: stored intermediates. Modes: one, two, twofull, direct, storage, loop.
#include <thread>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include "vdfcut.hpp"
#include "grp.hpp"
#include "freeze.hpp"
#if VERIF_SCALE > 1
static const char* SC = "scaled ";
#else
static const char* SC = "";
#endif
static std::atomic<uint64_t> g_points{0}; static std::atomic<uint64_t> g_delay_us{0}; static std::atomic<uint64_t> g_seed{1};
void chiavdf_verif_point(const char*, uint64_t a, uint64_t b) { uint64_t n = g_points++; uint64_t d = g_delay_us; if (d) { Rng r(g_seed, n, a + b); if (r.chance(1, 2)) usleep(r.below(d)); } }

// element after e squarings; either from a group of known order or from a recorded sequence
struct Oracle {
    Grp G; Form x; bool known; std::vector<Form> seq; std::mutex m;
    Form at(uint64_t e) { if (known) return ref::pow(x, ref::pow2_mod(e, G.order), G.D); std::lock_guard<std::mutex> l(m); while (seq.size() <= e) seq.push_back(seq.empty() ? x : ref::square(seq.back(), G.D)); return seq[e]; }
};
static std::string ctx;
static std::atomic<int> nviol{0};
static bool same(const char* k, const form& f, Oracle& o, uint64_t e) {
    Form g = cut::F(f), w = o.at(e); vh::count(std::string("values_") + k);
    if (g == w) return true;
    if (ref::valid_form(g, o.G.D) && ref::reduce(g) == w) { vh::count("values_unreduced"); return true; }
    if (nviol++ < 4) { std::string hint; for (long d = -70000; d <= 70000 && o.known && hint.empty(); d += 1) { if (d > 12 || d < -12) { if (d % 32768) continue; } if ((long)e + d >= 0 && o.at(e + d) == ref::reduce(g)) hint = " (it is the element of " + std::to_string(e + d) + ")"; }
        vh::viol(std::string("stored:") + k, ctx + " at " + std::to_string(e) + " got " + cut::str(g) + " want " + cut::str(w) + hint); }
    return false;
}
struct OP : OneWesolowskiProver { using OneWesolowskiProver::OneWesolowskiProver; uint64_t step() const { return (uint64_t)k * l; } };
struct TP : TwoWesolowskiProver { using TwoWesolowskiProver::TwoWesolowskiProver; uint64_t step() const { return (uint64_t)k * l; } };
struct IP : InterruptableProver { using InterruptableProver::InterruptableProver; uint64_t step() const { return (uint64_t)k * l; } };

// drives a callback the way the loop does: a view of the (possibly unreduced) element per iteration
struct Feeder {
    Z D; Form f; Rng& r; uint64_t n = 0; integer Di; Z cur_a, cur_b, cur_c;
    Feeder(Oracle& o, Rng& rr) : D(o.G.D), f(o.x), r(rr), Di(cut::I(o.G.D)) {}
    void step(INUDUPLListener* l) {
        f = ref::square(f, D);
        Form u = f; if ((n & 7) == 3) { Z k = 1 + Z((unsigned long)(n >> 3 & 3)); Z nb = f.b + 2 * f.a * k, nc = f.a * k * k + f.b * k + f.c; u.b = nb; u.c = nc; if (n & 8) { std::swap(u.a, u.c); u.b = -u.b; } }
        vdf_original::form v; v.a[0] = *u.a.get_mpz_t(); v.b[0] = *u.b.get_mpz_t(); v.c[0] = *u.c.get_mpz_t();
        l->OnIteration(NL_FORM, &v, n++);
    }
};
static void pick(Rng& r, Oracle& o, unsigned bits, bool known) { o.G = mkgrp(r, bits, false, known); o.known = known; o.x = r.chance(1, 4) ? o.G.g : known ? o.G.gpow(Z((unsigned long)r.next())) : ref::pow(o.G.g, Z((unsigned long)r.next()), o.G.D); ctx = "D=" + o.G.D.get_str(16) + " x=" + cut::str(o.x); }

static void mode_one(const vh::Opts& op, long long i, Rng& r) {
    Oracle o; pick(r, o, r.range(16, 44), true);
    static const uint64_t spots[] = {1, 9, 10, 11, 99, 100, 65535, 65536, 65537, 65546};
    uint64_t T = i % 3 == 0 ? spots[r.below(10)] : r.chance(1, 6) ? r.range(65536, 400000) : r.range(1, 30000);
    if (op.num("big", 0)) T = r.range(10000000, 12000000);
    integer Di = cut::I(o.G.D); form f = cut::mk(o.x);
    ctx += " T=" + std::to_string(T); vh::at("one", ctx);
    OneWesolowskiCallback w(Di, f, T); Feeder fd(o, r);
    uint64_t extra = r.below(12000);
    for (uint64_t n = 0; n < T + extra; n++) fd.step(&w);
    same("one_result", w.result, o, T);
    std::atomic<bool> st{false}; Segment sg(0, T, f, w.result); OP p(sg, Di, w.forms.get(), st);
    if (!p.step()) { vh::viol("one:step", ctx); return; }
    for (uint64_t k = 0; k * p.step() < T; k++) if (T < 40000 ? k % 4 == 0 || k < 50 : r.chance(1, T / 8000 + 1)) same("one", p.GetForm(k), o, k * p.step());
    vh::eval(ctx); vh::count("runs_one"); if (i < 2) vh::sample(ctx);
}

// two-weso: the real loop (thresholds scaled), a reader asking for stored elements all along
static void mode_two(const vh::Opts& op, long long i, Rng& r) {
    Oracle o; pick(r, o, r.range(24, 44), true); integer Di = cut::I(o.G.D), L = root(-Di, 4); form f = cut::mk(o.x);
    vh::at("two", SC + ctx);
    struct W : TwoWesolowskiCallback { using TwoWesolowskiCallback::TwoWesolowskiCallback; std::atomic<uint64_t> hi{0}; void OnIteration(int t, void* d, uint64_t it) override { if (it + 1 >= (uint64_t)kMaxItersAllowed && nviol++ < 3) vh::viol("two:past_maximum", ctx + " reported " + std::to_string(it + 1)); TwoWesolowskiCallback::OnIteration(t, d, it); hi = it + 1; } } w(Di, f);
    fast_algorithm = false; two_weso = true; std::atomic<bool> st{false}, fin{false};
    std::thread rd([&] {
        Rng q(o.G.bits, i, 5); uint64_t asked = 0, later = 0;
        auto ask = [&](uint64_t e, const char* k) { form g; try { g = w.GetFormCopy(e); } catch (const std::exception& ex) { if (nviol++ < 4) vh::viol("two:refused", ctx + " at " + std::to_string(e) + " " + ex.what()); return; } same(k, g, o, e); asked++; };
        while (!fin) {
            uint64_t it = w.iterations.load(); if (it < 100) { usleep(1000); continue; }
            uint64_t e = q.below(4) == 0 ? it - q.below(std::min<uint64_t>(it, 2000)) : q.below(it);
            bool large = w.LargeConstants(); uint64_t g = large && e >= (uint64_t)kSwitchIters ? 100 : 10; e -= e % g; if (e >= (uint64_t)kSwitchIters) later++;
            ask(e, "two"); if (asked % 8 == 0) usleep(500);
        }
        uint64_t it = w.iterations.load();
        for (uint64_t e = (uint64_t)kSwitchIters - 3000; e < (uint64_t)kSwitchIters + 20000 && e < it; e += 10) { if (e >= (uint64_t)kSwitchIters && e % 100) continue; ask(e, "two_switch"); }
        // what the provers of a request ask for
        for (int k = 0; k < 6 && it > 10000; k++) {
            uint64_t T = k == 0 ? it : q.range(1000, it), i1 = T * 2 / 3; i1 -= i1 % 100; uint64_t T2 = T - i1, i2 = T2 * 2 / 3; i2 -= i2 % 100;
            uint64_t st3[3] = {0, i1, i1 + i2}, ln[3] = {i1, i2, T - i1 - i2};
            for (int s = 0; s < 3; s++) { std::atomic<bool> ss{false}; form z = f; Segment sg(st3[s], ln[s], z, z); TP p(sg, Di, &w, ss); for (uint64_t n = 0; n * p.step() < ln[s]; n += 1 + q.below(60)) { form g; try { g = p.GetForm(n); } catch (const std::exception& ex) { if (nviol++ < 4) vh::viol("two:prover_refused", ctx + " T=" + std::to_string(T) + " segment " + std::to_string(s) + " " + ex.what()); break; } same("two_prover", g, o, st3[s] + n * p.step()); } }
        }
        vh::count("two_reads", asked); vh::count("two_reads_after_switch", later);
    });
    uint64_t N = op.num("iters", 0);
    repeated_square(N, f, Di, L, &w, nullptr, st);
    fin = true; rd.join();
    if (!N && (uint64_t)w.hi < (uint64_t)kMaxItersAllowed - 600000) vh::viol("two:ended_early", ctx + " at " + std::to_string(w.hi));
    if (w.LargeConstants()) vh::count("switches_crossed"); if (!N) vh::count("ran_to_the_end");
    vh::eval(ctx); vh::count("runs_two"); if (i < 2) vh::sample(std::string(SC) + ctx + " ended at " + std::to_string(w.hi));
}

// two-weso positions at full scale, fed only at checkpoint iterations
static void mode_twofull(const vh::Opts&, long long i, Rng& r) {
    Oracle o; pick(r, o, r.range(30, 44), true); integer Di = cut::I(o.G.D); form f = cut::mk(o.x); vh::at("twofull", ctx);
    TwoWesolowskiCallback w(Di, f); uint64_t sw = (uint64_t)kSwitchIters + 100 * r.below(101); bool up = false;
    std::vector<uint64_t> pts;
    for (int k = 0; k < 2000; k++) pts.push_back(10 * r.below(sw / 10));
    for (uint64_t e = sw - 3000; e < sw; e += 10) pts.push_back(e);
    for (uint64_t e = sw; e < sw + 60000; e += 100) pts.push_back(e);
    uint64_t end = (uint64_t)kMaxItersAllowed - 500000 + 50000;    // a batch and a publication step past the documented end
    for (int k = 0; k < 2000; k++) { uint64_t e = sw + r.below(end - sw); pts.push_back(e - e % 100); }
    for (uint64_t e = end - 60000; e < end; e += 1000) pts.push_back(e - e % 100);
    pts.push_back(10); std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    auto feed = [&](uint64_t e, bool right) { Form g = right ? o.at(e) : ref::identity(o.G.D); vdf_original::form v; v.a[0] = *g.a.get_mpz_t(); v.b[0] = *g.b.get_mpz_t(); v.c[0] = *g.c.get_mpz_t(); try { w.OnIteration(NL_FORM, &v, e - 1); } catch (const std::exception& ex) { if (nviol++ < 4) vh::viol("twofull:refused", ctx + " at " + std::to_string(e) + " " + ex.what()); } };
    for (uint64_t e : pts) {
        if (e >= sw && !up) { w.IncreaseConstants(sw); up = true; }
        if (e == 0) continue;
        feed(e, true);
        for (int k = 0; k < 2; k++) { uint64_t d = e + 1 + r.below(9); if (d < sw || up) feed(d, false); }            // reports in between must not be stored
        if (up) feed(e + 10 * (1 + r.below(9)), false);
    }
    for (uint64_t e : pts) same("twofull", w.GetFormCopy(e), o, e);
    vh::eval(ctx); vh::count("runs_twofull"); vh::maxi("two_iteration", end); if (i < 1) vh::sample(ctx + " switch at " + std::to_string(sw));
}

// what a prover of any segment ending at or before `done` may ask for, while the loop is at `n`
static void check_segments(Rng& r, Oracle& o, FastAlgorithmCallback& w, int segments, integer& Di, uint64_t done, std::atomic<uint64_t>& n, const char* kind, int tries) {
    for (int t = 0; t < tries; t++) {
        int b = r.below(segments); uint64_t len = 1ull << (16 + 2 * b); if (done < len) { b = 0; len = 1 << 16; } if (done < len) return;
        uint64_t last = done / len - 1, lo = (n.load() / len) >= (uint64_t)kWindowSize - 2 ? n.load() / len - (kWindowSize - 2) : 0; if (lo > last) continue;
        uint64_t s = r.chance(1, 3) ? last : r.chance(1, 2) ? lo : r.range(lo, last), start = s * len;
        form z = w.y_ret; Segment sg(start, len, z, z);
        static auto& keep = *new std::vector<IP*>; static std::mutex km; IP* p = new IP(sg, Di, &w); { std::lock_guard<std::mutex> g(km); keep.push_back(p); }   // its thread is never started, so it is never destroyed
        std::vector<std::pair<uint64_t, form>> got; uint64_t cnt = (len + p->step() - 1) / p->step();
        for (int k = 0; k < 12; k++) { uint64_t j = k == 0 ? 0 : k == 1 ? cnt - 1 : r.below(cnt); got.push_back({start + j * p->step(), p->GetForm(j)}); }
        form cp0 = w.checkpoints[start >> 16], cp1 = w.checkpoints[(start + len) >> 16];
        if (n.load() / len < s + (uint64_t)kWindowSize) { for (auto& g : got) same(kind, g.second, o, g.first); vh::count(std::string(kind) + "_segments_bucket" + std::to_string(b)); if (n.load() / len >= (uint64_t)kWindowSize) vh::count(std::string(kind) + "_segments_after_wrap"); }
        same("checkpoint", cp0, o, start); same("checkpoint", cp1, o, start + len);

    }
}

static void mode_direct(const vh::Opts& op, long long i, Rng& r) {
    Oracle o; pick(r, o, r.range(16, 44), true); int segments = i % 4 == 0 ? 7 : r.range(1, 7); integer Di = cut::I(o.G.D); form f = cut::mk(o.x);
    uint64_t N = r.range(op.num("maxn", 1800000) / 2, op.num("maxn", 1800000)); ctx += " segments=" + std::to_string(segments) + " N=" + std::to_string(N); vh::at("direct", ctx);
    FastAlgorithmCallback w(segments, Di, f, false); Feeder fd(o, r); std::atomic<uint64_t> n{0}; uint64_t nextchk = 0;
    while (fd.n < N) {
        fd.step(&w); n = fd.n;
        if (fd.n >= nextchk) { check_segments(r, o, w, segments, Di, fd.n - fd.n % 65536, n, "direct", 2); nextchk = fd.n + r.range(1, 60000); if (r.chance(1, 4)) nextchk = (fd.n / 65536 + 1) * 65536 + r.below(2); }
    }
    vh::eval(ctx); vh::count("runs_direct"); if (i < 2) vh::sample(ctx);
}

// what a prover may ask for last, read the moment the storage calls it finished
static void check_edge(Oracle& o, FastAlgorithmCallback& w, int segments, uint64_t from, uint64_t d) {
    std::vector<std::pair<uint64_t, form>> got;
    for (uint64_t end = d; end > from && end + (4u << 16) > d; end -= 65536)
        for (int half = 0; half < 2; half++) for (int b = 0; b < segments; b++) {
            uint64_t len = 1ull << (16 + 2 * b), kl = b ? 12 * (len >> 18) : 10, e = end - 1 - half * 32768;
            for (int k = 0; k < 8; k++) { uint64_t at = e - (e % len) % kl; if (at + 32768 > e && at / 32768 == e / 32768) got.push_back({at, *w.GetForm(at, b)}); if (at == 0 || at / 32768 != e / 32768 || at < (uint64_t)(k == 7 ? 3000 : 1)) break; e = at - (k == 6 ? std::min<uint64_t>(at, 3000) : 1); }
        }
    for (auto& g : got) same("storage_edge", g.second, o, g.first);
}
static void mode_storage(const vh::Opts& op, long long i, Rng& r) {
    Oracle o; pick(r, o, r.range(20, 44), true); int segments = i % 3 == 0 ? 7 : r.range(1, 7); integer Di = cut::I(o.G.D); form f = cut::mk(o.x);
    uint64_t N = op.num("maxn", 700000); ctx += " storage segments=" + std::to_string(segments); vh::at("storage", ctx);
    g_delay_us = r.chance(1, 2) ? 0 : r.range(100, 40000); g_seed = r.next();
    bool cold = r.chance(2, 3); uint64_t cold_us = r.chance(1, 2) ? 3000 : 60000, cold_seed = r.next();
    FastAlgorithmCallback w(segments, Di, f, true); std::atomic<uint64_t> n{0}, seen{0}; std::atomic<bool> over{false};
    {
        FastStorage st(&w); Feeder fd(o, r); uint64_t lastcp = 0, lag = r.below(10000); Rng wr(g_seed, i, 77);
        // one thread follows the storage, as the event loop does
        std::unique_ptr<frz::Freezer> fz; if (cold) fz.reset(new frz::Freezer(cold_us, cold_us / 3, cold_seed, true));
        std::atomic<unsigned> looks{0};
        std::thread watcher([&] {
            unsigned last = 0;
            while (!over) {
                uint64_t d = st.GetFinishedSegment(), m = n.load(), s0 = seen.load();
                if (d > m + 65536 - 1) { if (nviol++ < 4) vh::viol("storage:finished_ahead", ctx + " finished=" + std::to_string(d) + " loop=" + std::to_string(m)); return; }
                if (d < s0) vh::viol("storage:finished_backwards", ctx);
                if (d > s0) { check_edge(o, w, segments, s0, d); seen = d; }
                unsigned l = looks.load(); if (l != last) { last = l; check_segments(wr, o, w, segments, Di, std::min(d, m - m % 65536), n, "storage", 2); }
                else if (d == s0) std::this_thread::yield();
            }
        });
        while (fd.n < N) {
            fd.step(&w); n = fd.n;
            if (fd.n >= lastcp + lag) { st.SubmitCheckpoint(w.y_ret, lastcp); lastcp += 1 << 15; lag = r.below(10000); }
            if (fd.n % 16384 == 0) { looks++; while (n.load() > seen + (8u << 16) && !nviol) usleep(2000); }
        }
        for (int t = 0; t < 8000 && seen < (lastcp - (1 << 15)) / 65536 * 65536 && !nviol; t++) usleep(5000);
        fz.reset(); over = true; watcher.join();
        if (seen < (lastcp - (1 << 15)) / 65536 * 65536 && !nviol) vh::viol("storage:never_finished", ctx + " finished=" + std::to_string(seen));
        if (seen > lastcp) vh::viol("storage:finished_unsubmitted", ctx);
    }
    vh::count("freezes", frz::frozen.exchange(0)); g_delay_us = 0; vh::count("storage_finished_segments", seen >> 16); vh::eval(ctx); vh::count("runs_storage"); if (i < 2) vh::sample(ctx);
}

// the real loop on full-size discriminants, with direct storing or background storage
static void mode_loop(const vh::Opts& op, long long i, Rng& r) {
    bool bg = i % 2; Oracle o; pick(r, o, i % 4 < 2 ? 1024 : r.range(200, 1000), false); int segments = r.range(2, 7); integer Di = cut::I(o.G.D), L = root(-Di, 4); form f = cut::mk(o.x);
    uint64_t N = op.num("maxn", 70000); ctx += std::string(bg ? " background" : " direct") + " N=" + std::to_string(N); vh::at("loop", ctx);
    g_delay_us = 0; fast_algorithm = true; two_weso = false; std::atomic<bool> st{false}; std::atomic<uint64_t> n{0};
    struct W : FastAlgorithmCallback { using FastAlgorithmCallback::FastAlgorithmCallback; std::atomic<uint64_t>* n; void OnIteration(int t, void* d, uint64_t it) override { FastAlgorithmCallback::OnIteration(t, d, it); *n = it + 1; } } w(segments, Di, f, bg); w.n = &n;
    {
        std::unique_ptr<FastStorage> fs; if (bg) fs.reset(new FastStorage(&w));
        form g = f; repeated_square(N, g, Di, L, &w, fs.get(), st);
        uint64_t done = n.load() - n.load() % 65536;
        if (bg) { for (int t = 0; t < 3000 && fs->GetFinishedSegment() < done; t++) usleep(10000); if (fs->GetFinishedSegment() < done) vh::viol("loop:storage_never_finished", ctx); done = std::min<uint64_t>(done, fs->GetFinishedSegment()); }
        check_segments(r, o, w, segments, Di, done, n, bg ? "loop_storage" : "loop_direct", 40);
    }
    vh::eval(ctx); vh::count("runs_loop"); if (i < 1) vh::sample(ctx);
}

int main(int argc, char** argv) {
    vh::R(); int nul = ::open("/dev/null", 1); if (nul >= 0) dup2(nul, 1);
    auto o = vh::parse(argc, argv); cut::setup();
    std::map<std::string, std::pair<int, void (*)(const vh::Opts&, long long, Rng&)>> m{{"one", {101, mode_one}}, {"two", {102, mode_two}}, {"twofull", {103, mode_twofull}}, {"direct", {104, mode_direct}}, {"storage", {105, mode_storage}}, {"loop", {106, mode_loop}}};
    if (!m.count(o.mode)) vh::harness_error("mode");
    vh::cases(o, m[o.mode].first, o.cases, [&](long long i, Rng& r) { nviol = 0; m[o.mode].second(o, i, r); });
    return vh::finish();
}
