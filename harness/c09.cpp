// C09: the squaring loop reports every iteration once, in order, with the right element. Modes: loop, corrupt, delay.
#include <thread>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include "vdfcut.hpp"
#include "grp.hpp"

struct Plan { std::vector<uint64_t> corrupt, delay; unsigned delay_us = 0; uint64_t seed = 1; bool abort_late = false; };
struct Rec : WesolowskiCallback {
    std::vector<Form> seq;              // seq[i] = element after i squarings
    ref::Z Dz; Plan plan; Rng r; std::string desc;
    std::atomic<uint64_t> reported{0};  // every iteration below this has a correct report
    uint64_t next = 0, high = 0, reports = 0, forms = 0, states = 0, replays = 0, bad = 0, corruptions = 0, replayed = 0; bool dirty = false; uint64_t dirty_at = 0, wrong_seen = 0;
    std::atomic<bool>* stop = nullptr; uint64_t stop_at = ~0ull; bool stop_requested = false; uint64_t after_stop = 0;
    Rec(integer& D, const Form& f, const Plan& p) : WesolowskiCallback(D), plan(p), r(p.seed, 99) { Dz = cut::Z(D); seq.push_back(ref::reduce(f)); }
    void OnIteration(int type, void* data, uint64_t it) override {
        reports++; (type == NL_FORM ? forms : states)++;
        int64_t pub = iterations.load();
        if (pub < 0 || (uint64_t)pub > it) fail("progress_ahead", "published " + std::to_string(pub) + " while iteration index " + std::to_string(it) + " is being reported");
        if (it != next) {
            if (dirty && it < next && it <= dirty_at) { replays++; replayed += dirty_at - it; dirty = false; next = it; }   // the batch hit by the injected corruption, once more from its start
            else { fail("order", "reported " + std::to_string(it) + " instead of " + std::to_string(next)); next = it; if (it + 1 > seq.size()) return; }
        }
        next = it + 1;
        if (stop_requested) after_stop++;
        while (seq.size() <= it + 1) seq.push_back(ref::square(seq.back(), Dz));
        ::form f; SetForm(type, data, &f);
        Form g = cut::F(f);
        if (dirty) { if (g != seq[it + 1]) wrong_seen++; }
        else {
            if (g != seq[it + 1]) fail("value", "iteration index " + std::to_string(it) + " type " + std::to_string(type) + " got " + cut::str(g) + " want " + cut::str(seq[it + 1]));
            if (it + 1 > high) high = it + 1, reported = high;
        }
        if (!dirty && type == NL_SQUARESTATE && !plan.corrupt.empty() && it >= plan.corrupt.front()) {
            auto* s = (square_state_type*)data; auto& v = r.chance(1, 2) ? s->phase_start.a() : s->phase_start.b();
            size_t nb = mpz_sizeinbase((mpz_srcptr)v, 2);
            if (nb > 40) { mpz_combit((mpz_ptr)v, r.below(nb - 1)); dirty = true; dirty_at = it + 1; corruptions++; plan.corrupt.erase(plan.corrupt.begin()); }
        }
        if (!plan.delay.empty() && it >= plan.delay.front()) { plan.delay.erase(plan.delay.begin()); usleep(plan.delay_us); vh::count("delays_injected"); }
        if (stop && it == stop_at) { stop_requested = true; *stop = true; }
    }
    void fail(const std::string& k, const std::string& d) { if (bad++ < 3) vh::viol("loop:" + k, desc + " " + d); }
};

// a discriminant with an element of tiny norm and order n: (a, b, a^(n-1))
static bool order_disc(Rng& r, unsigned bits, Z& D, Form& f) {
    for (int t = 0; t < 40; t++) {
        unsigned n = r.chance(1, 2) ? r.range(3, 24) : r.range(3, bits - 4);
        unsigned abits = std::max(1u, (bits - 2) / n);
        Z a = gen::rnd_bits(r, abits) | (Z(1) << (abits - 1)); if (mpz_odd_p(a.get_mpz_t())) a += 1; if (a < 2) a = 2;
        Z an; mpz_pow_ui(an.get_mpz_t(), a.get_mpz_t(), n); if (ref::nbits(an) + 2 > 1024 || ref::nbits(an) < 6) continue;
        for (int q = 0; q < 600; q++) {
            Z b = 2 * gen::rnd_bits(r, std::min(40u, (unsigned)ref::nbits(an) / 2)) + 1; if (r.chance(1, 30)) b = 1; if (b * b >= 4 * an) continue;
            Z d = 4 * an - b * b; if (mpz_fdiv_ui(d.get_mpz_t(), 8) != 7 || !ref::is_prime(d)) continue;
            D = -d; Z g = a; f.a = a; f.b = b; f.c = an / a; f = ref::reduce(f); return ref::valid_form(f, D);
        }
    }
    return false;
}

static void one(const vh::Opts& o, long long i, Rng& r) {
    unsigned bits; Z D; Form x; std::string kind;
    bool big = o.mode == "corrupt";
    unsigned pickd = r.below(10);
    static const unsigned mers[] = {89, 107, 127, 521, 607};
    if (!big && pickd == 0) { unsigned m = mers[r.below(5)]; D = -((Z(1) << m) - 1); kind = "mersenne"; ref::make(2, 1, D, x); x = ref::reduce(x); }
    else if (!big && pickd <= 2 && order_disc(r, r.range(60, 1024), D, x)) { kind = "small_order"; if (r.chance(1, 4)) { x = ref::compose(x, gen::rnd_form(r, D), D); kind = "small_order_shifted"; } }
    else {
        bits = i % 3 == 0 ? 1024 : i % 3 == 1 ? (big ? r.range(200, 1024) : r.range(16, 200)) : r.range(big ? 256 : 200, 1024);
        D = gen::prime_disc(r, bits); unsigned m = r.below(4); kind = m == 0 ? "identity" : m == 1 ? "generator" : "random";
        if (big && m == 0) m = 2;
        if (m == 0) x = ref::identity(D); else if (m == 1) { ref::make(2, 1, D, x); x = ref::reduce(x); } else x = gen::rnd_form(r, D);
    }
    bits = ref::nbits(abs(D));
    uint64_t N = o.mode == "loop" ? (r.chance(1, 3) ? r.range(10001, 26000) : r.range(1, 3000)) : r.range(10000, 21000);
    uint64_t maxn = o.num("maxn", 26000); if (N > maxn) N = r.range(maxn / 2, maxn);
    Plan p; p.seed = r.next();
    if (o.mode == "corrupt") { uint64_t at = r.chance(1, 3) ? r.below(30) : r.below(9900); for (int k = 0; k < 3; k++) { p.corrupt.push_back(at); at += r.chance(1, 3) ? r.below(40) : r.below(12000); } }
    if (o.mode == "delay") { uint64_t at = r.below(3000); unsigned n = r.range(2, 5); for (unsigned k = 0; k < n; k++) { p.delay.push_back(at); at += r.below(4000); } p.delay_us = r.chance(1, 3) ? r.range(1, 3000) : 250000; }
    integer Di = cut::I(D), L = root(-Di, 4);
    std::string d = "kernel=" + o.str("kernel") + " kind=" + kind + " D=" + D.get_str(16) + " x=" + cut::str(x) + " N=" + std::to_string(N);
    vh::at("loop", d);
    Rec rec(Di, x, p); rec.desc = d.substr(0, 3000);
    std::atomic<bool> stopped{false}, mon{true}; std::atomic<uint64_t> polls{0};
    bool dostop = r.chance(1, 5);
    if (dostop) { rec.stop = &stopped; rec.stop_at = r.below(N); }
    std::thread watch([&] { while (mon) { int64_t v = rec.iterations.load(); uint64_t rep = rec.reported.load(); (void)rep; if (v < 0) vh::viol("loop:progress_negative", d); if ((uint64_t)v > rec.reported.load()) vh::viol("loop:progress_ahead", d + " published=" + std::to_string(v) + " reported=" + std::to_string(rec.reported.load())); polls++; std::this_thread::sleep_for(std::chrono::microseconds(200)); } });
    form f = cut::mk(x);
    repeated_square(dostop ? 0 : N, f, Di, L, &rec, nullptr, stopped);
    mon = false; watch.join();
    if (rec.dirty) rec.fail("corruption_kept", "the batch corrupted at " + std::to_string(rec.dirty_at) + " was never redone");
    if (!dostop && rec.high < N) rec.fail("short", "ended after " + std::to_string(rec.high));
    if (!dostop && !rec.bad && (uint64_t)rec.iterations.load() < N) rec.fail("progress_short", "published " + std::to_string(rec.iterations.load()));
    if (dostop && rec.after_stop > 60000) rec.fail("stop_late", std::to_string(rec.after_stop) + " iterations after the stop request");
    vh::eval(d); vh::count("iterations_checked", rec.reports); vh::count("fast_reports", rec.states); vh::count("slow_reports", rec.forms);
    vh::count("corruptions_injected", rec.corruptions); vh::count("batches_replayed", rec.replays); vh::count("wrong_values_before_replay", rec.wrong_seen);
    vh::count("runs_" + kind); vh::count("progress_polls", polls); if (dostop) vh::count("stops");
    if (i < 2) vh::sample(d.substr(0, 700) + " -> reports=" + std::to_string(rec.reports) + " fast=" + std::to_string(rec.states));
}

int main(int argc, char** argv) {
    vh::R(); int nul = ::open("/dev/null", 1); if (nul >= 0) dup2(nul, 1);
    auto o = vh::parse(argc, argv); cut::setup();
    vh::count(hasAVX2() ? "kernel_avx2" : "kernel_baseline"); if (enable_avx512_ifma) vh::count("kernel_avx512");
    vh::cases(o, o.mode == "loop" ? 91 : o.mode == "corrupt" ? 92 : 93, o.cases, [&](long long i, Rng& r) { one(o, i, r); });
    return vh::finish();
}
