// C20: the hardware proof engine fed with a device's value stream, as the client's event loop does, in groups whose order is known: every stored value, every proof and every refusal is judged exactly.
#include <set>
#include <time.h>
#include <sys/syscall.h>
#include "hw_proof.hpp"
#include "hw_util.hpp"
#include "vh.hpp"
#include "ref.hpp"
#include "grp.hpp"

// The engine's own logger is replaced (its text is not observed); sleeping is shortened and varied, so that threads meet at other points.
static std::atomic<uint64_t> n_logs{0}, n_sleeps{0};
void vdf_do_log(const char*, ...) { n_logs++; }
static std::atomic<unsigned> sleep_div{20};
extern "C" int nanosleep(const struct timespec* rq, struct timespec*) {
    static thread_local uint64_t z = (uint64_t)(uintptr_t)&z ^ 0x9e3779b97f4a7c15ull; z ^= z << 13; z ^= z >> 7; z ^= z << 17; n_sleeps++;
    uint64_t ns = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec; ns = ns / sleep_div * (1 + z % 4) / 2;
    struct timespec t = {(time_t)(ns / 1000000000ull), (long)(ns % 1000000000ull)}; syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &t, nullptr); return 0;
}
static const uint64_t IV = HW_VDF_VALUE_INTERVAL;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Dev {                    // the true sequence x^(2^t)
    Grp G; Form x;
    Form at(uint64_t t) const { return ref::pow(x, ref::pow2_mod(t, G.order), G.D); }
};
struct Sess {
    Dev d; vdf_state* v; vdf_value val; uint64_t target, off = 0, pos = 0, last = 0; unsigned dup = 0; std::string desc;
    std::multiset<uint64_t> open; std::map<uint64_t, Form> memo; uint64_t bad_seen = 0; unsigned answered = 0; bool dead = false;
    void bad(const std::string& k, const std::string& s) { vh::viol(k, desc + " " + s); dead = true; }
};
static bool form_ok(const Z& a, const Z& b, const Z& D) { if (a <= 0) return false; Z n = b * b - D; return ref::fmod_(n, 4 * a) == 0; }

static void restart(Sess& s, Rng& r) {
    size_t p = 0; form* f = hw_proof_last_good_form(s.v, &p); uint64_t at = (uint64_t)p * IV;
    Z a, b; mpz_set(a.get_mpz_t(), f->a.impl); mpz_set(b.get_mpz_t(), f->b.impl);
    if (at > std::max(s.last, s.v->cur_iters)) return s.bad("restart_ahead", "restart at " + std::to_string(at) + " after the last good value");
    Form w = s.d.at(at); Form g{a, b, 0}; if (!form_ok(a, b, s.d.G.D)) return s.bad("restart_value", "restart value at " + std::to_string(at) + " is no form");
    g.c = (b * b - s.d.G.D) / (4 * a); g = ref::reduce(g);
    if (!(g == w)) return s.bad("restart_value", "restart value at " + std::to_string(at) + " is not the value there");
    s.off = s.v->iters_offset = at; s.pos = at; s.dup = 0; vh::count("restarts"); if (at) vh::count("restarts_past_start");
}
// one sample handed to the engine; iters is relative to the last start, as the device counts
static void feed(Sess& s, Rng& r, uint64_t rel, const Z& a, const Z& b, int expect, const char* kind) {
    s.val.iters = rel; mpz_set(s.val.a, a.get_mpz_t()); mpz_set(s.val.b, b.get_mpz_t());
    uint32_t nb = s.v->n_bad; int rc = hw_proof_add_value(s.v, &s.val); vh::count(std::string("samples_") + kind);
    if (expect == 0 && rc != 0) return s.bad("good_value_refused", std::string(kind) + " at " + std::to_string(s.off + rel) + " rc=" + std::to_string(rc));
    if (expect == -1 && rc != -1) return s.bad("bad_value_accepted", std::string(kind) + " at " + std::to_string(s.off + rel) + " a=" + a.get_str(16) + " b=" + b.get_str(16) + " rc=" + std::to_string(rc));
    if (expect == -1 && s.v->n_bad != nb + 1) return s.bad("bad_value_unreported", kind);
    if (expect == 1) { if (rc == 0) return s.bad("repeated_value_taken", kind); if (rc < 0) { vh::count("stalls"); restart(s, r); } return; }
    if (rc == 0) { s.last = s.off + rel; s.dup = 0; } else restart(s, r);
}
static void request(Sess& s, uint64_t it) {
    hw_request_proof(s.v, it, false);
    if (it > s.target) vh::count("requests_past_target");      // answered if the values get there
    s.open.insert(it); vh::count("requests"); if (it <= s.last) vh::count("requests_late"); if (it % IV == 0) vh::count("requests_on_interval");
}
static void collect(Sess& s) {
    vdf_proof* p; int n;
    while (!s.dead && (n = hw_retrieve_proof(s.v, &p)) >= 0) {
        uint64_t T = p->iters; auto it = s.open.find(T);
        if (it == s.open.end()) return s.bad("unrequested_proof", "iters=" + std::to_string(T));
        s.open.erase(it); s.answered++;
        const Z& D = s.d.G.D; Bytes blob(p->y, p->y + 100); blob.insert(blob.end(), p->proof, p->proof + 100);
        uint64_t sum = p->seg_iters; vdf_proof* q = p;
        for (int i = 0; i < n; i++) {
            if (q->prev >= s.v->proofs.size()) return s.bad("broken_chain", "iters=" + std::to_string(T));
            q = &s.v->proofs[q->prev]; sum += q->seg_iters; ref::put_be64(blob, q->seg_iters); blob.insert(blob.end(), q->B, q->B + HW_VDF_B_SIZE); blob.insert(blob.end(), q->proof, q->proof + 100);
        }
        vh::eval(ref::hex(blob)); vh::count("proofs"); { static std::atomic<int> ns{0}; if (ns++ < 3) vh::sample(s.desc + " iterations " + std::to_string(T) + " segments " + std::to_string(n + 1) + " last value " + std::to_string(s.last)); } vh::maxi("segments", n + 1); if (n) vh::count("proofs_segmented"); if (sum != T) return s.bad("segment_sum", "iters=" + std::to_string(T) + " sum=" + std::to_string(sum));
        if (!p->seg_iters) vh::count("proofs_empty_segment");
        if (n > 63) return s.bad("too_many_segments", std::to_string(n));
        Form y; Form want = s.d.at(T);
        if (ref::hex(Bytes(p->y, p->y + 100)) != ref::hex(enc(want, D))) return s.bad("wrong_value", "iters=" + std::to_string(T) + " y=" + ref::hex(Bytes(p->y, p->y + 100)) + " want " + ref::hex(enc(want, D)));
        if (!ref::verify_n(D, enc(s.d.x, D).data(), blob.data(), blob.size(), T, (uint64_t)n)) return s.bad("invalid_proof", "iters=" + std::to_string(T) + " blob=" + ref::hex(blob));
    }
}
static uint64_t pick_req(Rng& r, const Sess& s) {
    uint64_t t;
    switch (r.below(12)) {
        case 0: return r.range(1, std::min<uint64_t>(20, s.target));
        case 1: return r.range(1, std::min<uint64_t>(IV, s.target));
        case 2: return IV * r.range(1, s.target / IV);
        case 3: t = IV * r.range(1, s.target / IV) + (r.chance(1, 2) ? 1 : -1); return std::min(t, s.target);
        case 4: return std::max<uint64_t>(1, s.last);
        case 5: return s.last + r.range(1, IV) <= s.target ? s.last + 1 : s.target;
        case 6: return s.target;
        case 7: if (!s.open.empty()) { auto i = s.open.begin(); std::advance(i, r.below(s.open.size())); return *i; } return s.target;                // asked before
        case 8: if (!s.open.empty()) { auto i = s.open.begin(); std::advance(i, r.below(s.open.size())); uint64_t m = *i; t = m * r.pick(std::vector<uint64_t>{69, 92, 75}) / 100 / IV * IV; return std::max<uint64_t>(t, 1); } return s.target;   // where a checkpoint may be
        default: return r.range(1, s.target);
    }
}
// a checkpoint is being proved while the request it was made for still waits for values
static bool checkpoint_running(const Sess& s, uint64_t& lastq) {
    std::lock_guard<std::mutex> lk(s.v->proofs_resize_mtx); if (s.v->queued_proofs.empty()) return false;
    lastq = s.v->proofs[s.v->queued_proofs.back()].iters;
    for (auto& p : s.v->proofs) if (p.iters != UINT64_MAX && (p.flags & HW_VDF_PROOF_FLAG_STARTED) && !(p.flags & (HW_VDF_PROOF_FLAG_DONE | HW_VDF_PROOF_FLAG_IS_REQ))) return true;
    return false;
}
static void session(Sess& s, Rng& r, bool cut, unsigned badness, bool dense, unsigned nreq) {
    const Z& D = s.d.G.D; unsigned left = nreq; uint64_t stop_at = cut ? r.range(1, s.target) : s.target; unsigned idle = 0; int style = (int)r.below(4);
    const bool lng = s.target > 1000000; unsigned cross = lng ? (unsigned)r.below(8) : 0, gap = lng && r.chance(1, 2) ? std::max<unsigned>(3, (unsigned)(s.target / IV / (left + 1))) : dense ? 8 : 3;
    if (lng && r.chance(1, 2)) request(s, s.target - r.below(IV));
    if (r.chance(1, 3)) while (left && r.chance(2, 3)) { request(s, pick_req(r, s)); left--; }
    while (!s.dead && s.last < stop_at) {
        uint64_t lastq = 0; if (cross && r.chance(1, 3) && checkpoint_running(s, lastq) && lastq > s.last + 1) { request(s, r.chance(1, 4) ? r.range(1, s.last) : r.range(s.last, std::min(lastq, s.target) - 1)); cross--; vh::count("requests_crossing_a_checkpoint"); }
        if (left && r.chance(1, gap)) { unsigned k = 1 + r.below(4); while (k-- && left) { request(s, pick_req(r, s)); left--; } if (r.chance(1, 20)) request(s, s.target + r.range(1, IV) * (r.chance(1, 2) ? 1 : 1000000007)); if (r.chance(1, 30)) request(s, UINT64_MAX - r.below(1000)); }
        if (badness && r.chance(1, badness)) {
            uint64_t t = std::min(s.pos + r.range(1, 2 * IV), s.target); Form f = s.d.at(t); Z a = f.a, b = f.b; const char* k;
            switch (r.below(8)) {
                case 0: a = 0; k = "zero"; break;
                case 1: a = -a; k = "negative"; break;
                case 2: a = -a; b = -b; k = "negative"; break;
                case 3: b += 1; k = "parity"; break;
                case 4: { mpz_combit(a.get_mpz_t(), r.below(ref::nbits(a) + 3)); k = "flipped"; break; }
                case 5: { mpz_combit(b.get_mpz_t(), r.below(ref::nbits(b) + 1)); k = "flipped"; break; }
                case 6: a *= r.range(2, 9); k = "multiple"; break;
                default: { Bytes x = r.bytes(8), y = r.bytes(8); a = ref::from_be(x.data(), 8); b = ref::from_be(y.data(), 8); k = "random"; } break;
            }
            if (form_ok(a, b, D)) { if (r.chance(1, 2) || t > s.target) continue; uint64_t over = s.target + IV + r.below(1000000); feed(s, r, over - s.off, f.a, f.b, -1, "past_target"); continue; }
            uint64_t rel = t - s.off; if (s.off + rel == s.last) continue;
            feed(s, r, rel, a, b, -1, k); continue;
        }
        uint64_t step; int st = r.chance(1, 6) ? (int)r.below(6) : dense ? 0 : style;
        switch (st) { case 0: step = IV - s.pos % IV; break; case 1: step = r.range(1, 3 * IV); break; case 2: step = r.range(1, 12 * IV); break; case 3: step = IV * r.range(1, 5) - (s.pos + r.below(3)) % IV; break; case 4: step = r.below(3); break; default: step = r.range(1, 40 * IV); }
        uint64_t t = s.pos + step; if (t > s.target) t = r.chance(1, 4) ? std::min(t, s.target + IV - 1) : s.target;      // the device may run a little over
        uint64_t rel = t - s.off; if (!dense || !step) { if (rel == 0 || t == s.last) { s.pos = t; if (++idle > 40) continue; unsigned k = r.chance(1, 6) ? 12 : 1; Form f = s.d.at(t); while (k-- && !s.dead && s.pos == t) { uint64_t o = s.off; feed(s, r, rel, f.a, f.b, 1, "repeated"); if (s.off != o || s.v->n_skipped == 0) break; } continue; } }
        else if (rel == 0 || t == s.last) { s.pos = t; Form f = s.d.at(t); feed(s, r, rel, f.a, f.b, 1, "repeated"); continue; }
        s.pos = t; Form f = s.d.at(t); Z a = f.a, b = f.b;
        if (r.chance(1, 3)) b += 2 * a * Z((long)r.range(0, 40) - 20);                       // same class, other representative of b
        else if (r.chance(1, 10)) { Z k = (long)r.range(1, 5), c = (b * b - D) / (4 * a); a = a * k * k + b * k + c; b = -(b + 2 * (Z)( (f.a) * k)); b = ref::fmod_(b, 2 * a); if (!form_ok(a, b, D)) { a = f.a; b = f.b; } else { Form u{a, b, (b * b - D) / (4 * a)}; if (!(ref::reduce(u) == f)) { b = ref::fmod_(-b, 2 * a); Form w{a, b, (b * b - D) / (4 * a)}; if (!(ref::reduce(w) == f)) { a = f.a; b = f.b; } } } if (a != f.a) vh::count("samples_unreduced"); }
        feed(s, r, rel, a, b, 0, t % IV ? "between" : "on_interval"); collect(s);
        if (r.chance(1, 40)) usleep(r.below(3000));
    }
    if (s.dead) return;
    if (s.v->completed != (s.last >= s.target)) s.bad("completion", "last=" + std::to_string(s.last));
    while (left--) request(s, pick_req(r, s));
}
static size_t due(const Sess& s) { size_t n = 0; for (uint64_t t : s.open) n += t <= s.last; return n; }
static void drain(Sess& s) {
    double t0 = now(), act = t0; unsigned quiet = 0; unsigned seen = s.answered;
    while (!s.dead && due(s)) {
        collect(s); usleep(500);
        if (s.answered != seen) { seen = s.answered; act = now(); quiet = 0; }
        quiet = s.v->aux_threads_busy ? 0 : quiet + 1;
        if (quiet > 200) { std::string l; for (uint64_t t : s.open) if (t <= s.last) l += " " + std::to_string(t); return s.bad("request_unanswered", "no thread is working, last value " + std::to_string(s.last) + ", waiting for" + l.substr(0, 400)); }
        if (now() - act > 150) return s.bad("engine_stuck", "busy=" + std::to_string((uint64_t)s.v->aux_threads_busy) + " for 150 s");
    }
    if (!s.dead) for (uint64_t t : s.open) if (t > s.last) vh::count("requests_not_reached");
}
static void run_case(long long i, Rng& r, const vh::Opts& o, bool longrun) {
    unsigned maxbits = (unsigned)o.num("bits", 40); uint64_t maxT = (uint64_t)o.num("maxt", longrun ? 9000000 : 260000);
    vdf_state* v = new vdf_state; v->init_done = false; v->idx = 0; unsigned sessions = longrun ? 1 : 1 + (unsigned)r.below(3);
    for (unsigned k = 0; k < sessions; k++) {
        Sess s; s.v = v; s.d.G = mkgrp(r, (unsigned)r.range(24, maxbits), false, true); s.d.x = r.chance(1, 3) ? s.d.G.g : s.d.G.gpow(Z((unsigned long)r.next()));
        uint64_t T = longrun ? r.range(1000001, maxT) : r.chance(1, 5) ? r.range(1, 3 * IV) : r.range(IV, maxT); s.target = (T + IV - 1) / IV * IV;
        vdf_proof_opts po; po.max_aux_threads = (uint8_t)r.range(2, r.chance(1, 3) ? 16 : 5); po.max_proof_threads = r.chance(1, 2) ? 0 : (uint8_t)r.range(1, po.max_aux_threads - 1);
        s.desc = "case " + std::to_string(i) + "/" + std::to_string(k) + " D=" + s.d.G.D.get_str(10) + " target=" + std::to_string(s.target) + " threads=" + std::to_string(po.max_aux_threads) + "/" + std::to_string(po.max_proof_threads);
        vh::at("case", s.desc); Bytes xf = enc(s.d.x, s.d.G.D);
        if (r.chance(1, 6)) {       // something that can't be a session is refused first
            Bytes z = xf; std::string ds = s.d.G.D.get_str(10); int kind = (int)r.below(5);
            if (kind == 0) ds = ds.substr(1); else if (kind == 1) ds = Z(s.d.G.D - 2).get_str(10); else if (kind == 2) ds = "-0x12g"; else if (kind == 3) { Z comp = -(Z(1) << 1030) - 7; ds = comp.get_str(10); } else { z[0] = 0; for (size_t q = 1; q < z.size(); q++) z[q] = 0xff; }
            (void)init_vdf_state(v, &po, ds.c_str(), z.data(), T, 0); vh::count("sessions_refused");
            if (v->init_done) { s.bad("bad_session_accepted", ds + " " + ref::hex(z)); _exit(vh::finish()); }
        }
        std::string ds = r.chance(1, 2) ? s.d.G.D.get_str(10) : "-0x" + Z(-s.d.G.D).get_str(16);
        (void)init_vdf_state(v, &po, ds.c_str(), xf.data(), T, 0); if (!v->init_done) { s.bad("session_refused", ""); _exit(vh::finish()); }
        init_vdf_value(&s.val); bool cut = r.chance(1, 3), quit = !longrun && r.chance(1, 5);
        session(s, r, cut, longrun ? (r.chance(1, 2) ? 0 : 60) : r.pick(std::vector<unsigned>{0, 0, 4, 12, 40}), longrun ? r.chance(2, 3) : r.chance(1, 4), (unsigned)r.below(longrun ? 16 : 12));
        if (!quit) drain(s); else vh::count("sessions_cut_off");
        if (s.dead) _exit(vh::finish());
        hw_stop_proof(v); if (v->aux_threads_busy) s.bad("threads_left", "busy after stop");
        clear_vdf_state(v); clear_vdf_value(&s.val); vh::count("sessions"); if (v->init_done) s.bad("still_open", "");
    }
    delete v;
}
int main(int argc, char** argv) {
    VdfBaseInit(); vh::Opts o = vh::parse(argc, argv); vh::R();
    if (o.mode == "short") vh::cases(o, 2001, o.cases, [&](long long i, Rng& r) { run_case(i, r, o, false); });
    else if (o.mode == "long") vh::cases(o, 2002, o.cases, [&](long long i, Rng& r) { run_case(i, r, o, true); });
    else vh::harness_error("mode");
    vh::count("sleeps", (long long)n_sleeps.load()); return vh::finish();
}
