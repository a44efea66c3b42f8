// Common harness plumbing: deterministic per-case RNG, case counting, violation and summary lines.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <mutex>
#include <atomic>
#include <unordered_set>
#include <functional>
#include <exception>
#include <unistd.h>
#ifdef VH_STORM
#include "storm.hpp"
#endif

namespace vh {
struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) { uint64_t x = a * 0x9e3779b97f4a7c15ull + b; x = sm(x) ^ (c * 0xd1342543de82ef95ull); for (auto& v : s) v = sm(x); }
    uint64_t next() { auto rl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }; uint64_t r = rl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45); return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }   // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); for (auto& x : v) x = (uint8_t)next(); return v; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Opts { uint64_t seed = 1; unsigned shard = 0, nshards = 1; long long cases = 0; long long only = -1; std::string mode; std::map<std::string, std::string> kv; 
    long long num(const std::string& k, long long d) const { auto i = kv.find(k); return i == kv.end() ? d : atoll(i->second.c_str()); }
    std::string str(const std::string& k, const std::string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; } };
inline Opts parse(int argc, char** argv) {
    Opts o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%u/%u", &o.shard, &o.nshards); }
        else if (a == "--cases") o.cases = atoll(val().c_str());
        else if (a == "--only") o.only = atoll(val().c_str());
        else if (a == "--mode") o.mode = val();
        else if (a.rfind("--", 0) == 0) { std::string k = a.substr(2); o.kv[k] = val(); }
    }
#ifdef VH_STORM
    if (o.num("storm", 0)) storm::start((unsigned)o.num("storm", 0), o.seed * 64 + o.shard);
#endif
    return o;
}

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
struct Report {
    std::mutex m;
    uint64_t evals = 0, viols = 0;
    std::map<std::string, long long> counters;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> seen;
    FILE* out;
    size_t max_samples = 4;
    Report() { int fd = dup(1); out = fdopen(fd, "w"); setvbuf(out, 0, _IOLBF, 0); }   // survives redirection of stdout
};
inline Report& R() { static Report r; return r; }
inline void count(const std::string& k, long long n = 1) { std::lock_guard<std::mutex> l(R().m); R().counters[k] += n; }
inline void maxi(const std::string& k, long long n) { std::lock_guard<std::mutex> l(R().m); auto& v = R().counters["max_" + k]; if (n > v) v = n; }
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }
// one evaluated case; nontrivial ones are counted distinct by their description/hash
inline void eval(uint64_t hash, bool nontrivial = true) { std::lock_guard<std::mutex> l(R().m); R().evals++; if (nontrivial) R().seen.insert(hash); }
inline void eval(const std::string& desc, bool nontrivial = true) { eval(fnv(desc), nontrivial); }
inline void sample(const std::string& s) { std::lock_guard<std::mutex> l(R().m); if (R().samples.size() < R().max_samples) R().samples.push_back(s); }
inline void viol(const std::string& key, const std::string& detail) {
    std::lock_guard<std::mutex> l(R().m);
    if (R().viols++ < 20) fprintf(R().out, "@VIOL {\"key\":%s,\"detail\":%s}\n", jstr(key).c_str(), jstr(detail.substr(0, 4000)).c_str()), fflush(R().out);
}
inline void inconclusive(const std::string& s) { std::lock_guard<std::mutex> l(R().m); fprintf(R().out, "@INC %s\n", s.c_str()); fflush(R().out); }
inline void at(const std::string& kind, const std::string& detail) { std::lock_guard<std::mutex> l(R().m); fprintf(R().out, "@AT %s %s\n", kind.c_str(), detail.substr(0, 6000).c_str()); fflush(R().out); }
inline void harness_error(const std::string& s) { fprintf(R().out, "@HARNESS %s\n", s.c_str()); fflush(R().out); _exit(97); }
inline int finish() {
#ifdef VH_STORM
    storm::finish(); count("signals_handled", storm::handled); count("signals_in_gcd_base", storm::in_base); count("signals_in_gcd_128", storm::in_128); count("signals_in_gcd_unsigned", storm::in_unsigned);
#endif
    std::lock_guard<std::mutex> l(R().m);
    std::string c, s;
    for (auto& k : R().counters) c += (c.empty() ? "" : ",") + jstr(k.first) + ":" + std::to_string(k.second);
    for (auto& k : R().samples) s += (s.empty() ? "" : ",") + jstr(k.substr(0, 1500));
    fprintf(R().out, "@SUM {\"evaluations\":%llu,\"distinct\":%llu,\"counters\":{%s},\"samples\":[%s]}\n", (unsigned long long)R().evals, (unsigned long long)R().seen.size(), c.c_str(), s.c_str());
    fflush(R().out);
    return 0;
}
// run fn(case index, rng) for this shard's cases
inline void cases(const Opts& o, uint64_t stream, long long n, const std::function<void(long long, Rng&)>& fn) {
    for (long long i = 0; i < n; i++) {
        if (o.only >= 0 ? i != o.only : (unsigned)(i % o.nshards) != o.shard) continue;
        Rng r(o.seed, stream, (uint64_t)i + 1);
        fn(i, r);
    }
}
}  // namespace vh
