// C19: the C++ surface (verifier.h, prover_slow.h).
#include <iostream>
#include <sstream>
#include "verifier.h"
#include "prover_slow.h"
typedef std::vector<uint8_t> Bytes;
static Bytes unhex(const std::string& s) { Bytes b; if (s == "-") return b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)std::stoul(s.substr(i, 2), 0, 16)); return b; }
static std::string hex(const Bytes& b) { static const char* d = "0123456789abcdef"; std::string s; for (uint8_t c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
static std::string num(const integer& i) { char* c = mpz_get_str(nullptr, 16, i.impl); std::string s = c; free(c); return s; }
int main() {
    std::ios::sync_with_stdio(false); std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string op, a, b, c, d; uint64_t u = 0, v = 0; is >> op; std::string out;
        try {
            if (op == "create") { long long bits; is >> a >> bits; Bytes s = unhex(a); integer D = CreateDiscriminant(s, (int)bits); out = "ok:" + num(D); }
            else if (op == "prove") { long long bits; is >> a >> b >> bits >> u; Bytes s = unhex(a), x = unhex(b); integer D = CreateDiscriminant(s, (int)bits); form f = DeserializeForm(D, x.data(), x.size()); out = "ok:" + hex(ProveSlow(D, f, u, "")); }
            else if (op == "verify") { uint64_t bits; is >> a >> b >> c >> u >> v >> bits; Bytes x = unhex(b), p = unhex(c); out = CheckProofOfTimeNWesolowski(integer(a), x.data(), p.data(), p.size(), u, bits, v) ? "true" : "false"; }
            else if (op == "seeded") { uint64_t bits; is >> a >> b >> c >> u >> v >> bits; Bytes s = unhex(a), x = unhex(b), p = unhex(c); out = CreateDiscriminantAndCheckProofOfTimeNWesolowski(s, (uint32_t)bits, x.data(), p.data(), p.size(), u, v) ? "true" : "false"; }
            else if (op == "simple") { is >> a >> b >> c >> d >> u; integer D(a); Bytes xb = unhex(b), yb = unhex(c), pb = unhex(d); form x = DeserializeForm(D, xb.data(), xb.size()), y = DeserializeForm(D, yb.data(), yb.size()), p = DeserializeForm(D, pb.data(), pb.size()); bool ok = false; VerifyWesolowskiProof(D, x, y, p, u, ok); out = ok ? "true" : "false"; }
            else if (op == "withb") { is >> a >> d >> b >> c >> u >> v; Bytes x = unhex(b), p = unhex(c); auto r = CheckProofOfTimeNWesolowskiWithB(integer(a), integer(d), x.data(), p.data(), p.size(), u, v); out = std::string(r.first ? "true:" : "false:") + hex(r.second); }
            else if (op == "getb") { is >> a >> b >> c >> u >> v; Bytes x = unhex(b), p = unhex(c); out = "ok:" + num(GetBFromProof(integer(a), x.data(), p.data(), p.size(), u, v)); }
            else if (op == "form") { is >> a >> b >> u; Bytes x = unhex(b); form f = DeserializeForm(integer(a), x.data(), x.size(), u != 0); out = "ok:" + num(f.a) + ":" + num(f.b); }
            else out = "?";
        } catch (const std::invalid_argument&) { out = "raise:ValueError"; } catch (const std::bad_alloc&) { out = "raise:MemoryError"; } catch (const std::runtime_error&) { out = "raise:RuntimeError"; } catch (const std::exception&) { out = "raise:other"; }
        std::cout << out << "\n" << std::flush;
    }
}
