// Line server around the reference implementation: makes session parameters and judges replies.
#include <iostream>
#include <sstream>
#include "grp.hpp"
static Bytes unhex(const std::string& s) { Bytes b; if (s == "-") return b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)std::stoul(s.substr(i, 2), 0, 16)); return b; }
int main() {
    std::ios::sync_with_stdio(false); std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string op; is >> op;
        if (op == "gen") {   // gen seed bits known_order -> D x order
            unsigned long long s; unsigned bits, known; is >> s >> bits >> known; Rng r(s, 77); Grp G = mkgrp(r, bits, r.chance(1, 2), known);
            std::cout << G.D.get_str(10) << " " << ref::hex(enc(G.g, G.D)) << " " << G.order.get_str(10) << "\n" << std::flush;
        } else if (op == "form") {   // form seed D -> canonical encoding of some element (any discriminant = 1 mod 4)
            unsigned long long s; std::string d; is >> s >> d; Rng r(s, 78); Z D(d); Form f = gen::rnd_form(r, D); std::cout << ref::hex(ref::ser(f, D)) << "\n" << std::flush;
        } else if (op == "judge") {   // judge D x order T depth blob
            std::string d, x, o, bl; uint64_t T, depth; is >> d >> x >> o >> T >> depth >> bl; Z D(d), ord(o); Bytes xb = unhex(x), b = unhex(bl); std::string res = "ok";
            xb.resize(100);
            Form f, y;
            if (b.size() < 200) res = "short";
            else if (!ref::decode(D, xb.data(), 100, false, f)) res = "judge:bad_x";
            else if (!ref::decode(D, b.data(), 100, false, y)) res = "undecodable_y";
            else if (ord != 0 && !(y == ref::pow(f, ref::pow2_mod(T, ord), D))) res = "wrong_output";
            else if (!ref::verify_n(D, xb.data(), b.data(), b.size(), T, depth)) res = "not_verified";
            std::cout << res << "\n" << std::flush;
        } else std::cout << "?\n" << std::flush;
    }
}
