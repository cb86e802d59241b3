// L05: classes over wide characters: every character near every boundary is accepted exactly when it is in the class, and wrong bytes never join up
#include "regex.hpp"
template<class CT> static uint32_t edge() {
    const uint32_t M = sizeof(CT) == 2 ? 0xffff : 0x10ffff; uint32_t c = 0;
    switch (rnd(6)) { case 0: c = (uint32_t)rnd(M + 1); break; case 1: c = (uint32_t)rnd((M >> 8) + 1) << 8; break; case 2: c = (uint32_t)rnd((M >> 16) + 1) << 16; break; case 3: c = (uint32_t)(rnd(4) << 8); break; case 4: c = M - (uint32_t)rnd(600); break; default: c = (uint32_t)rnd(0x300); }
    int64_t r = (int64_t)c + rint(-2, 2); if (r < 0) r = 0; if (r > M) r = M; return (uint32_t)r;
}
template<class CT> static void one() {
    using R = lexertl::basic_rules<char, CT>; using SM = lexertl::basic_state_machine<CT>; const uint32_t M = sizeof(CT) == 2 ? 0xffff : 0x10ffff;
    std::vector<std::vector<std::pair<uint32_t, uint32_t>>> cls; std::string re; bool neg[2]; size_t nc = 1 + rnd(2); char b[40]; std::vector<uint32_t> probes{0, 1, 0xff, 0x100, M, M - 1, 0xffff, 0xfeff, 0xff00};
    for (size_t i = 0; i < nc; ++i) {
        cls.emplace_back(); neg[i] = chance(25); re += neg[i] ? "[^" : "["; int n = 1 + (int)rnd(3);
        for (int k = 0; k < n; ++k) {
            uint32_t a = edge<CT>(), z = chance(40) ? (uint32_t)std::min<uint64_t>(M, (uint64_t)a + rnd(chance(50) ? 0x300 : 0x20300)) : edge<CT>(); if (a > z) std::swap(a, z); cls[i].emplace_back(a, z); snprintf(b, sizeof b, "\\x%x-\\x%x", a, z); re += b;
            for (uint32_t p : {a, z}) for (int64_t d : {-0x10000, -0x100, -1, 0, 1, 0x100, 0x10000}) { int64_t q = (int64_t)p + d; if (q >= 0 && q <= M) probes.push_back((uint32_t)q); }
            for (uint32_t h : {a & ~0xffu, z & ~0xffu, a | 0xff, z | 0xff, (a & ~0xffu) | (z & 0xff), (z & ~0xffu) | (a & 0xff), (a & 0xff00ffu) | (z & 0xff00), (z & 0xff00ffu) | (a & 0xff00)}) { if (h <= M) probes.push_back(h); if (h < M) probes.push_back(h + 1); if (h && h <= M) probes.push_back(h - 1); }
            probes.push_back(a + (uint32_t)rnd(z - a + 1));
        }
        re += "]";
    }
    std::string ds = "char" + std::to_string(8 * sizeof(CT)) + "_t rule " + re; cur(ds); R r; SM sm; auto in = [&](size_t i, uint32_t c) { bool x = false; for (auto& p : cls[i]) x = x || (c >= p.first && c <= p.second); return x != neg[i]; };
    try { r.push(re, 1); lexertl::basic_generator<R, SM>::build(r, sm); if (chance(30)) sm.minimise(); }
    catch (const lexertl::runtime_error& e) { eval(ds, false); if (std::string(e.what()).find("mpty charset") != std::string::npos) return; return fail("build", ds + ": " + e.what()); }
    eval(ds); if (rnd(50) == 0) sample(ds); using It = typename std::basic_string<CT>::const_iterator;
    for (uint32_t c : probes) {
        std::basic_string<CT> t(1, (CT)c); uint32_t c2 = probes[rnd(probes.size())]; if (nc == 2) t += (CT)c2; bool want = in(0, c) && (nc == 1 || in(1, c2)); lexertl::match_results<It> m(t.cbegin(), t.cend()); lexertl::lookup(sm, m);
        bool got = m.id == 1 && m.second == t.cend();
        if (got != want) { snprintf(b, sizeof b, "U+%x", c); std::string w = b; if (nc == 2) { snprintf(b, sizeof b, " U+%x", c2); w += b; } return fail(want ? "not-matched" : "matched", ds + ": " + w + (want ? " is in the class and not matched" : " is not in the class and matched")); }
    }
}
int main(int argc, char** argv) { init(argc, argv); hanglimit() = 45; while (timeleft() && !toomany()) { if (chance(40)) one<char16_t>(); else one<char32_t>(); } return finish(); }
