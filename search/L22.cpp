// L22: small id types at their limits, against the same rules with a 32 bit id type
#include "regex.hpp"
using R8 = lexertl::basic_rules<char, char, uint8_t>; using S8 = lexertl::basic_state_machine<char, uint8_t>; using R32 = lexertl::basic_rules<char, char, uint32_t>; using S32 = lexertl::basic_state_machine<char, uint32_t>;
template<class R> static void fill(R& r, const std::vector<std::string>& st, const std::vector<std::array<std::string, 3>>& tx, const std::vector<int>& ids) { for (auto& s : st) r.push_state(s.c_str()); for (size_t i = 0; i < tx.size(); ++i) r.push(tx[i][0].c_str(), tx[i][1], (typename R::id_type)ids[i], tx[i][2].c_str()); }
static std::string h2(int c) { char b[8]; snprintf(b, 8, "\\x%02x", c); return b; }
static void one() {
    std::vector<std::string> st; std::vector<std::array<std::string, 3>> tx; std::vector<int> ids; std::string ds; int k = (int)rnd(5); auto rule = [&](const std::string& s, const std::string& t, const std::string& n) { tx.push_back({s, t, n}); ids.push_back(1 + (int)rnd(250)); };
    int N = chance(70) ? 236 + (int)rnd(24) : chance(50) ? (int)rnd(236) + 1 : 250 + (int)rnd(300);
    if (k == 0) { ds = "states: a{" + std::to_string(N) + "}"; rule("INITIAL", "a{" + std::to_string(N) + "}b?", "."); if (chance(50)) { rule("INITIAL", "c", "."); } }
    else if (k == 1) { int M = std::min(N, 256); ds = "classes: " + std::to_string(M) + " single characters"; bool d = chance(20); std::string x; for (int i = 0; i < M; ++i) { if (i) x += '|'; x += "[" + h2(i) + "]" + (chance(10) ? "z" : ""); if (chance(20)) { rule("INITIAL", x, "."); x = ""; i = i; if (i + 1 < M) { ++i; x = "[" + h2(i) + "]"; } } } if (!x.empty()) rule("INITIAL", x, "."); if (d) { ds += " and $"; rule("INITIAL", "zz$", "."); } }
    else if (k == 2) { ds = "start states: " + std::to_string(N); for (int i = 1; i < N; ++i) st.push_back("S" + std::to_string(i)); rule("INITIAL", "a", N > 1 ? "S" + std::to_string(N - 1) : "."); for (int i = 1; i < N; ++i) rule("S" + std::to_string(i), chance(50) ? "a" : "b", chance(30) ? "S" + std::to_string(1 + rnd(N - 1)) : "."); }
    else if (k == 3) { int W = 20 + (int)rnd(60); ds = "words: " + std::to_string(W); std::set<std::string> seen; for (int i = 0; i < W; ++i) { std::string w; int l = 2 + (int)rnd(7); while (l--) w += "abcdef"[rnd(6)]; if (seen.insert(w).second) rule("INITIAL", w, "."); } }
    else { ds = "character sets: " + std::to_string(N); std::set<std::string> seen; std::string x; for (int i = 0; i < N; ++i) { int a = (int)rnd(256), b = (int)rnd(256); if (a > b) std::swap(a, b); std::string s = "[" + h2(a) + "-" + h2(b) + "]"; if (chance(50)) s = "[" + h2(a) + h2(b) + "]"; if (i) x += '|'; x += s; } rule("INITIAL", x, "."); }
    cur(ds); bool t8 = false, t32 = false; S8 a; S32 b; std::string w8; R8 r8; bool p8 = true;
    try { R32 r; fill(r, st, tx, ids); lexertl::basic_generator<R32, S32>::build(r, b); } catch (const lexertl::runtime_error&) { t32 = true; }
    try { fill(r8, st, tx, ids); } catch (const lexertl::runtime_error& e) { p8 = false; w8 = e.what(); }
    // a failed push_state must not make a later build wrap either
    if (!p8) { for (size_t i = 0; i < tx.size(); ++i) { try { r8.push(tx[i][0].c_str(), tx[i][1], (uint8_t)ids[i], "."); } catch (const lexertl::runtime_error&) {} } }
    try { lexertl::basic_generator<R8, S8>::build(r8, a); } catch (const lexertl::runtime_error& e) { t8 = true; w8 = e.what(); }
    eval(ds, true); sample(ds + (t8 ? " rejected: " + w8 : " built")); if (t8) { // rejection only when something does not fit
        bool fits = !t32 && p8; if (fits) { fits = b.data()._dfa.size() < 255 && tx.size() < 255; for (size_t d = 0; d < b.data()._dfa.size() && fits; ++d) { size_t A = b.data()._dfa_alphabet[d]; if (A > 255 || b.data()._dfa[d].size() / A >= 255) fits = false; } if (k == 4 || k == 1) fits = fits && N < 100; if (fits) fail("fits", ds + ": everything fits but the build is rejected: " + w8); } return; }
    if (!p8) { auto& x = a.data(); if (x._dfa.size() != r8.statemap().size()) fail("wrapped", ds + ": " + std::to_string(r8.statemap().size()) + " start states, but the machine has " + std::to_string(x._dfa.size())); return; }
    if (t32) return fail("accepted", ds + ": only the small id type accepts the rules"); auto& x = a.data(); auto& y = b.data(); if (x._dfa.size() != y._dfa.size()) return fail("wrapped", ds + ": number of start states " + std::to_string(x._dfa.size()));
    for (size_t d = 0; d < x._dfa.size(); ++d) {
        if (x._dfa_alphabet[d] != y._dfa_alphabet[d] || x._dfa[d].size() != y._dfa[d].size()) return fail("wrapped", ds + ": the tables differ in size"); auto f = [](uint8_t v) { return v == 255 ? 0xffffffffu : (uint32_t)v; };
        for (int c = 0; c < 256; ++c) if (x._lookup[d][c] != y._lookup[d][c]) return fail("wrapped", ds + ": the lookup entry of " + std::to_string(c) + " differs"); for (size_t i = 0; i < x._dfa[d].size(); ++i) if (f(x._dfa[d][i]) != y._dfa[d][i]) return fail("wrapped", ds + ": table entry " + std::to_string(i) + " differs");
    }
}
int main(int argc, char** argv) { init(argc, argv); hanglimit() = 90; while (timeleft() && !toomany()) one(); return finish(); }
