// L25: case insensitive characters and classes against the simple case mapping
#include "regex.hpp"
struct Run { uint32_t a, b, step; int32_t d; }; static const Run runs[] = {
#include "casemap.inc"
};
static std::map<uint32_t, uint32_t> uni;   // the other form
template<class CT> static bool other(uint32_t c, uint32_t& o) { if (sizeof(CT) == 1) { if (c < 128 && isupper((int)c)) { o = c + 32; return true; } if (c < 128 && islower((int)c)) { o = c - 32; return true; } return false; } auto i = uni.find(c); if (i == uni.end()) return false; o = i->second; return sizeof(CT) == 4 || c < 0x10000; }
template<class CT> static void one() {
    using L = Lex<char, CT>; using G = Gen<CT>; static std::vector<uint32_t> cased; if (cased.empty()) for (auto& p : uni) if (p.first <= G::MX && (sizeof(CT) > 1 || p.first < 128)) cased.push_back(p.first);
    bool ic = chance(70), global = chance(50); iset s; std::string re, cl; int n = 1 + (int)rnd(3); bool neg = chance(20), single = chance(25); auto pick = [&] { uint32_t c = cased[rnd(cased.size())]; if (chance(15)) c = (uint32_t)rnd(G::MX + 1); else if (chance(20)) c += chance(50) ? 1 : -1; else if (chance(20)) c = 'A' + (uint32_t)rnd(58); return c > G::MX ? G::MX : c; };
    if (single) { uint32_t c = pick(); s.push_back({c, c}); re = c < 128 && isalnum((int)c) && chance(50) ? std::string(1, (char)c) : chance(50) && c < 128 && c > 32 && c != '"' && c != '\\' ? "\"" + std::string(1, (char)c) + "\"" : G::hex(c); neg = false; }
    else { for (int i = 0; i < n; ++i) { uint32_t a = pick(), b = chance(40) ? a : chance(60) ? (uint32_t)std::min<uint64_t>(G::MX, a + rnd(30)) : pick(); if (a > b) std::swap(a, b); s.push_back({a, b}); cl += G::hex(a); if (a != b) cl += "-" + G::hex(b); } re = std::string("[") + (neg ? "^" : "") + cl + "]"; }
    std::string core = re; if (!global) { re = std::string(ic ? "(?i:" : "(?-i:") + re + ")"; } else if (chance(30)) { re = std::string(ic ? "(?i:" : "(?-i:") + re + ")"; }
    std::string ds = "char size " + std::to_string(sizeof(CT)) + (global && ic ? " icase" : "") + " regex " + re; cur(ds); bool outer = global ? ic : !ic && chance(50); size_t fl = outer ? *lexertl::regex_flags::icase : 0; if (outer && !global) ds += " (icase set)";
    typename L::rules r(fl); typename L::sm sm; try { r.push(re, 1); L::gen::build(r, sm); } catch (const std::exception& e) { eval(ds, false); if (std::string(e.what()).find("Empty charset") == std::string::npos) fail("rejected", ds + " is rejected: " + e.what()); return; }
    auto want = [&](uint32_t c) { bool v = has(s, c); if (!v && ic) { for (auto& p : s) { // some x in the class whose other form is c
            uint32_t o; auto try_ = [&](uint32_t x) { if (x >= p.first && x <= p.second && other<CT>(x, o) && o == c) v = true; }; uint32_t q; if (other<CT>(c, q)) try_(q); if (sizeof(CT) > 1) { static std::multimap<uint32_t, uint32_t> inv; if (inv.empty()) for (auto& u : uni) inv.insert({u.second, u.first}); auto rg = inv.equal_range(c); for (auto i = rg.first; i != rg.second; ++i) try_(i->second); } } } return v != neg; };
    std::vector<uint32_t> t; if (sizeof(CT) == 1) for (int i = 0; i < 256; ++i) t.push_back(i); else { for (auto& p : s) { for (int k = -1; k < 2; ++k) { t.push_back(p.first + k); t.push_back(p.second + k); } for (int k = 0; k < 8; ++k) { uint32_t x = p.first + (uint32_t)rnd(p.second - p.first + 1), o; t.push_back(x); if (other<CT>(x, o)) { t.push_back(o); t.push_back(o + 1); t.push_back(o - 1); } } uint32_t o; for (uint32_t x : {p.first, p.second}) if (other<CT>(x, o)) { t.push_back(o); t.push_back(o - 1); t.push_back(o + 1); } } for (int k = 0; k < 10; ++k) t.push_back(pick()); t.push_back(0x130); t.push_back('i'); t.push_back(0x212a); t.push_back(0x17f); }
    eval(ds); if (ic) sample(ds); for (uint32_t c : t) { if (c > G::MX) continue; std::basic_string<CT> in(1, (CT)c); lexertl::match_results<typename std::basic_string<CT>::const_iterator> x(in.cbegin(), in.cend()); lexertl::lookup(sm, x); bool got = x.id == 1; if (got != want(c)) return fail(got ? "extra" : "missing", ds + (got ? " matches " : " does not match ") + G::hex(c)); }
}
int main(int argc, char** argv) { init(argc, argv); for (auto& r : runs) for (uint32_t c = r.a; c <= r.b; c += r.step) uni[c] = c + (uint32_t)r.d; while (timeleft() && !toomany()) { int k = (int)rnd(10); if (k < 3) one<char>(); else if (k < 6) one<char16_t>(); else one<char32_t>(); } return finish(); }
