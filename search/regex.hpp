// random regular expressions with their own meaning, built and run by the library
#pragma once
#include "common.hpp"
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
using namespace vp;
using iset = std::vector<std::pair<uint32_t, uint32_t>>;   // union of closed ranges
inline bool has(const iset& s, uint32_t c) { for (auto& p : s) if (c >= p.first && c <= p.second) return true; return false; }
struct Re; using ReP = std::shared_ptr<Re>;
struct Re { enum K { SET, CAT, ALT, REP, EMPTY, SUB } k = SET; std::string t; std::function<bool(uint32_t)> in; std::vector<ReP> c; uint64_t n = 1, m = 1; bool inf = false; };
template<class CT> struct Gen {
    using U = std::conditional_t<sizeof(CT) == 1, uint8_t, std::conditional_t<sizeof(CT) == 2, uint16_t, uint32_t>>;
    static constexpr uint32_t MX = sizeof(CT) == 1 ? 255 : sizeof(CT) == 2 ? 65535 : 0x10ffff;
    std::vector<uint32_t> alpha;   // interesting characters
    bool icase = false, posix = true; int depth = 3, maxrep = 4, dup = 35; size_t flags = *lexertl::regex_flags::dot_not_newline;
    static std::string hex(uint32_t c) { char b[16]; snprintf(b, 16, "\\x%x", c); return b; }
    // one character as text; in a class or outside
    static std::string lit(uint32_t c, bool cls, bool last) { if (c < 128 && isalnum((int)c)) return std::string(1, (char)c); if (c < 128 && c > 32 && chance(50)) return std::string("\\") + (char)c; if (c == '\n') return "\\n"; if (!last || chance(0)) { if (sizeof(CT) == 1) { char b[8]; snprintf(b, 8, "\\%03o", c); return b; } } return hex(c); }
    uint32_t anych() { return alpha[rnd(alpha.size())]; }
    static uint32_t fold1(uint32_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c; }
    ReP set(const std::string& t, std::function<bool(uint32_t)> f) { auto r = std::make_shared<Re>(); r->k = Re::SET; r->t = t; if (icase) r->in = [f](uint32_t c) { return f(c) || f(fold1(c)); }; else r->in = f; return r; }
    ReP leaf() {
        int k = (int)rnd(10);
        if (k < 5) { uint32_t c = anych(); std::string t = c < 128 && isalnum((int)c) ? std::string(1, (char)c) : c < 128 && c > 32 ? std::string("\\") + (char)c : "[" + hex(c) + "]"; return set(t, [c](uint32_t x) { return x == c; }); }
        if (k < 6) { bool dn = flags & *lexertl::regex_flags::dot_not_newline, dc = flags & *lexertl::regex_flags::dot_not_cr_lf; return set(".", [dn, dc](uint32_t x) { return !((dn || dc) && x == '\n') && !(dc && x == '\r'); }); }
        if (k < 7 && posix) { static const char* n[] = {"\\d", "\\D", "\\w", "\\W", "\\s", "\\S"}; int i = (int)rnd(6); auto f = [i](uint32_t x) { bool d = x >= '0' && x <= '9'; bool w = d || x == '_' || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); bool s = x == ' ' || (x >= 9 && x <= 13); bool v = i < 2 ? d : i < 4 ? w : s; return (i & 1) ? !v : v; }; auto r = std::make_shared<Re>(); bool ic = icase; r->t = n[i]; r->in = [f, ic](uint32_t x) { return f(x) || (ic && f(fold1(x))); }; return r; }
        iset s; std::string t = "["; bool neg = chance(30); if (neg) t += '^'; int n = 1 + (int)rnd(3);
        for (int i = 0; i < n; ++i) { uint32_t a = anych(), b = chance(50) ? a : anych(); if (a > b) std::swap(a, b); s.push_back({a, b}); t += "" + hex(a); if (a != b) t += "-" + hex(b); }
        t += ']'; bool ic = icase; auto r = std::make_shared<Re>(); r->t = t; r->in = [s, neg, ic](uint32_t x) { bool v = has(s, x) || (ic && has(s, fold1(x))); return v != neg; };
        if (neg) { bool all = false; uint32_t cov = 0; iset q = s; std::sort(q.begin(), q.end()); for (auto& p : q) if (p.first <= cov) cov = std::max(cov, p.second + 1); all = cov > MX; if (all) return leaf(); }
        return r;
    }
    ReP gen(int d) {
        if (d == 0 || chance(25)) return leaf();
        auto r = std::make_shared<Re>(); int k = (int)rnd(100);
        if (k < dup) { r->k = Re::REP; auto a = gen(d - 1); bool par = a->k != Re::SET || chance(20); std::string t = par ? "(" + a->t + ")" : a->t; r->c = {a}; int q = (int)rnd(6);
            if (q == 0) { r->n = 0; r->m = 1; t += '?'; } else if (q == 1) { r->n = 0; r->inf = true; t += '*'; } else if (q == 2) { r->n = 1; r->inf = true; t += '+'; }
            else { r->n = rnd(maxrep + 1); r->m = r->n + rnd(maxrep); r->inf = chance(30); if (!r->inf && r->m == 0) r->m = 1; t += "{" + std::to_string(r->n); if (r->inf) t += ","; else if (r->m != r->n || chance(30)) t += "," + std::to_string(r->m); t += "}"; }
            r->t = t; return r; }
        bool alt = k > 75; r->k = alt ? Re::ALT : Re::CAT; int n = 2 + (int)rnd(2);
        for (int i = 0; i < n; ++i) { auto a = gen(d - 1); std::string t = a->t; if ((!alt && a->k == Re::ALT) || chance(8)) t = "(" + t + ")"; if (i && alt) r->t += '|'; r->t += t; r->c.push_back(a); }
        return r;
    }
};
// end positions of matches starting at p
template<class U> struct Ref {
    const std::vector<U>& s; std::map<std::pair<const Re*, size_t>, std::set<size_t>> memo; Ref(const std::vector<U>& s_) : s(s_) {}
    const std::set<size_t>& ends(const Re* r, size_t p) {
        auto k = std::make_pair(r, p); auto it = memo.find(k); if (it != memo.end()) return it->second; std::set<size_t> o;
        switch (r->k) {
        case Re::SET: if (p < s.size() && r->in((uint32_t)s[p])) o.insert(p + 1); break;
        case Re::EMPTY: o.insert(p); break;
        case Re::CAT: { o.insert(p); for (auto& c : r->c) { std::set<size_t> n; for (size_t q : o) { auto& e = ends(c.get(), q); n.insert(e.begin(), e.end()); } o = n; } break; }
        case Re::ALT: for (auto& c : r->c) { auto& e = ends(c.get(), p); o.insert(e.begin(), e.end()); } break;
        default: { std::set<size_t> cur{p}; uint64_t i = 0; const Re* b = r->c[0].get();
            auto step = [&] { std::set<size_t> n; for (size_t q : cur) { auto& e = ends(b, q); n.insert(e.begin(), e.end()); } return n; };
            for (; i < r->n; ++i) { auto n = step(); if (n == cur && i > s.size()) break; cur = n; if (cur.empty()) break; }
            o = cur; if (r->inf) { for (;;) { cur = step(); size_t b4 = o.size(); o.insert(cur.begin(), cur.end()); if (o.size() == b4) break; } }
            else for (; i < r->m && !cur.empty(); ++i) { cur = step(); o.insert(cur.begin(), cur.end()); } break; }
        }
        return memo[k] = o;
    }
};
inline bool nullable(const Re* r) { switch (r->k) { case Re::SET: return false; case Re::EMPTY: return true; case Re::CAT: for (auto& c : r->c) if (!nullable(c.get())) return false; return true; case Re::ALT: for (auto& c : r->c) if (nullable(c.get())) return true; return false; default: return r->n == 0 || nullable(r->c[0].get()); } }
inline uint64_t leaves(const Re* r) { uint64_t n = r->k == Re::SET; for (auto& c : r->c) n += leaves(c.get()); if (r->k == Re::REP) n *= r->inf ? r->n + 1 : std::max(r->n, r->m); return n; }
// characters that single out the sets of an expression
template<class CT> std::vector<typename Gen<CT>::U> text(Gen<CT>& g, size_t n) { std::vector<typename Gen<CT>::U> o; for (size_t i = 0; i < n; ++i) { uint32_t c = g.anych(); if (chance(15)) c = c + (chance(50) ? 1 : -1); if (c > g.MX) c = g.MX; if (chance(4)) c = (uint32_t)rnd((uint64_t)g.MX + 1); o.push_back((typename Gen<CT>::U)c); } return o; }
// a text built to match r, sometimes
template<class CT> void produce(Gen<CT>& g, const Re* r, std::vector<typename Gen<CT>::U>& o) {
    if (o.size() > 60) return;
    switch (r->k) { case Re::SET: for (int i = 0; i < 60; ++i) { uint32_t c = i < 40 ? g.anych() : (uint32_t)rnd((uint64_t)g.MX + 1); if (r->in(c)) { o.push_back((typename Gen<CT>::U)c); return; } } return; case Re::CAT: for (auto& c : r->c) produce(g, c.get(), o); return; case Re::ALT: produce(g, r->c[rnd(r->c.size())].get(), o); return;
    case Re::REP: { uint64_t n = r->n + (r->inf ? rnd(4) : rnd(r->m - r->n + 1)); if (chance(15) && n) --n; else if (chance(15)) ++n; for (uint64_t i = 0; i < n; ++i) produce(g, r->c[0].get(), o); return; } default: return; }
}
template<class U> std::string showt(const std::vector<U>& v) { std::string o; char b[16]; for (U c : v) { if (c > 32 && c < 127 && c != '\\') o += (char)c; else { snprintf(b, 16, "\\x{%x}", (unsigned)c); o += b; } } return o; }
// run one rule set over one text; returns false on a difference
template<class CT, class SM> bool compare(const SM& sm, const std::vector<ReP>& rs, const std::vector<typename Gen<CT>::U>& t, const std::string& ds, const char* key) {
    std::basic_string<CT> in(t.begin(), t.end()); lexertl::match_results<typename std::basic_string<CT>::const_iterator, typename SM::id_type> x(in.cbegin(), in.cend()); Ref<typename Gen<CT>::U> ref(t); size_t p = 0; bool nt = false;
    for (int guard = 0; guard < 200; ++guard) {
        size_t best = p; int id = -1; if (p < t.size()) for (size_t i = 0; i < rs.size(); ++i) { auto& e = ref.ends(rs[i].get(), p); if (!e.empty() && *e.rbegin() > best) { best = *e.rbegin(); id = (int)i; } }
        lexertl::lookup(sm, x); size_t f = x.first - in.cbegin(), s = x.second - in.cbegin();
        std::string got, want; if (p >= t.size()) { want = "end"; } else if (id < 0) want = "no match 1"; else { want = "rule " + std::to_string(id + 1) + " length " + std::to_string(best - p); nt = true; }
        if (x.id == 0 && f == t.size()) got = "end"; else if (x.id == SM::npos()) got = "no match " + std::to_string(s - f); else got = "rule " + std::to_string((unsigned)x.id) + " length " + std::to_string(s - f);
        if (got != want || (want != "end" && f != p)) { eval(ds + showt(t), true); fail(key, ds + " text \"" + showt(t) + "\" at " + std::to_string(p) + ": " + got + ", expected " + want); return false; }
        if (want == "end") break; p = id < 0 ? p + 1 : best;
    }
    eval(ds + showt(t), nt); if (nt) sample(ds + " text \"" + showt(t) + "\""); return true;
}
template<class RC, class CT, class ID = uint16_t> struct Lex {
    using rules = lexertl::basic_rules<RC, CT, ID>; using sm = lexertl::basic_state_machine<CT, ID>; using gen = lexertl::basic_generator<rules, sm>;
};
