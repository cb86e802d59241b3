// L26: rules with a lazy repetition, against the shortest match the lazy part allows
#include "regex.hpp"
template<class CT> static void one() {
    using L = Lex<char, CT>; using U = typename Gen<CT>::U; Gen<CT> g; g.alpha = {'a', 'b', 'c'}; if (chance(30)) g.alpha.push_back('0'); g.posix = false; g.dup = 0; static const char* ops[] = {"?", "*", "+", "{2}", "{1,3}", "{2,}", "{0,2}"}; static const uint64_t lo[] = {0, 0, 1, 2, 1, 2, 0}, hi[] = {1, 0, 0, 2, 3, 0, 2}; static const bool inf[] = {false, true, true, false, false, true, false};
    auto leaf = [&] { ReP r; do r = g.leaf(); while (!r->in('a') && !r->in('b') && !r->in('c') && !r->in('0')); return r; }; auto cat = [](std::vector<ReP> v) { auto r = std::make_shared<Re>(); r->k = Re::CAT; for (auto& e : v) { r->t += e->t; r->c.push_back(e); } return r; };
    auto rep = [&](ReP a, int o, bool lazy) { auto r = std::make_shared<Re>(); r->k = Re::REP; r->t = (a->k == Re::SET ? a->t : "(" + a->t + ")") + ops[o] + (lazy ? "?" : ""); r->c = {a}; r->n = lo[o]; r->m = hi[o]; r->inf = inf[o]; return r; };
    std::vector<ReP> p, q; int np = (int)rnd(3), nq = (int)rnd(3); for (int i = 0; i < np; ++i) p.push_back(leaf()); for (int i = 0; i < nq; ++i) q.push_back(leaf()); ReP body = chance(60) ? leaf() : ReP(cat({leaf(), leaf()})); { std::vector<const Re*> bs; std::function<void(const Re*)> w = [&](const Re* x) { if (x->k == Re::SET) bs.push_back(x); for (auto& c : x->c) w(c.get()); }; w(body.get()); std::vector<ReP> keep; for (auto& e : q) { bool ov = false; for (uint32_t c = 0; c < 256; ++c) for (auto* b : bs) if (e->in(c) && b->in(c)) ov = true; if (!ov) keep.push_back(e); } q = keep; } int o = (int)rnd(7); std::vector<ReP> all = p; all.push_back(rep(body, o, true)); for (auto& e : q) all.push_back(e); ReP lazy = cat(all); if (nullable(lazy.get())) return;
    // other, greedy rules
    std::vector<ReP> rs; int n = (int)rnd(3), at = (int)rnd(n + 1); std::string ds = "char size " + std::to_string(sizeof(CT)); for (int i = 0; i <= n; ++i) { if (i == at) rs.push_back(lazy); else { ReP e; g.dup = 40; do e = g.gen(2); while (nullable(e.get()) || leaves(e.get()) > 8); g.dup = 0; rs.push_back(e); } ds += " rule " + std::to_string(i + 1) + " " + rs.back()->t; }
    typename L::rules r; typename L::sm sm; cur(ds); try { for (size_t i = 0; i < rs.size(); ++i) r.push(rs[i]->t, (uint16_t)(i + 1)); L::gen::build(r, sm); } catch (const std::exception& e) { eval(ds, false); if (std::string(e.what()).find("cannot be matched") == std::string::npos) fail("rejected", ds + " is rejected: " + e.what()); return; }
    for (int k = 0; k < 12; ++k) {
        std::vector<U> t; produce<CT>(g, rs[rnd(rs.size())].get(), t); if (chance(80)) produce<CT>(g, rs[rnd(rs.size())].get(), t); if (chance(30)) t = text<CT>(g, rnd(12)); if (t.empty()) continue; std::basic_string<CT> in(t.begin(), t.end()); lexertl::match_results<typename std::basic_string<CT>::const_iterator> x(in.cbegin(), in.cend()); Ref<U> ref(t);
        size_t best = 0; int id = -1; for (size_t i = 0; i < rs.size(); ++i) { auto& e = ref.ends(rs[i].get(), 0); if (e.empty()) continue; size_t m = 0; if ((int)i == at) { for (size_t v : e) if (v > 0) { m = v; break; } } else m = *e.rbegin(); if (m > best) { best = m; id = (int)i; } }
        lexertl::lookup(sm, x); size_t s = x.second - in.cbegin(); std::string got = x.id == x.npos() ? "no match" : "rule " + std::to_string(x.id) + " length " + std::to_string(s), want = id < 0 ? "no match" : "rule " + std::to_string(id + 1) + " length " + std::to_string(best); eval(ds + showt(t), id == at);
        if (got != want) { fail(n ? "mixed" : "single", ds + " text \"" + showt(t) + "\": " + got + ", expected " + want); return; } if (id == at) sample(ds + " text \"" + showt(t) + "\"");
    }
}
int main(int argc, char** argv) { init(argc, argv); while (timeleft() && !toomany()) { if (chance(70)) one<char>(); else one<char32_t>(); } return finish(); }
