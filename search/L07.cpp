// L07: the columns of the lookup table against the character classes of the rules
#include "regex.hpp"
static void sets(const Re* r, std::vector<const Re*>& o) { if (r->k == Re::SET) o.push_back(r); for (auto& c : r->c) sets(c.get(), o); }
static void one() {
    Gen<char> g; int na = 2 + (int)rnd(5); for (int i = 0; i < na; ++i) g.alpha.push_back(chance(50) ? "abcdAB01"[rnd(8)] : (uint32_t)rnd(256)); g.dup = 10; g.maxrep = 2; g.posix = chance(50); if (chance(20)) g.flags = 0; int ns = 1 + (int)rnd(2); static const char* nm[] = {"INITIAL", "AA"};
    std::string ds; lexertl::rules r(g.flags); lexertl::state_machine sm; if (ns > 1) r.push_state("AA"); std::vector<std::vector<const Re*>> used(ns); std::vector<ReP> keep; std::vector<bool> eol(ns, false); uint64_t total = 0; cur("gen");
    try { for (int s = 0; s < ns; ++s) { int n = 1 + (int)rnd(6); for (int i = 0; i < n; ++i) { ReP e; do e = g.gen(1 + (int)rnd(3)); while (nullable(e.get())); total += leaves(e.get()); if (total > 80) return; keep.push_back(e); sets(e.get(), used[s]); bool d = chance(10); std::string t = d ? "(" + e->t + ")$" : e->t; if (d) eol[s] = true; ds += std::string(" <") + nm[s] + "> " + t; cur(ds); r.push(nm[s], t, (uint16_t)(i + 1), "."); } } lexertl::generator::build(r, sm); } catch (const std::exception&) { eval(ds, false); return; }
    eval(ds); sample(ds); auto& in = sm.data();
    for (int s = 0; s < ns; ++s) {
        std::map<std::string, int> cls; std::map<int, std::string> col; if (in._lookup[s].size() != 256) return fail("size", ds + ": lookup table size");
        for (int c = 0; c < 256; ++c) { std::string k; bool any = false; for (auto* e : used[s]) { bool v = e->in((uint32_t)c); k += v ? '1' : '0'; any |= v; } if (eol[s]) { k += c == '\n' ? '1' : '0'; k += c == '\r' ? '1' : '0'; any |= c == '\n' || c == '\r'; }
            int l = in._lookup[s][c]; if (!any) { if (l != 6) return fail("unused", ds + ": character " + std::to_string(c) + " is used by no rule but has column " + std::to_string(l)); continue; }
            if (l < 7 || l >= in._dfa_alphabet[s]) return fail("missing", ds + ": character " + std::to_string(c) + " has column " + std::to_string(l)); auto a = cls.emplace(k, l); if (a.first->second != l) return fail("split", ds + ": character " + std::to_string(c) + " has its own column but no rule tells it from another one"); auto b = col.emplace(l, k); if (b.first->second != k) return fail("merged", ds + ": character " + std::to_string(c) + " shares a column with a character that a rule tells apart"); }
    }
}
int main(int argc, char** argv) { init(argc, argv); hanglimit() = 45; while (timeleft() && !toomany()) one(); return finish(); }
