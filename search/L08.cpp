// L08: random rule sets over several start states, against the meaning of the expressions
#include "regex.hpp"
static bool touches(const Re* r) { if (r->k == Re::SET) return r->in('\n') || r->in('\r'); for (auto& c : r->c) if (touches(c.get())) return true; return false; }
// `$` is a position in the expression like a character, of length 0: it wins a tie. Expressions next to anchors do not contain line ends (L03 covers the walk).
struct Rule { ReP e; bool bol, eol; uint32_t id, uid; int next; bool split = false; };
template<class CT, class ID> static void one(bool anchors) {
    using U = typename Gen<CT>::U; Gen<CT> g; int na = 2 + (int)rnd(3); for (int i = 0; i < na; ++i) g.alpha.push_back("abcdAB01"[rnd(8)]); if (chance(30)) g.alpha.push_back((uint32_t)rnd(Gen<CT>::MX + 1)); if (chance(15)) g.alpha.push_back(chance(50) ? 0 : Gen<CT>::MX); g.alpha.push_back(!anchors && chance(10) ? '\n' : 'a');
    g.dup = 15 + (int)rnd(50); g.maxrep = 3; g.posix = chance(30); g.icase = chance(8); if (anchors) g.flags = *lexertl::regex_flags::dot_not_cr_lf; else if (chance(20)) g.flags = 0;
    int ns = chance(50) ? 1 : 2 + (int)rnd(2); static const char* nm[] = {"INITIAL", "AA", "B_1"}; std::vector<std::vector<Rule>> st(ns); std::string ds = "char size " + std::to_string(sizeof(CT)) + " id size " + std::to_string(sizeof(ID));
    typename Lex<char, CT, ID>::rules r(g.flags | (g.icase ? *lexertl::regex_flags::icase : 0)); typename Lex<char, CT, ID>::sm sm; for (int s = 1; s < ns; ++s) r.push_state(nm[s]); uint64_t total = 0;
    std::vector<std::array<std::string, 3>> text_; std::vector<std::array<uint64_t, 4>> meta;
    for (int s = 0; s < ns; ++s) { int n = 1 + (int)rnd(4); if (anchors && chance(40)) { Rule q{g.set("\\n", [](uint32_t c) { return c == '\n'; }), false, false, 250, 7, s}; st[s].push_back(q); text_.push_back({"\\n", nm[s], "."}); meta.push_back({250, 7, 0, 0}); ds += std::string(" <") + nm[s] + "> \\n id 250/7"; } for (int i = 0; i < n; ++i) { Rule q; do q.e = g.gen(1 + (int)rnd(3)); while (nullable(q.e.get()) || (anchors && touches(q.e.get()))); total += leaves(q.e.get()); q.bol = anchors && chance(25); q.eol = anchors && sizeof(CT) == 1 && chance(30); q.id = 1 + (uint32_t)rnd(200); q.uid = (uint32_t)rnd(200); q.next = chance(60) ? s : (int)rnd(ns); bool alt = q.e->k == Re::ALT && (q.bol || q.eol); bool flat = true; for (auto& c : q.e->c) if (c->k == Re::ALT) flat = false; if (alt && flat && chance(50)) { alt = false; q.split = true; }
        std::string t = (q.bol ? "^" : "") + std::string(alt ? "(" : "") + q.e->t + (alt ? ")" : "") + (q.eol ? "$" : ""); ds += std::string(" <") + nm[s] + "> " + t + " id " + std::to_string(q.id) + "/" + std::to_string(q.uid) + " -> " + nm[q.next]; st[s].push_back(q); text_.push_back({t, nm[s], q.next == s && chance(50) ? "." : nm[q.next]}); meta.push_back({q.id, q.uid, 0, 0}); } }
    if (total > (sizeof(CT) == 1 ? 60u : 20u)) return; cur(ds);
    try { for (size_t i = 0; i < text_.size(); ++i) { if (ns == 1) r.push(text_[i][0], (ID)meta[i][0], (ID)meta[i][1]); else r.push(text_[i][1].c_str(), text_[i][0], (ID)meta[i][0], text_[i][2].c_str(), (ID)meta[i][1]); } Lex<char, CT, ID>::gen::build(r, sm); if (chance(30)) sm.minimise(); }
    catch (const std::exception& e) { std::string w = e.what(); eval(ds); bool fine = w.find("cannot be matched") != std::string::npos || sizeof(ID) == 1 || (g.icase && w.find("Empty charset") != std::string::npos); if (!fine) fail("rejected", ds + " is rejected: " + w); return; }
    for (int k = 0; k < 10; ++k) {
        std::vector<U> t; if (chance(75)) { int n = 1 + (int)rnd(3); for (int i = 0; i < n; ++i) { auto& v = st[rnd(ns)]; produce<CT>(g, v[rnd(v.size())].e.get(), t); if (anchors && chance(40)) t.push_back('\n'); } } else t = text<CT>(g, rnd(20));
        std::basic_string<CT> in(t.begin(), t.end()); lexertl::match_results<typename std::basic_string<CT>::const_iterator, ID> x(in.cbegin(), in.cend()); Ref<U> ref(t); size_t p = 0; int cs = 0; bool bol = true, nt = false; int s0 = (int)rnd(ns); x.state = (ID)s0; cs = s0; bool bad = false; std::string full = ds + " start " + nm[s0] + " text \"" + showt(t) + "\"";
        for (int guard = 0; guard < 200 && p < t.size(); ++guard) {
            size_t best = p; bool be = false; const Rule* hit = nullptr; auto at_eol = [&](size_t q) { return q == t.size() || t[q] == '\n' || t[q] == '\r'; };
            auto tryit = [&](const Rule& q, const Re* e_, bool qb, bool qe) { if (qb && !bol) return; auto& e = ref.ends(e_, p); for (auto i = e.rbegin(); i != e.rend() && (*i > best || (*i == best && hit && qe && !be)); ++i) if (!qe || at_eol(*i)) { best = *i; be = qe; hit = &q; break; } };
            // ^ belongs to the first alternative, $ to the last one
            for (auto& q : st[cs]) { if (!q.split) tryit(q, q.e.get(), q.bol, q.eol); else for (size_t i = 0; i < q.e->c.size(); ++i) tryit(q, q.e->c[i].get(), q.bol && i == 0, q.eol && i + 1 == q.e->c.size()); }
            lexertl::lookup(sm, x); size_t f = x.first - in.cbegin(), s = x.second - in.cbegin(); std::string got, want;
            if (!hit) { want = "no match 1"; best = p + 1; } else { want = "id " + std::to_string(hit->id) + "/" + std::to_string(hit->uid) + " length " + std::to_string(best - p) + " state " + std::to_string(hit->next); nt = true; cs = hit->next; }
            got = x.id == x.npos() ? "no match " + std::to_string(s - f) : "id " + std::to_string((unsigned)x.id) + "/" + std::to_string((unsigned)x.user_id) + " length " + std::to_string(s - f) + " state " + std::to_string((unsigned)x.state);
            if (got != want || f != p) { fail("match", full + " at " + std::to_string(p) + ": " + got + ", expected " + want); bad = true; break; }
            bol = t[best - 1] == '\n'; p = best;
        }
        eval(full, nt); if (bad) return; if (nt) sample(full);
    }
}
// known finding: positions whose bytes look like the bytes of a line end are erased next to `$`
static void known() { using L = Lex<char, char16_t>; L::rules r; L::sm sm; r.push("d", 1); r.push("^d$", 2); r.push("^d.", 3); L::gen::build(r, sm); std::u16string in = u"d\xd767"; lexertl::match_results<std::u16string::const_iterator> x(in.cbegin(), in.cend()); cur("wide-eol-clash"); lexertl::lookup(sm, x); eval(1); if (x.id != 3 || x.second != in.cend()) fail("wide-eol-clash", "char16_t rules d id 1, ^d$ id 2, ^d. id 3 on d followed by U+D767: rule " + std::to_string(x.id) + " length " + std::to_string(x.second - x.first) + ", expected rule 3 length 2"); }
int main(int argc, char** argv) { init(argc, argv); hanglimit() = 45; if (C().shard == 0) known(); while (timeleft() && !toomany()) { int k = (int)rnd(10); bool a = chance(35); if (k < 5) one<char, uint16_t>(a); else if (k < 6) one<char, uint8_t>(a); else if (k < 7) one<char, uint32_t>(a); else if (k < 8) one<char16_t, uint16_t>(a); else one<char32_t, uint16_t>(a); } return finish(); }
