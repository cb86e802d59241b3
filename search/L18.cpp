// L18: counted repetition end to end, and the acceptance of counts
#include "regex.hpp"
template<class CT> static void random_one() {
    Gen<CT> g; for (int i = 0; i < 4; ++i) g.alpha.push_back("abcdAB01"[rnd(8)]); if (chance(30)) g.alpha.push_back((uint32_t)rnd(Gen<CT>::MX + 1)); g.dup = 70; g.maxrep = 5; g.posix = chance(20);
    std::vector<ReP> rs; int n = 1 + (int)rnd(2); std::string ds = "char size " + std::to_string(sizeof(CT)); typename Lex<char, CT>::rules r; typename Lex<char, CT>::sm sm;
    for (int i = 0; i < n; ++i) { ReP e; do e = g.gen(1 + (int)rnd(3)); while (nullable(e.get())); if (leaves(e.get()) > (sizeof(CT) == 1 ? 60 : 20)) return; rs.push_back(e); ds += " rule " + std::to_string(i + 1) + " " + e->t; }
    cur(ds); try { for (int i = 0; i < n; ++i) r.push(rs[i]->t, (uint16_t)(i + 1)); Lex<char, CT>::gen::build(r, sm); if (chance(50)) sm.minimise(); } catch (const std::exception& e) { eval(ds); if (std::string(e.what()).find("cannot be matched") == std::string::npos) fail("rejected", ds + " is rejected: " + e.what()); return; }
    for (int k = 0; k < 12; ++k) { std::vector<typename Gen<CT>::U> t; if (chance(70)) { for (int i = 0; i < 2; ++i) produce<CT>(g, rs[rnd(rs.size())].get(), t); } else t = text<CT>(g, rnd(20)); if (!compare<CT>(sm, rs, t, ds, "match")) return; }
}
// the text of a count on "a": does it build, and which lengths match
static void count_one() {
    auto num = [] { std::string s; int k = (int)rnd(10); if (k < 6) s = std::to_string(rnd(8)); else if (k < 7) s = ""; else if (k < 8) s = "00" + std::to_string(rnd(4)); else if (k < 9) { s = "1844674407370955161" + std::to_string(rnd(10)); if (chance(50)) s += std::to_string(rnd(100)); } else s = std::to_string(rnd(12)); return s; };
    std::string a = num(), b = num(), body = a; bool comma = chance(60); if (comma) { body += ','; body += b; } bool closed = true; if (chance(8)) { const char* j[] = {" ", "x", "-1", "{"}; body += j[rnd(4)]; closed = false; } bool lazy = chance(20);
    std::string re = "a{" + body + "}" + (lazy ? "?" : "") + "b"; std::string ds = "regex " + re; cur(ds); if (!closed) { eval(ds, false); lexertl::rules r; lexertl::state_machine sm; try { r.push(re, 1); fail("malformed", ds + " is accepted"); } catch (const lexertl::runtime_error&) {} return; }
    auto big = [](const std::string& s) { size_t z = s.find_first_not_of('0'); std::string q = z == std::string::npos ? "" : s.substr(z); return q.size() > 20 || (q.size() == 20 && q > "18446744073709551615"); }; auto val = [](const std::string& s) { return s.empty() ? (uint64_t)0 : strtoull(s.c_str(), 0, 10); };
    uint64_t n = val(a), m = comma ? val(b) : n; bool open = comma && b.empty(); bool ok = !a.empty() && !big(a) && !(comma && big(b)); if (ok) { if (!open) ok = m >= n && m > 0; } if (ok && (n > 50 || (!open && m > 50))) { return; }
    lexertl::rules r; lexertl::state_machine sm; bool threw = false; try { r.push(re, 1); lexertl::generator::build(r, sm); } catch (const lexertl::runtime_error&) { threw = true; }
    eval(ds, ok); if (threw == ok) return fail(ok ? "count rejected" : "count accepted", ds + (ok ? " is rejected" : " is accepted")); if (!ok) return;
    for (uint64_t c = 0; c < 14; ++c) { std::string t(c, 'a'); t += 'b'; lexertl::smatch x(t.cbegin(), t.cend()); lexertl::lookup(sm, x); bool whole = x.id == 1 && x.second == t.cend(); bool want = c >= n && (open || c <= m); if (whole != want) return fail("count", ds + (whole ? " matches " : " does not match ") + t); }
}
int main(int argc, char** argv) { init(argc, argv); hanglimit() = 45; while (timeleft() && !toomany()) { int k = (int)rnd(10); if (k < 4) random_one<char>(); else if (k < 5) random_one<char16_t>(); else if (k < 7) random_one<char32_t>(); else count_one(); } return finish(); }
