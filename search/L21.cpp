// L21: streams, buffer sizes and histories of iterator copies, against the text itself
#include "common.hpp"
#include <cstring>
#include <lexertl/runtime_error.hpp>
#include <lexertl/stream_shared_iterator.hpp>
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
using namespace vp;
template<class CT> static void one() {
    using It = lexertl::basic_stream_shared_iterator<CT>; size_t n = chance(10) ? 0 : rnd(chance(60) ? 12 : 60), buf = 1 + rnd(chance(60) ? 6 : 40), inc = 1 + rnd(chance(60) ? 6 : 40); std::basic_string<CT> t; for (size_t i = 0; i < n; ++i) t += (CT)(chance(10) ? 0 : 'a' + rnd(26));
    std::string ds = "length " + std::to_string(n) + " buffer " + std::to_string(buf) + " increment " + std::to_string(inc) + " char size " + std::to_string(sizeof(CT)), op; std::basic_istringstream<CT> ss(t);
    struct Ent { std::unique_ptr<It> it; size_t pos; };   // pos == n: end
    std::vector<Ent> v; It end; uint64_t steps = 0; bool first = true; auto m = std::make_unique<It>(ss, buf, inc); bool bad = false;
    auto check = [&](Ent& e) { bool ae = *e.it == end; if (ae != (e.pos == n)) { fail("end", ds + ":" + op + ": an iterator at position " + std::to_string(e.pos) + (ae ? " is" : " is not") + " at the end"); bad = true; return; } if (!ae) { CT c = **e.it; if (c != t[e.pos]) { fail("char", ds + ":" + op + ": wrong character at position " + std::to_string(e.pos)); bad = true; } } };
    // the first copy of the master starts the reading; it starts at the beginning
    { auto c = std::make_unique<It>(); if (chance(50)) { *c = *m; op += " assign-master"; } else { c = std::make_unique<It>(*m); op += " copy-master"; } v.push_back({std::move(c), 0}); if (chance(70)) { m.reset(); op += " drop-master"; } }
    int k = 5 + (int)rnd(60);
    for (int i = 0; i < k && !bad && !v.empty(); ++i) {
        cur(ds + ":" + op); size_t a = rnd(v.size()), b = rnd(v.size());
        switch (rnd(8)) {
        case 0: case 1: case 2: if (v[a].pos < n) { int r = 1 + (int)rnd(4); while (r-- && v[a].pos < n) { if (chance(50)) ++*v[a].it; else { It o = (*v[a].it)++; if (!(o == end) && *o != t[v[a].pos]) { fail("postinc", ds + ":" + op + " post-increment returns a wrong iterator"); bad = true; } } ++v[a].pos; op += " +" + std::to_string(a); } } break;
        case 3: if (v.size() < 5) { v.push_back({std::make_unique<It>(*v[a].it), v[a].pos}); op += " copy" + std::to_string(a); } break;
        case 4: *v[b].it = *v[a].it; v[b].pos = v[a].pos; op += " " + std::to_string(b) + "=" + std::to_string(a); break;
        case 5: if (v.size() > 1) { op += " drop" + std::to_string(a); v.erase(v.begin() + a); } break;
        case 6: { for (size_t x = 0; x < v.size(); ++x) for (size_t y = 0; y < v.size(); ++y) if ((*v[x].it == *v[y].it) != (v[x].pos == v[y].pos)) { fail("equal", ds + ":" + op + ": comparison of positions " + std::to_string(v[x].pos) + " and " + std::to_string(v[y].pos)); bad = true; } break; }
        default: // text between two live copies
            if (v[a].pos <= v[b].pos && v[a].pos < n) { It p = *v[a].it; size_t q = v[a].pos; op += " read" + std::to_string(a) + "-" + std::to_string(b); while (p != *v[b].it && q < n) { if (*p != t[q]) { fail("range", ds + ":" + op + ": wrong character at position " + std::to_string(q)); bad = true; break; } ++p; ++q; } if (q != v[b].pos && !bad) { fail("range", ds + ":" + op + ": the range has the wrong length"); bad = true; } }
        }
        for (auto& e : v) if (!bad) check(e);
    }
    if (!bad) { for (auto& e : v) { while (e.pos < n && !bad) { ++*e.it; ++e.pos; check(e); } } }
    (void)steps; (void)first; eval(ds + op); if (n > 3) sample(ds + ":" + op);
}
// lexing a stream gives the tokens of the same text in memory
static void lex_one() {
    static lexertl::state_machine sm; static bool built = false; if (!built) { lexertl::rules r; r.push("[a-z]+", 1); r.push("[0-9]+", 2); r.push("[ab]+[0-9]+x", 3); r.push("[ \n]", 4); lexertl::generator::build(r, sm); built = true; }
    std::string t; size_t n = rnd(40); for (size_t i = 0; i < n; ++i) t += "abcx019 \n?"[rnd(10)]; size_t buf = 1 + rnd(10), inc = 1 + rnd(8); std::string ds = "lexing \"" + esc(t) + "\" buffer " + std::to_string(buf) + " increment " + std::to_string(inc); cur(ds);
    std::istringstream ss(t); lexertl::stream_shared_iterator it(ss, buf, inc), end; lexertl::match_results<lexertl::stream_shared_iterator> x(it, end); lexertl::smatch y(t.cbegin(), t.cend()); eval(ds);
    for (int i = 0; i < 100; ++i) { lexertl::lookup(sm, x); lexertl::lookup(sm, y); std::string s; if (x.id != 0) s.assign(x.first, x.second); if (x.id != y.id || s != y.str()) return fail("lex", ds + ": token " + std::to_string(i) + " is " + std::to_string(x.id) + " \"" + esc(s) + "\", expected " + std::to_string(y.id) + " \"" + esc(y.str()) + "\""); if (y.id == 0) break; }
}
int main(int argc, char** argv) { init(argc, argv); while (timeleft() && !toomany()) { int k = (int)rnd(10); if (k < 5) one<char>(); else if (k < 7) one<wchar_t>(); else lex_one(); } return finish(); }
