// L15: failed and successful builds into a machine that already has content
#include "regex.hpp"
template<class SM> static std::string dump(const SM& m) { auto& d = m.data(); std::ostringstream o; o << (uint64_t)d._eoi << ';'; for (auto& v : d._lookup) { for (auto x : v) o << (uint64_t)x << ','; o << ';'; } for (auto x : d._dfa_alphabet) o << (uint64_t)x << ','; o << ';'; o << (uint64_t)d._features << ';'; for (auto& v : d._dfa) { for (auto x : v) o << (uint64_t)x << ','; o << ';'; } return o.str(); }
template<class CT, class ID> static std::string dump(const lexertl::basic_char_state_machine<CT, ID>& m) { std::ostringstream o; for (auto& d : m._sm_vector) { o << '#' << (uint64_t)d._bol_index; for (auto& s : d._states) { o << '|' << s._end_state << ' ' << (int)s._push_pop_dfa << ' ' << (uint64_t)s._id << ' ' << (uint64_t)s._user_id << ' ' << (uint64_t)s._push_dfa << ' ' << (uint64_t)s._next_dfa << ' ' << (uint64_t)s._eol_index; for (auto& t : s._transitions) { o << '>' << (uint64_t)t.first; for (auto& r : t.second._ranges) o << ' ' << (uint64_t)r.first << '-' << (uint64_t)r.second; } } } return o.str(); }
template<class R> static std::string fill(R& r, bool bad) {
    static const char* good[] = {"a", "b+", "[0-9]+", "ab|cd", "x*y", "^a", "z$", "(ab){2,3}"}; static const char* wrong[] = {"(a", "a)", "a||b", "(|a)", "a*", "a|a*", "()", "a{0,1}", "x?y*"}; static const char* sup[] = {"a|a"}; (void)sup;
    std::string ds; int ns = 1 + (int)rnd(3), k = -1, kind = bad ? (int)rnd(5) : -1; if (bad) k = (int)rnd(ns); std::string nm[] = {"INITIAL", "AA", "BB"}; for (int s = 1; s < ns; ++s) r.push_state(nm[s].c_str());
    for (int s = 0; s < ns; ++s) { if (s == k && kind == 0) { ds += " <" + nm[s] + "> no rules"; continue; } int n = 1 + (int)rnd(4), p = (int)rnd(n); for (int i = 0; i < n; ++i) { std::string re = good[(i * 3 + s + rnd(2)) % 8]; if (s == k && i == p) { if (kind < 3) re = wrong[rnd(9)]; else if (kind == 3) { re = chance(50) ? "[\\x00-\\xff]{300}" : "a{300}"; } else { n = i + 2; } } ds += " <" + nm[s] + "> " + re; try { r.push(nm[s].c_str(), re, (typename R::id_type)(i + 1), "."); } catch (const std::exception&) { ds += "!"; } } }
    return ds;
}
template<class RULES, class SM> static void one() {
    using G = lexertl::basic_generator<RULES, SM>; SM m; std::string ds = "id size " + std::to_string(sizeof(typename RULES::id_type)) + ":"; int n = 1 + (int)rnd(4); cur(ds);
    for (int i = 0; i < n; ++i) {
        RULES r; std::string d = fill(r, chance(60)); ds += " [build" + d + "]"; cur(ds); std::string before = dump(m), fresh; bool ok2 = true; { SM f; try { G::build(r, f); } catch (const std::exception&) { ok2 = false; } fresh = dump(f); if (!ok2) { SM e; if (dump(e) != fresh) return fail("partial", ds + ": a failed build left content in an empty machine"); } }
        bool ok = true; try { G::build(r, m); } catch (const std::exception&) { ok = false; } eval(ds, !ok || i > 0); if (!ok) sample(ds);
        if (ok != ok2) return fail("result", ds + ": the result depends on the previous content"); if (!ok && dump(m) != before) return fail("changed", ds + ": a failed build changed the machine"); if (ok && dump(m) != fresh) return fail("leftover", ds + ": a build into a used machine differs from one into a new machine");
    }
}
int main(int argc, char** argv) { init(argc, argv); hanglimit() = 60; while (timeleft() && !toomany()) { int k = (int)rnd(10); if (k < 4) one<lexertl::rules, lexertl::state_machine>(); else if (k < 7) one<lexertl::basic_rules<char, char, uint8_t>, lexertl::basic_state_machine<char, uint8_t>>(); else if (k < 8) one<lexertl::basic_rules<char, char32_t>, lexertl::basic_state_machine<char32_t>>(); else one<lexertl::rules, lexertl::char_state_machine>(); } return finish(); }
