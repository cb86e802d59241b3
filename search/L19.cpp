// L19: any text as a regular expression, macro or list of states is accepted or rejected with runtime_error; accepted rules build and run
#include "common.hpp"
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/iterator.hpp>
using namespace vp;
static std::string piece() {
    static const char* p[] = {"a", "b", "c", "ab", "(", ")", "(?:", "(?i:", "(?s:", "(?-s:", "(?x:", "(?-ix:", "(?i)", "(?#x)", "|", "*", "+", "?", "??", "*?", "+?", "{2}", "{0,1}", "{1,}", "{,2}", "{2,3}?", "{0}", "{m}", "{n}", "{nosuch}", "{-}", "{+}", "[", "]", "[a-c]", "[^a]", "[]a]", "[^]a]", "[a-", "[b-a]", "[[:alpha:]]", "[[:nope:]]", "[\\d\\s]", "[^\\w]", "\\", "\\n", "\\r", "\\x", "\\x41", "\\xg", "\\101", "\\8", "\\c", "\\cA", "\\e", "\\d", "\\D", "\\p{L}", "\\p{Lu}", "\\p", "\\p{", "\\p{}", "\\P{N}", "[\\p{Nd}]", "^", "$", "\"", "\"ab\"", "\"\"", "\"a", "\"\\\"\"", ".", "-", "#x\n", " ", "\t", "\r\n", "\n", "\r", "[\r\n]", "\\R", "\\Q", "\\E", "{1", "{1,", "{1,2", "\xc3\xa9", "\xff", "/", ",", "}", "(?", "(?i", "(?-", "(?z:", "[a&&b]", "[a-c]{-}[b]", "[a-c]{+}[d]", "[a]{-}[a]", "[[:", "[[:alpha:", "[[:^alpha:]]", "\\h", "\\u0041", "a?", "a*", "(a|b)", "()", "(|a)", "(a|)", "||", "\\<", "<", ">", "<<EOF>>"};
    if (chance(3)) return std::string(1, (char)rnd(256)); if (chance(4)) return std::string(1, (char)(32 + rnd(95))); return p[rnd(sizeof p / sizeof *p)];
}
static std::string text(int n) { std::string s; while (n--) s += piece(); return s; }
static std::string nm() { static const char* p[] = {"A", "B", "INITIAL", "*", ".", "A,B", "*,A", "A,", ",A", "", "A,,B", "1", "A B", "C", "INITIAL,A", "<A>", "\xff", "a-b", "_x", "A:B", ">A", ">A:B", "<", ">A:", ">:", ">:A", "A,A", "-1", "Z"}; return p[rnd(sizeof p / sizeof *p)]; }
static std::string mn() { static const char* p[] = {"m", "n", "nosuch", "", "1", "m n", "_", "a-b", "-", "m", "\xff", "A9"}; return p[rnd(sizeof p / sizeof *p)]; }
static int mode;      // which kinds of piece to use
template<class R, class SM> static void one() {
    using RC = typename R::rules_char_type; using S = std::basic_string<RC>; auto cv = [](const std::string& s) { S o; for (unsigned char c : s) o += (RC)c; return o; };
    static const int fl[] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 33, 3, 96}; R r((std::size_t)(chance(50) ? 2 : chance(50) ? (int)rnd(512) : fl[rnd(13)])); std::string ds = "rules char " + std::to_string(sizeof(RC)) + " machine char " + std::to_string(sizeof(typename SM::traits::char_type)) + " flags " + std::to_string(r.flags()); bool states = chance(35); int acc = 0; bool skips = false;
    if (states) for (const char* s : {"A", "B"}) { r.push_state(cv(s).c_str()); }
    int n = 1 + (int)rnd(chance(50) ? 1 : 4);
    for (int i = 0; i < n; ++i) {
        int k = (int)rnd(20); std::string t = text(1 + (int)rnd(chance(70) ? 4 : 9)), d; if (t.find("{99") != std::string::npos) continue;
        try {
            if (k < 2) { std::string m = mn(); d = " macro " + esc(m) + "=" + esc(t); ds += d; cur(ds); r.insert_macro(cv(m).c_str(), cv(t)); }
            else if (k < 3) { std::string m = nm(); ds += " push_state " + esc(m); cur(ds); r.push_state(cv(m).c_str()); }
            else if (k < 6 || states) { std::string a = nm(), b = nm(); ds += " push(" + esc(a) + "," + esc(t) + "," + esc(b) + ")"; cur(ds); if (chance(50)) r.push(cv(a).c_str(), cv(t), (uint16_t)(i + 1), cv(b).c_str()); else { r.push(cv(a).c_str(), cv(t), cv(b).c_str()); skips = true; } ++acc; }
            else if (k < 7) { ds += " skip(" + esc(t) + ")"; cur(ds); r.push(cv(t), R::skip()); ++acc; skips = true; }
            else { ds += " push(" + esc(t) + ")"; cur(ds); r.push(cv(t), (uint16_t)(i + 1)); ++acc; }
        } catch (const lexertl::runtime_error&) {}
        catch (const std::exception& e) { eval(ds); return fail("exception", ds + ": " + e.what()); }
    }
    eval(ds); if (rnd(400) == 0) sample(ds);
    SM sm; try { lexertl::basic_generator<R, SM>::build(r, sm); } catch (const lexertl::runtime_error&) { return; } catch (const std::exception& e) { return fail("exception", ds + " build: " + e.what()); }
    if (skips && ((r.flags() & *lexertl::regex_flags::match_zero_len) || ds.find('$') != std::string::npos)) return;          // an empty match that is skipped: L02, known finding
    if constexpr (SM::traits::lookup) {
        using CH = typename SM::traits::input_char_type; using T = std::basic_string<CH>; using It = typename T::const_iterator;
        for (int k = 0; k < 3; ++k) {
            T x; int l = (int)rnd(12); for (int i = 0; i < l; ++i) x += (CH)("abcAB01 \n\r\t-\"]x\xff"[rnd(16)]); bool rec = (*lexertl::feature_bit::recursive & sm.data()._features) != 0; long cnt = 0;
            try { if (rec) { lexertl::recursive_match_results<It> m(x.cbegin(), x.cend()); do lexertl::lookup(sm, m); while (m.id != 0 && ++cnt < 3 * l + 10 && m.first != m.second); }
                  else { lexertl::match_results<It> m(x.cbegin(), x.cend()); do lexertl::lookup(sm, m); while (m.id != 0 && ++cnt < 3 * l + 10 && m.first != m.second); } } catch (const lexertl::runtime_error&) {}
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv); hanglimit() = 45;
    while (timeleft() && !toomany()) { int k = (int)rnd(10); if (k < 6) one<lexertl::rules, lexertl::state_machine>(); else if (k < 7) one<lexertl::basic_rules<char, char32_t>, lexertl::u32state_machine>(); else if (k < 8) one<lexertl::wrules, lexertl::wstate_machine>(); else if (k < 9) one<lexertl::rules, lexertl::char_state_machine>(); else one<lexertl::basic_rules<char, char16_t>, lexertl::basic_state_machine<char16_t>>(); }
    return finish();
}
