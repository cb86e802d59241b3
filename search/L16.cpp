// L16: random histories of calls on a rules object, against a model of the collection
#include "common.hpp"
#include <lexertl/rules.hpp>
#include <array>
using namespace vp;
template<class ID> struct Probe {
    using R = lexertl::basic_rules<char, char, ID>;
    struct St { std::vector<uint64_t> id, uid, next, push; std::vector<bool> pop; std::vector<std::string> re; uint64_t feat = 0; };
    R r; std::vector<std::string> names{"INITIAL"}; std::map<std::string, uint64_t> map{{"INITIAL", 0}}; std::vector<St> st{1}; std::set<std::string> macros; std::string ds; static constexpr ID NP = (ID)~(ID)0;
    bool same(const std::string& op) {
        auto bad = [&](const std::string& w) { fail("model", ds + " :: " + op + ": " + w); return false; }; size_t n = st.size();
        if (r.statemap().size() != n || r.regexes().size() != n || r.ids().size() != n || r.user_ids().size() != n || r.next_dfas().size() != n || r.pushes().size() != n || r.pops().size() != n || r.features().size() != n || r.regex_strings().size() != n) return bad("number of start states");
        for (auto& m : map) { auto i = r.statemap().find(m.first); if (i == r.statemap().end() || i->second != m.second) return bad("id of state " + m.first); if (r.state(m.first.c_str()) != m.second) return bad("state()"); }
        for (size_t i = 0; i < n; ++i) if (names[i] != r.state((ID)i)) return bad("name of state " + std::to_string(i));
        bool empty = true; for (size_t i = 0; i < n; ++i) { auto& s = st[i]; size_t k = s.id.size(); if (k) empty = false; if (r.regexes()[i].size() != k || r.ids()[i].size() != k || r.user_ids()[i].size() != k || r.next_dfas()[i].size() != k || r.pushes()[i].size() != k || r.pops()[i].size() != k || r.regex_strings()[i].size() != k) return bad("entries of state " + std::to_string(i) + " differ in number"); if (r.features()[i] != s.feat) return bad("features of state " + std::to_string(i)); for (size_t j = 0; j < k; ++j) { if (r.ids()[i][j] != s.id[j] || r.user_ids()[i][j] != s.uid[j] || r.next_dfas()[i][j] != s.next[j] || r.pushes()[i][j] != s.push[j] || r.pops()[i][j] != s.pop[j] || r.regex_strings()[i][j] != s.re[j]) return bad("entry " + std::to_string(j) + " of state " + std::to_string(i)); if (r.regexes()[i][j].size() < 3) return bad("regex of entry " + std::to_string(j)); } }
        if (r.empty() != empty) return bad("empty()"); return true;
    }
    static bool name_ok(const std::string& s) { if (s.empty() || !(isalpha((unsigned char)s[0]) || s[0] == '_')) return false; for (char c : s) if (!(isalnum((unsigned char)c) || c == '_' || c == '-')) return false; return true; }
    std::string aname() { static const char* v[] = {"AA", "B-1", "_c", "INITIAL", "D", "E9", "9x", "a b", "", "x!", "-a", "Z$", "unk", ">AA", "."}; return v[rnd(chance(70) ? 6 : 15)]; }
    void add(uint64_t s, const std::string& re, size_t n, uint64_t id, uint64_t uid, uint64_t next, uint64_t push, bool pop, uint64_t f) { for (size_t i = 0; i < n; ++i) { st[s].id.push_back(id); st[s].uid.push_back(uid); st[s].next.push_back(next); st[s].push.push_back(push); st[s].pop.push_back(pop); st[s].re.push_back(re); } st[s].feat |= f; }
    static uint64_t feat(const std::string& re, uint64_t id, bool rec) { uint64_t f = 0; if (re[0] == '^') f |= *lexertl::feature_bit::bol; if (re.size() > 1 && re.back() == '$') f |= *lexertl::feature_bit::eol; if (id == R::skip()) f |= *lexertl::feature_bit::skip; if (id == 0) f |= *lexertl::feature_bit::again; if (rec) f |= *lexertl::feature_bit::recursive; return f; }
    void run() {
        static const char* good[] = {"a", "b+", "^a", "c$", "^d$", "[a-c]x", "(ab)*c", "a+?b|c", "^a+?b|c", "b|a+?x$", "\"q\""}; static const int pieces[] = {1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 1}; static const char* wrong[] = {"[a", "a**", "{nomacro}", "\"x", "(?i:a", "a{2", "[b-a]", "", "\\x"};
        int k = 4 + (int)rnd(25);
        for (int i = 0; i < k; ++i) {
            std::string op; int what = (int)rnd(10); bool threw = false, must = false; int gi = (int)rnd(11); bool isbad = chance(12); std::string re = isbad ? wrong[rnd(9)] : good[gi]; size_t pc = pieces[gi]; uint64_t id = chance(10) ? 0 : chance(10) ? NP : chance(15) ? R::skip() : 1 + rnd(9), uid = rnd(9);
            if (what < 2) { std::string n = aname(); op = "push_state(" + n + ")"; cur(ds + op); bool ok = name_ok(n), neu = ok && !map.count(n); if (neu && st.size() >= (uint64_t)NP) { ok = neu = false; } uint64_t got = 0; try { got = r.push_state(n.c_str()); } catch (const lexertl::runtime_error&) { threw = true; } if (threw == ok) { fail("name", ds + op + (ok ? " is rejected" : " is accepted")); return; } if (neu) { map[n] = st.size(); names.push_back(n); st.emplace_back(); } if (ok && got != map[n]) { fail("state", ds + op + " returns " + std::to_string(got)); return; } }
            else if (what < 4) { static const char* mn[] = {"m1", "M-2", "_m", "9m", "m m", ""}; std::string n = mn[rnd(chance(75) ? 3 : 6)]; op = "insert_macro(" + n + "," + re + ")"; cur(ds + op); must = !name_ok(n) || macros.count(n); try { r.insert_macro(n.c_str(), re); } catch (const lexertl::runtime_error&) { threw = true; } if ((must || (isbad && !re.empty())) && !threw) { fail("macro", ds + op + " is accepted"); return; } if (!threw) macros.insert(n); else if (!must && !isbad && re[0] != '^' && re.back() != '$') { fail("macro", ds + op + " is rejected"); return; } if (name_ok(n)) { bool use = true; R q = r; try { q.push("{" + n + "}", 3); } catch (const lexertl::runtime_error&) { use = false; } if (use && !macros.count(n)) { fail("macro", ds + op + " failed but the macro exists"); return; } } }
            else if (what < 6) { op = "push(" + re + "," + std::to_string(id) + "," + std::to_string(uid) + ")"; cur(ds + op); must = id == 0 || id == NP || isbad; try { if (chance(50)) r.push(re, (ID)id, (ID)uid); else { r.push(re.data(), re.data() + re.size(), (ID)id, (ID)uid); } } catch (const lexertl::runtime_error&) { threw = true; } if (threw != must) { fail("push", ds + op + (must ? " is accepted" : " is rejected")); return; } if (!threw) add(0, re, pc, id, uid, 0, NP, false, feat(re, id, false)); }
            else { std::string from; int n = 1 + (int)rnd(3); std::vector<uint64_t> list; bool fok = true; if (chance(15)) { from = "*"; for (size_t q = 0; q < st.size(); ++q) list.push_back(q); } else for (int q = 0; q < n; ++q) { std::string a; do a = aname(); while (a.empty()); if (q) from += ','; from += a; if (!name_ok(a) || !map.count(a)) fok = false; else list.push_back(map[a]); }
                std::string to; uint64_t next = NP, push = NP; bool tok = true, dot = false, pop = false, pu = false, dst = false; switch (rnd(5)) { case 0: to = "."; dot = true; break; case 1: to = "<"; pop = true; break; case 2: case 3: { std::string a; do a = aname(); while (a == "."); pu = chance(50); if (a[0] == '>') { pu = true; a = a.substr(1); } to = (pu ? ">" : "") + a; if (!name_ok(a) || !map.count(a)) tok = false; else next = map[a]; if (pu && chance(40)) { std::string b = aname(); to += ":" + b; dst = true; if (!name_ok(b) || !map.count(b)) tok = false; else push = map[b]; } else if (!pu && chance(10)) { to += ":AA"; tok = false; } break; } default: to = "."; dot = true; }
                bool withid = chance(75); if (!withid) id = R::eoi(); op = "push(" + from + "," + re + "," + (withid ? std::to_string(id) + "," : "") + to + (withid ? "," + std::to_string(uid) : "") + ")"; cur(ds + op); if (withid) must = id == 0 || id == NP; must = must || !fok || !tok || (isbad && !list.empty());
                try { if (withid) r.push(from.c_str(), re, (ID)id, to.c_str(), (ID)uid); else r.push(from.c_str(), re, to.c_str()); } catch (const lexertl::runtime_error&) { threw = true; } if (threw != must) { fail("push", ds + op + (must ? " is accepted" : " is rejected")); return; }
                if (!threw) for (uint64_t s : list) add(s, re, pc, id, withid ? uid : NP, dot ? s : pop ? NP : next, pu ? (dst ? push : s) : NP, pop, feat(re, id, pu || pop)); }
            ds += op + (threw ? "! " : " "); if (!same(op)) return;
        }
        eval(ds); sample(ds);
    }
};
static void overflow() { Probe<uint8_t> p; int n = 250 + (int)rnd(12); for (int i = 0; i < n; ++i) { std::string s = "S" + std::to_string(i); cur("push_state " + s); bool ok = p.st.size() < 255, t = false; try { p.r.push_state(s.c_str()); } catch (const lexertl::runtime_error&) { t = true; } if (t == ok) { fail("overflow", "id size 1: push_state number " + std::to_string(i + 1) + (ok ? " is rejected" : " is accepted")); return; } if (ok) { p.map[s] = p.st.size(); p.names.push_back(s); p.st.emplace_back(); } } p.ds = std::to_string(n) + " states "; eval(p.ds); p.same("many states"); }
int main(int argc, char** argv) { init(argc, argv); overflow(); while (timeleft() && !toomany()) { if (chance(70)) { Probe<uint16_t> p; p.run(); } else if (chance(50)) { Probe<uint8_t> p; p.run(); } else if (chance(1)) overflow(); else { Probe<uint32_t> p; p.run(); } } return finish(); }
