// L23: the character state machine against the table machine of the same rules
#include "regex.hpp"
template<class CT> static void one() {
    using L = Lex<char, CT>; using CSM = lexertl::basic_char_state_machine<CT>; using CG = lexertl::basic_generator<typename L::rules, CSM>; using U = typename Gen<CT>::U; constexpr bool wide = sizeof(CT) > 1;
    Gen<CT> g; int na = 2 + (int)rnd(3); for (int i = 0; i < na; ++i) g.alpha.push_back("abcdAB01"[rnd(8)]); if (chance(40)) g.alpha.push_back((uint32_t)rnd(Gen<CT>::MX + 1)); g.dup = 15 + (int)rnd(50); g.maxrep = 3; g.posix = chance(20); if (chance(20)) g.flags = 0;
    int ns = 1 + (int)rnd(3); static const char* nm[] = {"INITIAL", "AA", "B_1"}; std::string ds = "char size " + std::to_string(sizeof(CT)); typename L::rules r(g.flags); typename L::sm sm; CSM cs, cm; for (int s = 1; s < ns; ++s) r.push_state(nm[s]); uint64_t total = 0; std::vector<std::array<std::string, 3>> tx; std::vector<std::pair<int, int>> ids;
    for (int s = 0; s < ns; ++s) { int n = 1 + (int)rnd(4); for (int i = 0; i < n; ++i) { ReP e; do e = g.gen(1 + (int)rnd(3)); while (nullable(e.get())); total += leaves(e.get()); std::string t = chance(20) ? "^(" + e->t + ")" : e->t; if (!wide && chance(20)) t = "(" + e->t + ")$"; std::string nx = ns > 1 && chance(40) ? (chance(50) ? std::string(">") + nm[rnd(ns)] : chance(50) ? std::string(">") + nm[rnd(ns)] + ":" + nm[rnd(ns)] : "<") : chance(50) ? "." : nm[rnd(ns)]; int id = 1 + (int)rnd(9), ui = (int)rnd(9); ds += std::string(" <") + nm[s] + "> " + t + " " + nx + " id " + std::to_string(id) + "/" + std::to_string(ui); tx.push_back({t, nm[s], nx}); ids.push_back({id, ui}); } }
    if (total > (wide ? 20u : 60u)) return; cur(ds);
    try { for (size_t i = 0; i < tx.size(); ++i) r.push(tx[i][1].c_str(), tx[i][0], (uint16_t)ids[i].first, tx[i][2].c_str(), (uint16_t)ids[i].second); L::gen::build(r, sm); } catch (const std::exception&) { eval(ds, false); return; }
    try { CG::build(r, cs); } catch (const std::exception& e) { eval(ds); fail("build", ds + " builds as a table but not as a character machine: " + e.what()); return; }
    cm = cs; cm.minimise(); if (chance(30)) cm.minimise(); const auto& in = sm.data();
    auto step = [&](size_t d, uint16_t row, uint32_t c) -> uint16_t { auto st = [&](uint16_t r_, unsigned char b) -> uint16_t { if (!r_) return 0; return in._dfa[d][(size_t)r_ * in._dfa_alphabet[d] + in._lookup[d][b]]; }; if (sizeof(CT) == 1) return st(row, (unsigned char)c); if (sizeof(CT) == 2) return st(st(row, (unsigned char)(c >> 8)), (unsigned char)c); return st(st(st(row, (unsigned char)(c >> 16)), (unsigned char)(c >> 8)), (unsigned char)c); };
    std::vector<uint32_t> cc; if (!wide) for (int i = 0; i < 256; ++i) cc.push_back(i); else { for (uint32_t a : g.alpha) for (int k = -1; k < 2; ++k) cc.push_back((a + k) & (sizeof(CT) == 2 ? 0xffff : 0x1fffff)); for (uint32_t a : {0u, 9u, 10u, 13u, 32u, 0x30u, 0x39u, 0x5fu, 0x7au, 0xffu, 0x100u, 0xffffu}) cc.push_back(a); for (int i = 0; i < 10; ++i) cc.push_back((uint32_t)rnd(Gen<CT>::MX + 1)); for (auto& c : cc) if (c > Gen<CT>::MX) c = Gen<CT>::MX; }
    for (int mini = 0; mini < 2; ++mini) {
        const CSM& m = mini ? cm : cs; std::string w = mini ? " (minimised)" : ""; if (m._sm_vector.size() != in._dfa.size()) { eval(ds); fail("states", ds + w + ": wrong number of start states"); return; }
        for (size_t d = 0; d < m._sm_vector.size(); ++d) {
            auto& dfa = m._sm_vector[d]; std::map<uint16_t, uint32_t> to; std::vector<uint16_t> q; auto A = in._dfa_alphabet[d]; std::string bad;
            auto pair_ = [&](uint16_t row, uint32_t s, const std::string& why) { if (!bad.empty()) return; bool dead = s == (uint32_t)CSM::npos(); if ((row == 0) != dead) { bad = why + (dead ? ": successor missing" : ": a successor that the table does not have"); return; } if (dead) return; auto i = to.find(row); if (i == to.end()) { to[row] = s; q.push_back(row); } else if (i->second != s) bad = why + ": two states for one row"; };
            pair_(1, 0, "start"); uint16_t b = in._dfa[d][0]; pair_(b, dfa._bol_index, "line start");
            for (size_t h = 0; h < q.size() && bad.empty(); ++h) {
                uint16_t row = q[h]; auto p = &in._dfa[d][(size_t)row * A]; uint32_t si = to[row]; if (si >= dfa._states.size()) { bad = "state out of range"; break; } auto& s = dfa._states[si]; using S = typename CSM::state; auto pp = p[3] != 65535 ? S::push_pop_dfa::push_dfa : (p[0] & 4) ? S::push_pop_dfa::pop_dfa : S::push_pop_dfa::neither;
                bool e = p[0] != 0; if (s._end_state != e) { bad = "acceptance"; break; } if (e && (s._id != p[1] || s._user_id != p[2] || s._next_dfa != p[4] || s._push_pop_dfa != pp || s._push_dfa != p[3])) { bad = "id, user id or push/pop data of state " + std::to_string(si); break; }
                pair_(p[5], s._eol_index, "line end");
                for (uint32_t c : cc) { uint32_t nx = CSM::npos(); int hits = 0; for (auto& t : s._transitions) { for (auto& rg : t.second._ranges) if ((U)rg.first <= c && c <= (U)rg.second) { nx = t.first; ++hits; break; } } if (hits > 1) { bad = "two successors for one character"; break; } pair_(step(d, row, c), nx, "state " + std::to_string(si) + " character " + std::to_string(c)); }
            }
            if (bad.empty() && !mini && to.size() != dfa._states.size() && !wide) bad = "states that the table does not have";
            if (!bad.empty()) { eval(ds); fail(mini ? "minimised" : "convert", ds + w + " start state " + std::to_string(d) + ": " + bad); return; }
        }
    }
    eval(ds); sample(ds);
}
int main(int argc, char** argv) { init(argc, argv); hanglimit() = 45; while (timeleft() && !toomany()) { int k = (int)rnd(10); if (k < 7) one<char>(); else if (k < 8) one<char16_t>(); else one<char32_t>(); } return finish(); }
