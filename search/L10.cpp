// L10: the minimised machine simulates the original one state by state, and looks up the same tokens
#define VP_NOMAIN
#define PROP 10
#include "lookup.cpp"
template<typename CH, typename IDT> static void one10(const char* nm, bool look) {
    using SM = basic_state_machine<CH, IDT>; const IDT np = (IDT)~0;
    std::vector<CH> letters; mach m = gen<CH>(true, letters);
    for (auto& t : m.t) {
        if (!look && chance(10)) { t.NS = 1; t.row.resize(1); t.row[0][0] = 0; }
        // clones: equal rows, reached through redirected edges; chains of predecessors become equal in later passes
        int k = (int)rnd(6); for (int q = 0; q < k && t.NS > 1; ++q) {
            int s = (int)rint(1, t.NS - 1), c = t.NS++; t.row.push_back(t.row[s]);
            if (chance(12)) t.row[c][(int)rint(1, 2)] ^= 1;        // a near clone, distinguished by one column
            for (int x = 1; x < t.NS; ++x) for (int y = 5; y < t.A; ++y) if (y != 6 && t.row[x][y] == s && chance(40)) t.row[x][y] = c;
            if (t.row[0][0] == s && chance(50)) t.row[0][0] = c;
        }
    }
    SM sm; size_t fl = 127; auto& d = sm.data(); d.clear(); d._eoi = (IDT)m.eoi; d._features = fl;
    for (auto& t : m.t) { d.add_states(1); auto i = d._dfa.size() - 1; d._lookup[i].assign(t.lk.begin(), t.lk.end()); d._dfa_alphabet[i] = (IDT)t.A; for (auto& r : t.row) for (int x : r) d._dfa[i].push_back(x == NP ? np : (IDT)x); }
    if (chance(10)) { d.add_states(1); }                           // a start state without rules
    auto before = d; std::string ds = std::string(nm) + " machine: " + show(m); cur(ds);
    bool red = false; sm.minimise();
    auto bad = [&](const char* k, const std::string& w) { std::ostringstream o; o << ds << " after minimise: " << w; for (auto& v : d._dfa) { o << " {"; for (auto x : v) o << (unsigned long)x << " "; o << "}"; } fail(k, o.str()); };
    if (d._eoi != before._eoi || d._lookup != before._lookup || d._dfa_alphabet != before._dfa_alphabet || d._features != before._features || d._dfa.size() != before._dfa.size()) { bad("frame", "something besides the transition tables changed"); return; }
    for (size_t i = 0; i < d._dfa.size(); ++i) {
        auto& a = before._dfa[i]; auto& b = d._dfa[i]; size_t A = d._dfa_alphabet[i];
        if (!A) { if (a != b) bad("frame", "empty table changed"); continue; }
        if (b.size() > a.size()) { bad("grows", "table grew"); return; }
        if (b.size() % A || b.empty()) { bad("shape", "table is not whole rows"); return; }
        red = red || b.size() < a.size(); size_t na = a.size() / A, nb = b.size() / A;
        // state 0 dead, state 1 start, and a simulation from (1,1) and from the line starts
        std::map<size_t, size_t> mp; mp[0] = 0; std::vector<size_t> todo; bool okm = true;
        auto rel = [&](size_t x, size_t y) { if (x >= na || y >= nb) { okm = false; return; } auto f = mp.find(x); if (f == mp.end()) { mp[x] = y; todo.push_back(x); } else if (f->second != y) okm = false; };
        if (na > 1) rel(1, 1); if (!a[0] != !b[0]) okm = false; if (a[0]) rel(a[0], b[0]);
        for (size_t x = 1; x < A; ++x) if (b[x]) okm = false;
        while (okm && !todo.empty()) {
            size_t x = todo.back(); todo.pop_back(); size_t y = mp[x];
            for (size_t c = 0; c < 5; ++c) if (a[x * A + c] != b[y * A + c]) okm = false;
            for (size_t c = 5; okm && c < A; ++c) { size_t nx = a[x * A + c], ny = b[y * A + c]; if (c == 6) continue; if (!nx != !ny) okm = false; else if (nx) rel(nx, ny); }
        }
        if (!okm) { std::ostringstream o; o << "start state " << i << " is not simulated"; bad("simulation", o.str()); return; }
        // a second minimisation has nothing left to merge
    }
    eval(ds, red); if (red && C().samples < 3) sample(ds);
    if (!look) return;
    for (int rep = 0; rep < 4; ++rep) {
        std::vector<CH> in; int len = (int)rnd(12); for (int i = 0; i < len; ++i) in.push_back(letters[rnd(letters.size())]);
        std::unique_ptr<CH[]> buf(new CH[len + !len]); std::copy(in.begin(), in.end(), buf.get());
        res r; r.id = 0; r.uid = NP; r.state = (ID)rnd(m.t.size()); r.first = r.second = 0; r.bol = chance(70);
        SM old; old.data() = before; using MR = recursive_match_results<const CH*, IDT, 127>;
        bool empty = false; for (auto& v : before._dfa) if (v.size() < 2 * (before._dfa_alphabet[&v - &before._dfa[0]])) empty = true; if (empty) break;
        MR x(buf.get(), buf.get() + len, r.bol, (IDT)r.state), y = x;
        for (int call = 0; call < 2 * len + 3; ++call) {
            res w = r; int guard = 0; if (!ref_lookup(m, in, 127, w, guard) || w.thr) break;
            bool tx = false, ty = false; try { lookup(old, x); } catch (...) { tx = true; } try { lookup(sm, y); } catch (...) { ty = true; }
            if (tx != ty || !(x.id == y.id && x.user_id == y.user_id && x.first == y.first && x.second == y.second && x.bol == y.bol && x.state == y.state && x.stack == y.stack)) { std::ostringstream o; o << "lookup " << call << " differs on input"; for (auto c : in) o << " " << (unsigned long)c; bad("lookup", o.str()); return; }
            r = w; if (w.id == m.eoi && w.first == len) break;
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    while (timeleft() && !toomany()) { one10<char, uint16_t>("char u16", true); one10<char32_t, uint16_t>("char32_t u16", true); one10<char, uint8_t>("char u8", false); one10<char, uint32_t>("char u32", false); }
    return finish();
}
