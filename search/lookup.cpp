// L01-L04: lexertl::lookup against an independent interpreter of the transition tables, one call at a time
#include "common.hpp"
#include <lexertl/lookup.hpp>
#include <lexertl/state_machine.hpp>
#include <lexertl/generator.hpp>
#include <sys/wait.h>
#include <unistd.h>
using namespace vp;
#ifndef PROP
#define PROP 1
#endif
using namespace lexertl;
typedef uint16_t ID; static const ID NP = 0xffff, SK = 0xfffe;
struct tab { int A, NS; std::vector<int> lk; std::vector<std::vector<int>> row; };
struct mach { std::vector<tab> t; ID eoi; bool rec; };
struct res { ID id, uid, state; long first, second; bool bol; std::vector<std::pair<ID, ID>> st; bool thr = false;
    bool operator==(const res& o) const { return id == o.id && uid == o.uid && state == o.state && first == o.first && second == o.second && bol == o.bol && st == o.st && thr == o.thr; } };
static std::string show(const res& r) { std::ostringstream o; if (r.thr) o << "throws "; o << "id=" << r.id << " uid=" << r.uid << " [" << r.first << "," << r.second << ") state=" << r.state << " bol=" << r.bol << " stack="; for (auto& p : r.st) o << "(" << p.first << "," << p.second << ")"; return o.str(); }
static std::string show(const mach& m) { std::ostringstream o; o << "eoi=" << m.eoi; for (auto& t : m.t) { o << " | A=" << t.A << " classes:"; for (int c = 0; c < 256; ++c) if (t.lk[c] != 6) o << c << ">" << t.lk[c] << ","; for (auto& r : t.row) { o << " {"; for (int x : r) o << x << " "; o << "}"; } } return o.str(); }

// ---- the oracle: follow the tables literally, keep the longest accepting configuration
template<typename CH> static bool ref_lookup(const mach& m, const std::vector<CH>& in, size_t fl, res& r, int& guard) {
    const long N = (long)in.size(); const bool BOL = fl & 1, EOL = fl & 2, MULTI = fl & 16, ADV = fl & 64;
    long first = r.second, pos = r.second; ID state = r.state; bool bol = r.bol;
    for (;;) {
        if (++guard > 400) return false;
        if (pos == N) { r.id = m.eoi; r.uid = NP; r.first = first; r.second = pos; r.state = state; r.bol = bol; return true; }
        const tab& t = m.t[state];
        int cur = 1, acc = t.row[1][0] ? 1 : 0; long apos = pos; bool abol = bol; if (BOL && bol && t.row[0][0]) cur = t.row[0][0];
        long c = pos; bool b = bol; bool stopped = false;
        while (c < N) {
            CH ch = in[c]; int e = t.row[cur][5];
            if (EOL && e && (ch == 13 || ch == 10)) { cur = e; }
            else {
                int nx = cur; int nb = sizeof(CH) == 1 ? 1 : sizeof(CH) == 2 ? 2 : 3;
                for (int k = nb - 1; k >= 0 && nx; --k) nx = t.row[nx][t.lk[((uint32_t)(typename std::make_unsigned<CH>::type)ch >> (8 * k)) & 255]];
                if (!nx) { stopped = true; break; }
                cur = nx; ++c; b = ch == 10;
            }
            if (t.row[cur][0]) { acc = cur; apos = c; abol = b; }
        }
        if (!stopped && EOL && t.row[cur][5]) { cur = t.row[cur][5]; if (t.row[cur][0]) { acc = cur; apos = c; abol = b; } }
        if (!acc) { r.id = NP; r.uid = NP; r.first = pos; r.second = pos + (ADV ? 1 : 0); r.bol = in[pos] == 10; r.state = state; return true; }
        const auto& a = t.row[acc]; ID nstate = MULTI ? (ID)a[4] : state; bool pop = (a[0] & 4) != 0; bool top_eoi = false;
        if (m.rec) {
            if (pop) {
                if (r.st.empty()) { r.thr = true; return true; }
                nstate = r.st.back().first; r.st.pop_back(); top_eoi = !r.st.empty() && r.st.back().second == m.eoi;
            } else if (a[3] != NP) r.st.push_back({ (ID)a[3], (ID)a[1] });
        }
        state = nstate; if (BOL) bol = abol;
        if (a[1] == SK) { first = pos = apos; continue; }
        if (a[1] == m.eoi || top_eoi) { pos = apos; continue; }
        r.id = (ID)a[1]; r.uid = (ID)a[2]; r.first = first; r.second = apos; r.state = state; r.bol = bol; return true;
    }
}
template<typename CH> static mach gen(bool rec, std::vector<CH>& letters) {
    mach m; m.rec = rec; int n = (int)rint(1, 3); m.eoi = chance(80) ? 0 : (ID)rint(1, 3);
    const CH cand[] = { 'a', 'b', 'c', '\n', '\r', (CH)0xff, (CH)0x80, (CH)(sizeof(CH) > 1 ? 0x1261 : 'd'), (CH)(sizeof(CH) > 2 ? 0x10161 : 'e'), (CH)0x0a0a, (CH)0x6161 };
    letters.clear(); int k = (int)rint(2, 4); for (int i = 0; i < k; ++i) letters.push_back(cand[rnd(11)]); if (chance(60)) letters.push_back('\n');
    for (int s = 0; s < n; ++s) {
        tab t; t.NS = (int)rint(2, 7); t.A = 7 + (int)rint(1, 4); t.lk.assign(256, 6);
        std::set<int> bs; for (auto c : letters) for (size_t q = 0; q < (sizeof(CH) > 3 ? 3 : sizeof(CH)); ++q) bs.insert(((uint32_t)(typename std::make_unsigned<CH>::type)c >> (8 * q)) & 255);
        for (int b : bs) if (chance(90)) t.lk[b] = 7 + (int)rnd(t.A - 7);
        for (int x = 0; x < t.NS; ++x) {
            std::vector<int> r(t.A, 0);
            for (int c = 7; c < t.A; ++c) r[c] = chance(70) ? (int)rnd(t.NS) : 0;
            if (x && chance(x == 1 ? 20 : 45)) { r[0] = 1 + (chance(50) ? 2 : 0) + (rec && chance(25) ? 4 : 0); r[1] = chance(15) ? SK : chance(8) ? m.eoi : (int)rint(1, 5); r[2] = chance(50) ? NP : (int)rnd(9); r[3] = rec && chance(30) ? (int)rnd(n) : NP; r[4] = (int)rnd(n); }
            else if (x) { r[1] = 0; r[2] = 0; r[3] = 0; r[4] = 0; }
            t.row.push_back(r);
        }
        std::fill(t.row[0].begin(), t.row[0].end(), 0);
        if (chance(40)) t.row[0][0] = (int)rint(1, t.NS - 1);
        // end-of-line links lead to states without a link
        std::vector<int> link(t.NS, 0); for (int x = 1; x < t.NS; ++x) link[x] = chance(35);
        for (int x = 1; x < t.NS; ++x) if (link[x]) { int y = (int)rint(1, t.NS - 1); if (!link[y]) t.row[x][5] = y; }
        // empty matches carry neither skip nor continue nor a pop
        std::vector<int> z{ 1, t.row[1][5], t.row[0][0] ? t.row[t.row[0][0]][5] : 0 };
        for (int x : z) if (x && t.row[x][0]) { t.row[x][0] &= ~4; if (t.row[x][1] == SK || t.row[x][1] == m.eoi) t.row[x][1] = 6; }
        m.t.push_back(t);
    }
    return m;
}
template<typename SM> static void fill(SM& sm, const mach& m, size_t fl) {
    auto& d = sm.data(); d.clear(); d._eoi = m.eoi; d._features = fl;
    for (auto& t : m.t) { d.add_states(1); auto i = d._dfa.size() - 1; d._lookup[i].assign(t.lk.begin(), t.lk.end()); d._dfa_alphabet[i] = (ID)t.A; for (auto& r : t.row) for (int x : r) d._dfa[i].push_back((ID)x); }
}
template<typename R> static void setst(R&, const res&, std::false_type) {}
template<typename R> static void setst(R& r, const res& x, std::true_type) { while (!r.stack.empty()) r.stack.pop(); for (auto& p : x.st) r.stack.emplace(p.first, p.second); }
template<typename R> static void getst(const R&, res&, std::false_type) {}
template<typename R> static void getst(const R& r, res& x, std::true_type) { auto s = r.stack; x.st.clear(); while (!s.empty()) { x.st.insert(x.st.begin(), s.top()); s.pop(); } }

template<typename CH, bool REC, size_t FL> static void one(const char* nm) {
    using SM = basic_state_machine<CH>;
    using MR = typename std::conditional<REC, recursive_match_results<const CH*, uint16_t, FL | (REC ? 32 : 0)>, match_results<const CH*, uint16_t, FL>>::type;
    std::vector<CH> letters; mach m = gen<CH>(REC, letters); SM sm; fill(sm, m, FL | (REC ? 32 : 0));
    for (int rep = 0; rep < 12; ++rep) {
        std::vector<CH> in; int len = (int)rnd(rep < 6 ? 6 : 14); for (int i = 0; i < len; ++i) in.push_back(letters[rnd(letters.size())]);
        // an exact-size heap copy: reading the end of the input is a heap overflow
        std::unique_ptr<CH[]> buf(new CH[len + !len]); std::copy(in.begin(), in.end(), buf.get());
        res r; r.id = (ID)rnd(6); r.uid = chance(30) ? NP : (ID)rnd(9); r.state = (ID)rnd(m.t.size()); r.first = r.second = 0; r.bol = chance(70);
        if (REC) for (int i = (int)rnd(3); i > 0; --i) r.st.push_back({ (ID)rnd(m.t.size()), (ID)rnd(5) });
        for (int call = 0; call < 2 * len + 4; ++call) {
            res want = r; int guard = 0;
            if (!ref_lookup(m, in, FL, want, guard)) break;      // such a machine loops by definition: outside the precondition
            std::ostringstream o; o << nm << " machine: " << show(m) << " input:"; for (auto c : in) o << " " << (unsigned long)(typename std::make_unsigned<CH>::type)c; o << " before: " << show(r); cur(o.str());
            MR mr(buf.get(), buf.get() + len, r.bol, r.state); mr.first = buf.get() + r.first; mr.second = buf.get() + r.second; mr.id = r.id; mr.user_id = r.uid; setst(mr, r, std::integral_constant<bool, REC>());
            res got; got.thr = false; bool other = false;
            try { lookup(sm, mr); } catch (const lexertl::runtime_error&) { got.thr = true; } catch (...) { other = true; }
            got.id = mr.id; got.uid = mr.user_id; got.state = mr.state; got.first = mr.first - buf.get(); got.second = mr.second - buf.get(); got.bol = mr.bol; getst(mr, got, std::integral_constant<bool, REC>());
            eval(o.str(), want.id != NP && want.second > want.first);
            std::string d = C().cur + " lookup gives: " + show(got) + " expected: " + show(want);
            if (other) { fail("exception", d); return; }
            if (mr.eoi != buf.get() + len && PROP == 2) { fail("eoi-moved", d); return; }
            if (got.thr || want.thr) {
                if (PROP == 4 && (got.thr != want.thr || got.st != want.st || got.second < r.second || got.second > (long)in.size() )) { fail("stack-underflow", d); return; }
                break;
            }
            if (PROP == 1 && (got.id != want.id || got.uid != want.uid || got.second != want.second)) { fail("longest-match", d); return; }
            if (PROP == 2) {
                if (!(got.first <= got.second && got.second <= len && got.first >= r.second) || got.first != want.first) { fail("bounds", d); return; }
                if (got.second != want.second && got.second <= r.second) { fail("progress", d); return; }
                if ((r.second == len) && !(got.id == m.eoi && got.uid == NP && got.first == len && got.second == len)) { fail("eoi", d); return; }
                if (want.first == want.second - 1 && want.id == NP && want.uid == NP && got.second != want.second) { fail("one-character", d); return; }
            }
            if (PROP == 3 && (got.state != want.state || got.bol != want.bol)) { fail("state-or-bol", d); return; }
            if (PROP == 4 && got.st != want.st) { fail("stack", d); return; }
            if (PROP == 4 && got.state != want.state) { fail("popped-state", d); return; }
            if (C().samples < 3 && want.id != NP && want.second > want.first + 1) sample(d);
            bool done = want.id == m.eoi && want.second == len && r.second == len; r = want; if (done) break;
        }
    }
}
#ifndef VP_NOMAIN
int main(int argc, char** argv) {
    init(argc, argv);
    if (PROP == 2 && C().shard == 0) {          // a rule that skips the empty match of $ at the end of a line
        fflush(stdout); pid_t p = fork(); if (!p) { lexertl::rules r; lexertl::state_machine sm; r.push("$", lexertl::rules::skip()); r.push("(?s:.)", 1); lexertl::generator::build(r, sm); std::string t = "\n"; lexertl::smatch m(t.cbegin(), t.cend()); lexertl::lookup(sm, m); _exit(0); }
        int st = 0, w = 0; for (int i = 0; i < 40 && (w = waitpid(p, &st, WNOHANG)) == 0; ++i) usleep(100000);
        if (!w) { kill(p, SIGKILL); waitpid(p, &st, 0); fail("skip-empty-eol", "push(\"$\", skip()), input \"\\n\": lookup does not return"); }
    }
    while (timeleft() && !toomany()) {
        one<char, true, 127>("char recursive"); one<char, false, 95>("char"); one<char32_t, true, 127>("char32_t recursive");
        if (PROP != 4) { one<char16_t, false, 95>("char16_t"); one<char, false, 64>("char advance only"); one<char, false, 0>("char no flags"); one<char32_t, false, 95>("char32_t"); }
    }
    return finish();
}
#endif
