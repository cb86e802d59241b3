// L12: replace() overloads against the token sequence of repeated lookup()
#define VP_NOMAIN
#define PROP 12
#include "lookup.cpp"
#include <lexertl/replace.hpp>
#include <list>
#include <iterator>
using S = std::string; using I = S::const_iterator; using P = const char*; using IDT = uint16_t;
static std::map<std::pair<size_t, size_t>, S> dummy; static S keep[4];
static S fs(I& a, I& b) { return "<" + S(a, b) + ">"; }
static S fp(P a, P b) { return "<" + S(a, b) + ">"; }
static P fc(P a, P b) { static std::list<S> l; if (l.size() > 500) l.clear(); l.push_back("<" + S(a, b) + ">"); return l.back().c_str(); }
int main(int argc, char** argv) {
    init(argc, argv);
    while (timeleft() && !toomany()) {
        std::vector<char> letters; mach m = gen<char>(false, letters); m.eoi = 0; state_machine sm; auto& d = sm.data(); d._eoi = 0; d._features = 95;
        for (auto& t : m.t) { d.add_states(1); auto i = d._dfa.size() - 1; d._lookup[i].assign(t.lk.begin(), t.lk.end()); d._dfa_alphabet[i] = (IDT)t.A; for (auto& r : t.row) for (int x : r) d._dfa[i].push_back(x == NP ? (IDT)~0 : (IDT)x); }
        for (auto& t : m.t) for (auto& r : t.row) if ((r[0] & 1) && r[1] == 0) { r[1] = 3; }   // id 0 is the end of input
        for (size_t k = 0; k < m.t.size(); ++k) { d._dfa[k].clear(); for (auto& r : m.t[k].row) for (int x : r) d._dfa[k].push_back(x == NP ? (IDT)~0 : (IDT)x); }
        S in; int len = (int)rnd(12); for (int i = 0; i < len; ++i) { char c = letters[rnd(letters.size())]; in += c ? c : 'a'; }
        S fmt; for (int i = (int)rnd(4); i > 0; --i) fmt += (char)('A' + rnd(5)); std::map<IDT, S> ms; std::map<IDT, P> mp; for (int i = 0; i < 4; ++i) { keep[i] = S(rnd(3), (char)('P' + i)); IDT id = (IDT)(chance(25) ? 65535 : 1 + rnd(6)); ms[id] = keep[i]; } for (auto& x : ms) mp[x.first] = x.second.c_str();
        std::string ds = "machine " + show(m) + " text \"" + in + "\" fmt \"" + fmt + "\" map"; for (auto& x : ms) ds += " " + std::to_string(x.first) + "->\"" + x.second + "\""; cur(ds);
        // tokens
        match_results<I, IDT> r(in.cbegin(), in.cend()); S e1, e2, e3; I last = in.cbegin(); int n = 0; bool gap = false, ok = true;
        std::map<IDT, S(*)(I&, I&)> mf; std::map<IDT, P(*)(P, P)> mq; std::map<IDT, S(*)(P, P)> mr; for (auto& x : ms) { mf[x.first] = fs; mq[x.first] = fc; mr[x.first] = fp; }
        try { for (;;) { lookup(sm, r); S g(last, r.first); e1 += g; e2 += g; e3 += g; if (r.id == 0) break; gap = gap || !g.empty(); S tok(r.first, r.second); e1 += fmt; auto f = ms.find(r.id); e2 += f == ms.end() ? tok : f->second; e3 += f == ms.end() ? tok : "<" + tok + ">"; last = r.second; if (++n > 100) { ok = false; break; } } } catch (...) { ok = false; }
        if (!ok) continue; eval(ds, n > 0 && (gap || n > 2)); if (n > 1 && C().samples < 2) sample(ds.substr(0, 400));
        auto ck = [&](const char* w, const S& g, const S& e) { if (g != e) fail(w, ds + " " + w + " gives \"" + g + "\", expected \"" + e + "\""); };
        auto viaout = [&](const char* w, const S& e, auto call) { S b; call(std::back_inserter(b)); ck((S(w) + " back_inserter").c_str(), b, e); std::vector<char> buf(e.size() + 64, '#'); char* p = call(buf.data() + 3); ck((S(w) + " pointer").c_str(), S(buf.data(), p), "###" + e); ck((S(w) + " pointer tail").c_str(), S(p, buf.data() + buf.size()), S(buf.data() + buf.size() - p, '#')); };
        P a = in.c_str(), z = a + in.size();
        viaout("str", e1, [&](auto o) { return replace(o, a, z, sm, fmt); }); viaout("cstr", e1, [&](auto o) { return replace(o, in.cbegin(), in.cend(), sm, fmt.c_str()); });
        viaout("mapstr", e2, [&](auto o) { return replace(o, a, z, sm, ms); }); viaout("mapcstr", e2, [&](auto o) { return replace(o, a, z, sm, mp); });
        viaout("mapfn", e3, [&](auto o) { return replace(o, in.cbegin(), in.cend(), sm, mf); }); viaout("mapfncstr", e3, [&](auto o) { return replace(o, a, z, sm, mq); });
        ck("string,str", replace(in, sm, fmt), e1); ck("string,cstr", replace(in, sm, fmt.c_str()), e1); ck("string,mapstr", replace(in, sm, ms), e2); ck("string,mapcstr", replace(in, sm, mp), e2); ck("string,mapfn", replace(in, sm, mf), e3); ck("string,mapfncstr", replace(in, sm, mq), e3);
        ck("cstr,str", replace(a, sm, fmt), e1); ck("cstr,cstr", replace(a, sm, fmt.c_str()), e1); ck("cstr,mapstr", replace(a, sm, ms), e2); ck("cstr,mapcstr", replace(a, sm, mp), e2); ck("cstr,mapfn", replace(a, sm, mr), e3); ck("cstr,mapfncstr", replace(a, sm, mq), e3);
    }
    return finish();
}
