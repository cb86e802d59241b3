#include "common.hpp"
#include <lexertl/string_token.hpp>
using namespace vp;
// oracle: plain interval lists, membership evaluated point-wise over every endpoint and its neighbours
typedef std::vector<std::pair<uint64_t, uint64_t>> iv;
static bool in(const iv& v, uint64_t x) { for (auto& p : v) if (p.first <= x && x <= p.second) return true; return false; }
template<typename T> static iv get(const T& t) { iv v; for (auto& r : t._ranges) v.push_back({ (uint64_t)r.first, (uint64_t)r.second }); return v; }
static std::string show(const iv& v) { std::ostringstream o; o << "{"; for (auto& p : v) o << std::hex << p.first << "-" << p.second << " "; o << "}"; return o.str(); }
template<typename CH> struct H {
    using T = lexertl::basic_string_token<CH>; using R = typename T::range; using I = typename T::index_type;
    uint64_t MAX = (uint64_t)lexertl::basic_char_traits<CH>::max_val() ;
    std::vector<uint64_t> pts; 
    void points(std::initializer_list<const iv*> l) {
        std::set<uint64_t> s{ 0, 1, MAX, MAX - 1 };
        for (auto* v : l) for (auto& p : *v) for (int d = -2; d <= 2; ++d) { s.insert((p.first + d)); s.insert((p.second + d)); }
        pts.clear(); for (auto x : s) if (x <= MAX) pts.push_back(x);
    }
    bool normal(const iv& v) { for (size_t i = 0; i < v.size(); ++i) { if (v[i].first > v[i].second || v[i].second > MAX) return false; if (i && v[i - 1].second + 1 >= v[i].first) return false; } return true; }
    uint64_t rp(int mode) {
        if (MAX <= 255 && mode == 2) return rnd(256);
        switch (mode) { case 0: return rnd(12); case 1: return MAX - rnd(12); case 2: return rnd(MAX + 1); default: return (MAX / 2) + rnd(8) - 4; }
    }
    std::pair<uint64_t, uint64_t> rr(int mode) { auto a = rp(chance(85) ? mode : (int)rnd(4)), b = chance(50) ? std::min(MAX, a + rnd(4)) : rp(mode); if (a > b) std::swap(a, b); return { a, b }; }
    // set-function oracle: build(list) normalised
    iv norm(iv v) { std::sort(v.begin(), v.end()); iv o; for (auto& p : v) { if (!o.empty() && (o.back().second >= p.first || o.back().second + 1 == p.first)) o.back().second = std::max(o.back().second, p.second); else o.push_back(p); } return o; }
    T make(const iv& v) { T t; for (auto& p : v) t.insert(R((I)p.first, (I)p.second)); return t; }
    iv rnds(int mode) { iv v; int n = (int)rnd(7); for (int i = 0; i < n; ++i) v.push_back(rr(mode)); return v; }
    void one(const char* nm) {
        int mode = (int)rnd(4);
        iv a = rnds(mode), b = rnds(mode);
        std::string d = std::string(nm) + " a=" + show(a) + " b=" + show(b); cur(d);
        T ta; iv acc;
        for (auto& p : a) {
            auto it = ta.insert(R((I)p.first, (I)p.second)); acc.push_back(p);
            if (get(ta) != norm(acc)) { fail("insert", d + " after inserting " + show(acc) + " holds " + show(get(ta))); return; }
            (void)it;
        }
        T tb = make(b); iv na = norm(a), nb = norm(b);
        if (get(tb) != nb) { fail("insert", d); return; }
        { T u = ta; u.insert(tb); iv all = a; all.insert(all.end(), b.begin(), b.end()); if (get(u) != norm(all)) { fail("insert-token", d + " gives " + show(get(u))); return; } }
        { T n = ta; n.negate(); iv g = get(n); points({ &na, &g }); if (!normal(g)) { fail("negate-normal", d + " gives " + show(g)); return; }
          for (auto x : pts) if (in(g, x) == in(na, x)) { fail("negate", d + " gives " + show(g) + " wrong at " + std::to_string(x)); return; }
          n.negate(); if (get(n) != na) { fail("negate-twice", d); return; } }
        { T l = ta, r = tb, o; if (chance(20)) { iv ov = rnds(mode); iv keep; for (auto& p : norm(ov)) keep.push_back(p); o = make(keep); }
          iv o0 = get(o);
          l.intersect(r, o); iv gl = get(l), gr = get(r), go = get(o); points({ &na, &nb, &o0, &gl, &gr, &go });
          if (!normal(go) || !normal(gl) || !normal(gr)) { fail("intersect-normal", d + " l=" + show(gl) + " r=" + show(gr) + " o=" + show(go)); return; }
          for (auto x : pts) { bool A = in(na, x), B = in(nb, x), O = in(o0, x);
              if (in(gl, x) != (A && !B) || in(gr, x) != (B && !A) || in(go, x) != (O || (A && B))) { fail("intersect", d + " l=" + show(gl) + " r=" + show(gr) + " o=" + show(go) + " wrong at " + std::to_string(x)); return; } } }
        { T l = ta, r = tb; l.remove(r); iv gl = get(l); points({ &na, &nb, &gl });
          if (!normal(gl)) { fail("remove-normal", d); return; }
          if (get(r) != nb) { fail("remove-changes-argument", d); return; }
          for (auto x : pts) if (in(gl, x) != (in(na, x) && !in(nb, x))) { fail("remove", d + " gives " + show(gl)); return; } }
        if (ta.empty() != na.empty() || ta.size() != na.size()) fail("size", d);
        bool any = na.size() == 1 && na[0].first == 0 && na[0].second == MAX;
        if (ta.any() != any) fail("any", d);
        if ((ta == tb) != (na == nb)) fail("equal", d);
        { T e = ta; e.clear(); if (!e.empty()) fail("clear", d); }
        uint64_t cnt = 0; for (auto& p : na) cnt += p.second - p.first + 1;
        if (ta.negatable() != (cnt > MAX / 2)) fail("negatable", d);
        { I x = (I)rp(mode); T s{ (CH)x }; if (get(s) != iv{ { x, x } }) fail("ctor1", d + " " + std::to_string((uint64_t)x)); auto p = rr(mode); T s2{ (CH)p.first, (CH)p.second }; if (get(s2) != iv{ p }) fail("ctor2", d + " " + show(iv{ p })); }
        eval(d, !a.empty() && !b.empty()); sample(d);
    }
};
int main(int argc, char** argv) {
    init(argc, argv);
    H<char> a; H<char16_t> b; H<char32_t> e; H<wchar_t> w;
    // exhaustive: all pairs of subsets of a 6 point window at both ends of the alphabet
    while (timeleft() && !toomany()) { for (int i = 0; i < 50; ++i) { a.one("char"); b.one("char16_t"); e.one("char32_t"); if (i % 4 == 0) { w.one("wchar_t"); } } }
    return finish();
}
