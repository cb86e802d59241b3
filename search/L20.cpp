// L20: lexertl::iterator against repeated lookup() on the same range
#define VP_NOMAIN
#define PROP 20
#include "lookup.cpp"
#include <lexertl/iterator.hpp>
template<typename MR> static bool same(const MR& a, const MR& b, std::false_type) { return a == b && a.bol == b.bol; }
template<typename MR> static bool same(const MR& a, const MR& b, std::true_type) { return a == b && a.stack == b.stack; }
template<typename MR> static std::string sh(const MR& a, const typename MR::iter_type& b) { std::ostringstream o; o << "id=" << a.id << " uid=" << a.user_id << " [" << (a.first - b) << "," << (a.second - b) << ") eoi=" << (a.eoi - b) << " bol=" << a.bol << " state=" << a.state; return o.str(); }
template<typename CH, bool REC, size_t FL> static void one20(const char* nm) {
    using SM = basic_state_machine<CH>;
    using MR = typename std::conditional<REC, recursive_match_results<const CH*, uint16_t, FL | (REC ? 32 : 0)>, match_results<const CH*, uint16_t, FL>>::type;
    using IT = lexertl::iterator<const CH*, SM, MR>; using RT = std::integral_constant<bool, REC>;
    std::vector<CH> letters; mach m = gen<CH>(REC, letters); SM sm; fill(sm, m, FL | (REC ? 32 : 0));
    for (int rep = 0; rep < 12; ++rep) {
        std::vector<CH> in; int len = (int)rnd(rep < 6 ? 5 : 12); for (int i = 0; i < len; ++i) in.push_back(letters[rnd(letters.size())]);
        std::unique_ptr<CH[]> buf(new CH[len + !len]); std::copy(in.begin(), in.end(), buf.get());
        bool def = chance(30), bol = def || chance(60); ID st = def ? 0 : (ID)rnd(m.t.size()); const CH* b = buf.get(); const CH* e = b + len;
        // the tokens by repeated lookup; stop where the machine loops or throws by definition
        res r; r.id = 0; r.uid = NP; r.state = st; r.first = r.second = 0; r.bol = bol; int guard = 0; size_t n = 0; bool whole = false;
        while (n < 40) { res w = r; if (!ref_lookup(m, in, FL, w, guard) || w.thr) break; r = w; ++n; if (w.first == len) { whole = true; break; } }
        if (!n) continue;
        std::ostringstream o; o << nm << " machine: " << show(m) << " input:"; for (auto c : in) o << " " << (unsigned long)(typename std::make_unsigned<CH>::type)c; o << " state=" << st << " bol=" << bol; cur(o.str());
        std::vector<MR> want; MR mr(b, e, bol, st); try { for (size_t i = 0; i < n; ++i) { lookup(sm, mr); want.push_back(mr); } } catch (...) { continue; }
        if (whole != (want.back().first == e)) continue;     // lookup itself is judged by L01-L04
        eval(o.str(), n >= 2);
        IT end, it = def ? IT(b, e, sm) : IT(b, e, sm, bol, st);
        try { for (size_t i = 0; i < want.size(); ++i) {
            std::string d = C().cur + " token " + std::to_string(i) + " iterator: " + sh(*it, b) + " repeated lookup: " + sh(want[i], b);
            if (!same(*it, want[i], RT()) || it->id != want[i].id) { fail("token", d); return; }
            bool isend = want[i].first == e;
            if ((it == end) != isend || (it != end) == isend || (end == it) != isend) { fail("end", d); return; }
            if (!isend && &it.sm() != &sm) { fail("sm", d); return; }
            if (isend) break;
            if (i + 1 == want.size()) break;
            IT before = it; MR old = *it;
            switch (rnd(3)) {
            case 0: { IT& x = ++it; if (&x != &it) { fail("pre-increment", d); return; } break; }
            case 1: { IT x = it++; if (!same(*x, old, RT()) || x == end || x != before) { fail("post-increment", d); return; } break; }
            default: { IT x = it; ++x; if (!same(*it, old, RT()) || it != before) { fail("copy", d); return; } it = x; }
            }
            if (!same(*before, old, RT())) { fail("copy", d); return; }
            if (before == it && !(old == *it)) { fail("equality", d); return; }
        }
        } catch (...) { fail("exception", C().cur); return; }
        if (C().samples < 3 && n > 2) sample(C().cur);
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    while (timeleft() && !toomany()) { one20<char, false, 95>("citerator"); one20<char, true, 127>("criterator"); one20<char32_t, false, 95>("u32citerator"); one20<char32_t, true, 127>("u32criterator"); one20<char16_t, false, 95>("char16_t"); }
    return finish();
}
