// L11: save / load round trip of random machines
#include "common.hpp"
#include <sstream>
#include <lexertl/state_machine.hpp>
#include <lexertl/serialise.hpp>
using namespace vp; using namespace lexertl;
template<typename ID> static ID val() { switch (rnd(6)) { case 0: return 0; case 1: return (ID)~0; case 2: return (ID)(9 + rnd(5)); case 3: return (ID)(rnd(2) ? 32 : 48 + rnd(10)); default: return (ID)rnd((uint64_t)1 << (8 * sizeof(ID) < 32 ? 8 * sizeof(ID) : 32)); } }
template<typename ID> static std::vector<ID> vec(size_t n) { std::vector<ID> v; while (n--) v.push_back(val<ID>()); return v; }
template<typename CH, typename ID> static void one(const char* nm) {
    using SM = basic_state_machine<CH, ID>; SM a, b; auto& d = a.data();
    auto fill = [](auto& d) { d._eoi = val<ID>(); d._features = val<ID>(); size_t nl = rnd(4), nd = chance(80) ? nl : rnd(4); for (size_t i = 0; i < nl; ++i) d._lookup.push_back(vec<ID>(chance(50) ? 256 : rnd(30))); d._dfa_alphabet = vec<ID>(nd); for (size_t i = 0; i < nd; ++i) d._dfa.push_back(vec<ID>(chance(10) ? rnd(500) : rnd(60))); };
    fill(d); if (chance(70)) fill(b.data()); auto before = d;
    std::ostringstream ds; ds << nm << " machine eoi " << (unsigned long)d._eoi << " features " << (unsigned long)d._features << " lookup"; for (auto& v : d._lookup) { ds << " ["; for (auto x : v) ds << (unsigned long)x << " "; ds << "]"; } ds << " dfa"; for (auto& v : d._dfa) { ds << " ["; for (auto x : v) ds << (unsigned long)x << " "; ds << "]"; } cur(ds.str());
    std::stringstream ss; bool pre = chance(30); if (pre) ss << "17 "; lexertl::save(a, ss); ss << "4711";
    eval(ds.str(), !d._dfa.empty()); if (C().samples < 2) sample(ds.str().substr(0, 300));
    if (!(d._eoi == before._eoi && d._lookup == before._lookup && d._dfa == before._dfa && d._dfa_alphabet == before._dfa_alphabet && d._features == before._features)) { fail("source", ds.str() + " saving changed the machine"); return; }
    size_t t = 0; if (pre) { ss >> t; if (t != 17) { fail("prefix", ds.str()); return; } }
    try { lexertl::load(ss, b); } catch (const std::exception& e) { fail("throws", ds.str() + " load threw " + e.what()); return; }
    auto& g = b.data(); const char* w = g._eoi != d._eoi ? "eoi" : g._lookup != d._lookup ? "lookup" : g._dfa_alphabet != d._dfa_alphabet ? "alphabet" : g._features != d._features ? "features" : g._dfa != d._dfa ? "dfa" : nullptr;
    if (w) { fail(w, ds.str() + " differs after loading: " + w); return; }
    size_t tail = 0; ss >> tail; if (!ss || tail != 4711) { fail("tail", ds.str() + " load did not stop at the end of the machine"); return; }
    // another id type is refused
    ss.clear(); ss.str(""); lexertl::save(a, ss); basic_state_machine<CH, uint64_t> o; bool thr = false; try { lexertl::load(ss, o); } catch (const runtime_error&) { thr = true; } if (!thr && sizeof(ID) != 8) fail("idtype", ds.str() + " loaded into another id type");
}
int main(int argc, char** argv) { init(argc, argv); while (timeleft() && !toomany()) { one<char, uint8_t>("u8"); one<char, uint16_t>("u16"); one<char, uint32_t>("u32"); one<char, uint64_t>("u64"); } return finish(); }
