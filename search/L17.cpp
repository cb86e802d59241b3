// L17: escapes through rules + generator + lookup against their definition
#include "common.hpp"
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
using namespace vp;
template<class RC, class CT> struct T {
    using rules = lexertl::basic_rules<RC, CT>; using sm = lexertl::basic_state_machine<CT>; using str = std::basic_string<CT>; using rstr = std::basic_string<RC>;
    static constexpr uint64_t mx = sizeof(CT) == 1 ? 255 : sizeof(CT) == 2 ? 65535 : 0x10ffff;
    // form 0: escape alone + follower; 1: in a set; 2: as both ends of a range
    static void one(const std::string& e, bool ok, uint64_t v, const std::string& follow, int form) {
        std::string re = form == 0 ? e + follow : form == 1 ? "[" + e + follow + "]" : form == 2 ? "[" + e + "-" + e + "]" + follow : "[^" + e + "]";
        std::string ds = "char size " + std::to_string(sizeof(CT)) + " regex \"" + esc(re) + "\""; cur(ds);
        if (ok && (v == '\n' || v == 0) && form == 3) return;
        rules r; sm m; bool threw = false;
        try { r.push(rstr(re.begin(), re.end()), 1); lexertl::basic_generator<rules, sm>::build(r, m); } catch (const lexertl::runtime_error&) { threw = true; }
        eval(ds, ok && !follow.empty());
        if (threw != !ok) return fail(ok ? "rejected" : "accepted", ds + (ok ? " is rejected" : " is accepted"));
        if (!ok) return;
        auto match = [&](str t, size_t want, const char* w) { lexertl::match_results<typename str::const_iterator> x(t.cbegin(), t.cend()); lexertl::lookup(m, x); size_t got = x.id == 1 ? (size_t)(x.second - x.first) : 0;
            if (got != want) fail(w, ds + " value " + std::to_string(v) + " on text with first code " + std::to_string((uint64_t)(typename std::make_unsigned<typename std::conditional<sizeof(CT) == 1, char, typename std::conditional<sizeof(CT) == 2, int16_t, int32_t>::type>::type>::type)t[0]) + " matches " + std::to_string(got) + ", expected " + std::to_string(want)); };
        str t(1, (CT)v), f(follow.begin(), follow.end());
        if (form == 0 || form == 2) match(t + f, 1 + f.size(), "value"); else if (form == 1) match(t, 1, "value"); else match(t, 0, "value");
        uint64_t o = chance(50) ? v ^ (1u << rnd(sizeof(CT) == 1 ? 8 : 16)) : rnd(mx + 1); if (o == v || o > mx || (form == 1 && follow.find((char)o) != std::string::npos && o < 128)) return;
        if (form == 3) match(str(1, (CT)o), 1, "value"); else if (form == 1) match(str(1, (CT)o), 0, "value"); else match(str(1, (CT)o) + f, 0, "value");
    }
    static void batch() {
        int form = (int)rnd(4); std::string follow = form == 3 ? "" : chance(70) ? std::string(1, "Zzg!89"[rnd(6)]) : "";
        std::string e = "\\"; uint64_t v = 0; bool ok = true; int k = (int)rnd(10);
        if (k < 3) { int n = 1 + (int)rnd(3); for (int i = 0; i < n; ++i) { int d = (int)rnd(8); e += (char)('0' + d); v = v * 8 + d; } if (n == 3 && form != 3 && chance(50)) follow = std::string(1, (char)('0' + rnd(8))); ok = v <= mx; }
        else if (k < 4) { static const char* s = "abefnrtv"; static const int vs[] = {7, 8, 27, 12, 10, 13, 9, 11}; int i = (int)rnd(8); e += s[i]; v = vs[i]; }
        else if (k < 5) { static const char* s = "\"./*+?()[]{}|^$-\\ghijklmoquyzABCEFGHIJKLMNOQRTUVXYZ;,_~&%#@!:=<>"; e += s[rnd(strlen(s))]; v = (unsigned char)e[1]; }
        else if (k < 6) { e += 'c'; int c = 33 + (int)rnd(94); e += (char)c; if (isalpha(c)) v = toupper(c) - 64; else if (c == '@') v = 0; else ok = false; }
        else { e += 'x'; int n = 1 + (int)rnd(chance(30) ? 40 : 7); if (chance(3)) n = 0; int z = chance(40) ? (int)rnd(n + 1) : 0; bool big = false; std::string p;
            if (chance(25)) { uint64_t b = mx - 2 + rnd(5); char q[20]; snprintf(q, 20, chance(50) ? "%lx" : "%lX", b); p = std::string(rnd(20), '0') + q; } else if (chance(15)) { char q[40]; snprintf(q, 40, "%lx%016lx", 1 + rnd(255), rnd(mx + 1)); p = q; }
            else for (int i = 0; i < n; ++i) p += i < z ? '0' : "0123456789abcdefABCDEF"[rnd(22)];
            if (p.empty()) { ok = false; follow = "Z"; } for (char c : p) { v = v * 16 + (isdigit(c) ? c - '0' : tolower(c) - 'a' + 10); if (v > mx) { big = true; v = mx + 1; } } if (big) ok = false; e += p; if (follow == "8" || follow == "9") follow = form == 3 ? "" : "g"; }
        if (k < 3 && follow == "8") {} one(e, ok, v, follow, form);
    }
};
int main(int argc, char** argv) {
    init(argc, argv);
    while (timeleft() && !toomany()) switch (rnd(5)) { case 0: T<char, char>::batch(); break; case 1: T<wchar_t, wchar_t>::batch(); break; case 2: T<char32_t, char32_t>::batch(); break; case 3: T<char, char16_t>::batch(); break; default: T<char, char32_t>::batch(); }
    return finish();
}
