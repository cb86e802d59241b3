#include "common.hpp"
#include <lexertl/utf_iterators.hpp>
using namespace vp;
template<typename U> static std::basic_string<U> enc(uint32_t c) {
    std::basic_string<U> s;
    if (c < 0x10000) s += (U)c; else { c -= 0x10000; s += (U)(0xd800 + (c >> 10)); s += (U)(0xdc00 + (c & 0x3ff)); }
    return s;
}
template<typename U> static std::string show(const std::basic_string<U>& s) { std::ostringstream o; o << "units"; for (auto c : s) o << " " << std::hex << (uint32_t)c; return o.str(); }
template<typename U> static int dec(const std::basic_string<U>& s, size_t i, uint32_t& c) {
    uint32_t a = (uint32_t)s[i]; bool more = i + 1 < s.size(); uint32_t b = more ? (uint32_t)s[i + 1] : 0;
    if (a > 0xffff) return 0;
    if (a < 0xd800 || a > 0xdfff) { c = a; return 1; }
    if (a <= 0xdbff && more && b >= 0xdc00 && b <= 0xdfff) { c = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00); return 2; }
    return 0;
}
template<typename U> static void run(const std::basic_string<U>& s, bool arith) {
    using I = lexertl::basic_utf16_in_iterator<const U*, char32_t>;
    std::string d = show(s); cur("utf16 " + d);
    std::unique_ptr<U[]> buf(new U[s.size() ? s.size() : 1]); std::copy(s.begin(), s.end(), buf.get());
    const U* b = buf.get(); const U* e = b + s.size();
    size_t i = 0; std::vector<uint32_t> cps; std::vector<size_t> pos; bool bad = false;
    while (i < s.size()) { uint32_t c; int n = dec(s, i, c); if (!n) { bad = true; break; } cps.push_back(c); pos.push_back(i); i += n; }
    pos.push_back(i);
    for (int mode = 0; mode < 2; ++mode) {
        size_t k = 0;
        try {
            I it(b, e), end(e, e); size_t steps = 0;
            while (it != end) {
                if (++steps > s.size() + 1) { fail("utf16-terminate", d); return; }
                if (k < cps.size()) {
                    if ((uint32_t)*it != cps[k]) { fail("utf16-decode", d + " index " + std::to_string(k)); return; }
                    // position: equal to an iterator built there
                    I p(b + pos[k], e); if (!(it == p)) { fail("utf16-pos", d + " index " + std::to_string(k)); return; }
                }
                if (mode) { I old = it++; if (k < cps.size()) { I p(b + pos[k], e); if ((uint32_t)*old != cps[k] || old != p) { fail("utf16-postinc", d); return; } } } else ++it;
                ++k;
            }
            if (k < cps.size() || (!bad && k != cps.size())) { fail("utf16-count", d + " yields " + std::to_string(k)); return; }
        }
        catch (const std::range_error&) { if (!bad || k + 1 < cps.size()) { fail("utf16-reject", d); return; } }
    }
    if (!bad && arith)
        for (size_t a = 0; a <= cps.size(); ++a) for (size_t z = 0; z <= cps.size(); ++z) {
            I it(b, e); it = it + a; I r = z >= a ? it + (z - a) : it - (a - z); I p(b + pos[z], e);
            if (r != p || (z < cps.size() && (uint32_t)*r != cps[z])) { fail("utf16-arith", d + " from " + std::to_string(a) + " to " + std::to_string(z)); return; }
            if (z < cps.size()) { ++r; I q(b + pos[z + 1], e); if (r != q) { fail("utf16-arith", d + " increment after move"); return; } }
        }
}
template<typename U> static void encode(const std::u32string& s) {
    using O = lexertl::basic_utf16_out_iterator<const char32_t*, U>;
    std::basic_string<U> want; for (auto c : s) want += enc<U>(c);
    std::unique_ptr<char32_t[]> buf(new char32_t[s.size() ? s.size() : 1]); std::copy(s.begin(), s.end(), buf.get());
    const char32_t* b = buf.get(); std::string d = "code points " + show(s); cur("encode " + d);
    for (int mode = 0; mode < 2; ++mode) {
        std::basic_string<U> got; O it(b, b + s.size()), end(b + s.size(), b + s.size());
        while (it != end) {
            if (got.size() > want.size()) break;
            U ch = *it;
            if (mode) { O old = it++; if (*old != ch) { fail("utf16-out-postinc", d); return; } } else ++it;
            got += ch;
        }
        if (got != want) { fail("utf16-encode", d + " encoded as " + show(got)); return; }
        if (!(it == end)) fail("utf16-out-end", d);
    }
    run<U>(want, false);
}
// chained converters and the byte-order iterator
static void chains(const std::u32string& u) {
    std::u16string s; for (auto c : u) s += enc<char16_t>(c);
    std::string d = "chain " + show(s); cur(d);
    std::unique_ptr<char16_t[]> b(new char16_t[s.size() ? s.size() : 1]); std::copy(s.begin(), s.end(), b.get());
    using A = lexertl::cutf16_in_utf32_out_iterator; using B = lexertl::cutf16_in_utf8_out_iterator;
    A f(b.get(), b.get() + s.size()), l(b.get() + s.size(), b.get() + s.size());
    std::string bytes; for (B it(f, l), e(l, l); it != e; ++it) bytes += *it;
    std::unique_ptr<char[]> cb(new char[bytes.size() ? bytes.size() : 1]); std::copy(bytes.begin(), bytes.end(), cb.get());
    using X = lexertl::cutf8_in_utf32_out_iterator; using Y = lexertl::cutf8_in_utf16_out_iterator;
    X p(cb.get(), cb.get() + bytes.size()), q(cb.get() + bytes.size(), cb.get() + bytes.size());
    std::u16string back; for (Y it(p, q), e(q, q); it != e; ++it) back += *it;
    if (back != s) fail("utf16-chain", d);
    using F = lexertl::basic_flip_iterator<const char16_t*>;
    std::u16string fl; for (F it(b.get()), e(b.get() + s.size()); it != e; it++) fl += *it;
    for (size_t i = 0; i < s.size(); ++i) if (fl[i] != (char16_t)((s[i] >> 8) | (s[i] << 8))) { fail("flip", d); return; }
}
int main(int argc, char** argv) {
    init(argc, argv); auto& c = C();
    for (uint32_t cp = 0; cp <= 0x10ffff; ++cp) {
        if ((int)(cp % c.nshards) != c.shard || (cp >= 0xd800 && cp <= 0xdfff)) continue;
        if (cp > 0x3000 && !c.thorough && (cp / c.nshards) % 16 != c.seed % 16 && (cp & 0x3ff) > 3 && (cp & 0x3ff) < 0x3fc) continue;
        encode<char16_t>(std::u32string(1, cp)); encode<wchar_t>(std::u32string(1, cp));
        eval(cp, cp >= 0x10000);
        if (toomany()) return finish();
    }
    for (uint32_t a = 0xd7f0; a < 0xe010; ++a) {
        if ((int)(a % c.nshards) != c.shard) continue;
        run<char16_t>(std::u16string(1, a), false); run<wchar_t>(std::wstring(1, a), false);
        for (uint32_t b : { 0u, 0x41u, 0xd7ffu, 0xd800u, 0xdbffu, 0xdc00u, 0xdc01u, 0xdffeu, 0xdfffu, 0xe000u, 0xffffu }) { run<char16_t>(std::u16string{ (char16_t)a, (char16_t)b }, false); run<wchar_t>(std::wstring{ (wchar_t)a, (wchar_t)b }, false); eval(0x2000000ull + a * 0x10000ull + b); }
        if (toomany()) return finish();
    }
    static const uint32_t edge[] = { 0, 1, 0x7f, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff };
    while (timeleft() && !toomany()) {
        std::u32string u; int n = (int)rnd(7); bool sur = false;
        for (int i = 0; i < n; ++i) { uint32_t x = chance(50) ? edge[rnd(17)] : (uint32_t)rnd(0x110000); if (x >= 0xd800 && x < 0xe000) x = 0x20ac; sur |= x > 0xffff; u += (char32_t)x; }
        std::u16string s; std::wstring w; for (auto x : u) { s += enc<char16_t>(x); w += enc<wchar_t>(x); }
        encode<char16_t>(u); encode<wchar_t>(u); run<char16_t>(s, true); run<wchar_t>(w, true); chains(u);
        eval(show(s), sur); sample(show(s));
        if (!s.empty()) {
            auto m = s; int k = (int)rnd(3);
            if (k == 0) m.resize(rnd(m.size())); else if (k == 1) m[rnd(m.size())] = (char16_t)(0xd700 + rnd(0xa00)); else m.insert(m.begin() + rnd(m.size() + 1), (char16_t)(0xd700 + rnd(0xa00)));
            run<char16_t>(m, true); std::wstring mw(m.begin(), m.end()); run<wchar_t>(mw, true); eval(show(m));
        }
    }
    return finish();
}
