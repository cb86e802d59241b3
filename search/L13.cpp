#include "common.hpp"
#include <lexertl/utf_iterators.hpp>
using namespace vp;
static std::string enc(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 0x3f)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 0x3f)); s += (char)(0x80 | (c & 0x3f)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 0x3f)); s += (char)(0x80 | (c >> 6 & 0x3f)); s += (char)(0x80 | (c & 0x3f)); }
    return s;
}
// RFC 3629 decoder: returns length or 0 when not well-formed
static int dec(const std::string& s, size_t i, uint32_t& c) {
    auto b = [&](size_t k) -> int { return k < s.size() ? (unsigned char)s[k] : -1; };
    int b0 = b(i), b1 = b(i + 1), b2 = b(i + 2), b3 = b(i + 3);
    auto t = [](int x) { return x >= 0x80 && x <= 0xbf; };
    if (b0 < 0x80) { c = b0; return 1; }
    if (b0 >= 0xc2 && b0 <= 0xdf && t(b1)) { c = (b0 & 31) << 6 | (b1 & 63); return 2; }
    if (b0 >= 0xe0 && b0 <= 0xef && t(b1) && t(b2)) { c = (b0 & 15) << 12 | (b1 & 63) << 6 | (b2 & 63); if (c < 0x800 || (c >= 0xd800 && c <= 0xdfff)) return 0; return 3; }
    if (b0 >= 0xf0 && b0 <= 0xf4 && t(b1) && t(b2) && t(b3)) { c = (b0 & 7) << 18 | (b1 & 63) << 12 | (b2 & 63) << 6 | (b3 & 63); if (c < 0x10000 || c > 0x10ffff) return 0; return 4; }
    return 0;
}
template<typename CH> struct inst {
    using I = lexertl::basic_utf8_in_iterator<const char*, CH>;
    // exact allocation so that the sanitizer sees any read past the end
    static void run(const std::string& s, bool arith) {
        cur("utf8 bytes " + esc(s));
        std::unique_ptr<char[]> buf(new char[s.size() ? s.size() : 1]); memcpy(buf.get(), s.data(), s.size());
        const char* b = buf.get(); const char* e = b + s.size();
        size_t i = 0; std::vector<uint32_t> cps; std::vector<size_t> pos; bool bad = false;
        while (i < s.size()) { uint32_t c; int n = dec(s, i, c); if (!n) { bad = true; break; } cps.push_back(c); pos.push_back(i); i += n; }
        pos.push_back(i);
        std::string d = "bytes=\"" + esc(s) + "\"";
        for (int mode = 0; mode < 2; ++mode) {
            size_t k = 0; 
            try {
                I it(b, e), end(e, e);
                size_t steps = 0;
                while (it != end) {
                    if (++steps > s.size() + 1) { fail("utf8-terminate", d + " iteration does not terminate"); return; }
                    if (k < cps.size()) {
                        if ((uint32_t)*it != cps[k]) { fail("utf8-decode", d + " code point " + std::to_string(k) + " decoded as " + std::to_string((uint32_t)*it) + " expected " + std::to_string(cps[k])); return; }
                        if (it.get() != b + pos[k]) { fail("utf8-pos", d + " wrong position of code point " + std::to_string(k)); return; }
                    }
                    if (mode) { I old = it++; if (k < cps.size() && ((uint32_t)*old != cps[k] || old.get() != b + pos[k])) { fail("utf8-postinc", d); return; } }
                    else ++it;
                    ++k;
                }
                if (!bad && k != cps.size()) { fail("utf8-count", d + " yields " + std::to_string(k) + " characters"); return; }
                if (k < cps.size()) { fail("utf8-count", d + " stops early"); return; }
                if (!(it == end) || it.get() != e) { fail("utf8-end", d); return; }
            }
            catch (const std::range_error&) { if (!bad) { fail("utf8-reject", d + " well-formed but rejected"); return; } if (k + 1 < cps.size() ) { fail("utf8-reject", d + " rejected before the malformed part"); return; } }
        }
        if (!bad && arith) {
            for (size_t a = 0; a <= cps.size(); ++a) for (size_t z = 0; z <= cps.size(); ++z) {
                I it(b, e); it = it + a;
                I r = z >= a ? it + (z - a) : it - (a - z);
                if (r.get() != b + pos[z] || (z < cps.size() && (uint32_t)*r != cps[z])) { fail("utf8-arith", d + " moving from " + std::to_string(a) + " to " + std::to_string(z)); return; }
                if (z < cps.size()) { I q = r; ++q; if (q.get() != b + pos[z + 1]) { fail("utf8-arith", d + " increment after moving from " + std::to_string(a) + " to " + std::to_string(z)); return; } }
            }
        }
    }
};
template<typename E> static void encode(const std::basic_string<E>& s) {
    using O = lexertl::basic_utf8_out_iterator<const E*>;
    std::string want; for (auto c : s) want += enc((uint32_t)c);
    std::unique_ptr<E[]> buf(new E[s.size() ? s.size() : 1]); std::copy(s.begin(), s.end(), buf.get());
    const E* b = buf.get();
    std::ostringstream d; d << "code points"; for (auto c : s) d << " " << std::hex << (uint32_t)c;
    cur("encode " + d.str());
    for (int mode = 0; mode < 2; ++mode) {
        std::string got; O it(b, b + s.size()), end(b + s.size(), b + s.size());
        while (it != end) {
            if (got.size() > want.size()) break;
            char ch = *it;
            if (mode) { O old = it++; if (*old != ch) { fail("utf8-out-postinc", d.str()); return; } } else ++it;
            got += ch;
        }
        if (got != want) { fail("utf8-encode", d.str() + " encoded as " + esc(got) + " expected " + esc(want)); return; }
        if (!(it == end)) fail("utf8-out-end", d.str());
    }
}
int main(int argc, char** argv) {
    init(argc, argv); auto& c = C();
    // every code point, encoded and decoded
    for (uint32_t cp = 0; cp <= 0x10ffff; ++cp) {
        if ((int)(cp % c.nshards) != c.shard) continue;
        if (cp > 0x3000 && !c.thorough && (cp / c.nshards) % 16 != c.seed % 16 && (cp & 0xfff) > 3 && (cp & 0xfff) < 0xffc) continue;
        if (cp < 0xd800 || cp > 0xdfff) { std::string s = enc(cp); inst<char32_t>::run(s, false); encode<char32_t>(std::u32string(1, cp)); }
        eval(cp, cp >= 0x80);
        if (toomany()) return finish();
    }
    // malformed: every 1- and 2-byte string, every truncation / corruption of encodings
    for (int a = 0; a < 256; ++a) {
        if (a % c.nshards != c.shard) continue;
        inst<char32_t>::run(std::string(1, (char)a), false); eval(0x1000000 + a);
        for (int b = 0; b < 256; ++b) { inst<char32_t>::run(std::string{ (char)a, (char)b }, false); eval(0x2000000 + a * 256 + b); }
        if (toomany()) return finish();
    }
    static const uint32_t edge[] = { 0, 1, 0x7f, 0x80, 0x81, 0x7ff, 0x800, 0x801, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff };
    while (timeleft() && !toomany()) {
        std::u32string u; int n = (int)rnd(7);
        for (int i = 0; i < n; ++i) { uint32_t x = chance(50) ? edge[rnd(20)] : chance(50) ? (uint32_t)rnd(0x800) : (uint32_t)rnd(0x110000); if (x >= 0xd800 && x < 0xe000) x = 0x20ac; u += (char32_t)x; }
        std::string s; for (auto x : u) s += enc(x);
        encode<char32_t>(u);
        { std::wstring w(u.begin(), u.end()); encode<wchar_t>(w); }
        inst<char32_t>::run(s, true); inst<wchar_t>::run(s, true);
        eval(s, s.size() > u.size()); sample("well-formed " + esc(s));
        if (!s.empty()) {
            std::string m = s; int k = (int)rnd(3);
            if (k == 0) m.resize(rnd(m.size())); else if (k == 1) m[rnd(m.size())] = (char)rnd(256); else m.insert(m.begin() + rnd(m.size() + 1), (char)rnd(256));
            inst<char32_t>::run(m, true); eval(m); sample("mutated " + esc(m));
        }
    }
    return finish();
}
