from .utf_common import *
DRIVER = r'''
#include <lexertl/utf_iterators.hpp>
using I = lexertl::basic_utf16_in_iterator<const char16_t*, char32_t>;
using W = lexertl::basic_utf16_in_iterator<const wchar_t*, char32_t>;
using O = lexertl::basic_utf16_out_iterator<const char32_t*, char16_t>;
using P = lexertl::basic_utf16_out_iterator<const char32_t*, wchar_t>;
template class lexertl::basic_utf16_in_iterator<const char16_t*, char32_t>;
template class lexertl::basic_utf16_in_iterator<const wchar_t*, char32_t>;
template class lexertl::basic_utf16_out_iterator<const char32_t*, char16_t>;
template class lexertl::basic_utf16_out_iterator<const char32_t*, wchar_t>;
template<class A> bool g(A a, A b) { a = a + 1; a = a - 1; return a == b || a != b; }
template<class A> bool h(A a, A b) { return a == b || a != b; }
bool f(I a, W b, O x, P y) { return g(a, a) || g(b, b) || h(x, x) || h(y, y); }
'''
IN = 'lexertl::basic_utf16_in_iterator<const char16_t*, char32_t>'
INW = 'lexertl::basic_utf16_in_iterator<const wchar_t*, char32_t>'
OUT = 'lexertl::basic_utf16_out_iterator<const char32_t*, char16_t>'
OUTW = 'lexertl::basic_utf16_out_iterator<const char32_t*, wchar_t>'
GROUPS = [dict(driver=DRIVER, contracts=
    in_contracts(IN, 'char16_t', 'char32_t', u16_wf, u16_len, u16_cp, 'utf16_in_iterator<char16_t>') +
    in_contracts(INW, 'wchar_t', 'char32_t', u16_wf, u16_len, u16_cp, 'utf16_in_iterator<wchar_t>') +
    out_contracts(OUT, 'char32_t', '_chars', 16, lambda c: u16_enc(c, 16), 2, 'utf16_out_iterator<char16_t>') +
    out_contracts(OUTW, 'char32_t', '_chars', 32, lambda c: u16_enc(c, 32), 2, 'utf16_out_iterator<wchar_t>') +
    [roundtrip(OUT, IN, 16, 'char16_t', 32, 'lemma: utf16 decode after encode (char16_t)', 2),
     roundtrip(OUTW, INW, 32, 'wchar_t', 32, 'lemma: utf16 decode after encode (wchar_t)', 2)])]
LEVEL = 'proof'
SEARCH = ['L14.cpp']
RULE = 'every code point encoded and decoded, every single unit and every pair of surrogate-range boundary units, random multi-character and corrupted buffers in exactly sized allocations; non-trivial: a surrogate occurs'
ASSUMPTIONS = ['instantiations over const char16_t* / const wchar_t* with char32_t; other instantiations share the template text',
               'surrogate code points have no UTF-16 form and are excluded from the encoder contracts of the round trip']
