from .utf_common import *
DRIVER = r'''
#include <lexertl/utf_iterators.hpp>
using I = lexertl::basic_utf8_in_iterator<const char*, char32_t>;
using O = lexertl::basic_utf8_out_iterator<const char32_t*>;
template class lexertl::basic_utf8_in_iterator<const char*, char32_t>;
template class lexertl::basic_utf8_out_iterator<const char32_t*>;
bool f(I a, I b, O x, O y) { a = a + 1; a = a - 1; return a == b || a != b || a > b || x == y || x != y; }
'''
IN = 'lexertl::basic_utf8_in_iterator<const char*, char32_t>'
OUT = 'lexertl::basic_utf8_out_iterator<const char32_t*>'
GROUPS = [dict(driver=DRIVER, contracts=
    in_contracts(IN, 'char', 'char32_t', u8_wf, u8_len, u8_cp, 'utf8_in_iterator') +
    out_contracts(OUT, 'char32_t', '_bytes', 8, u8_enc, 4, 'utf8_out_iterator') +
    [roundtrip(OUT, IN, 8, 'char', 32, 'lemma: utf8 decode after encode', 4)])]
LEVEL = 'proof'
SEARCH = ['L13.cpp']
RULE = 'every code point and every malformed prefix of up to 4 bytes in a guarded buffer, plus random multi-character buffers; non-trivial: at least one multi-byte sequence or a malformed byte'
ASSUMPTIONS = ['instantiation <const char*, char32_t> / <const char32_t*>; other instantiations share the template text',
               'spans of up to 2^62 units']
