"""numeric, control and simple escapes: chr / decode_octal / decode_hex / decode_control_char"""
from .common import *
from vc.exec import ThrowEx
DRIVER = r'''
#include <cstdint>
#include <lexertl/parser/tokeniser/re_tokeniser_helper.hpp>
using namespace lexertl::detail;
template<class R, class I, class ID> I f(basic_re_tokeniser_state<R, ID>& s) { return basic_re_tokeniser_helper<R, I, ID>::chr(s); }
template char f<char, char, std::uint16_t>(basic_re_tokeniser_state<char, std::uint16_t>&);
template wchar_t f<wchar_t, wchar_t, std::uint16_t>(basic_re_tokeniser_state<wchar_t, std::uint16_t>&);
template char32_t f<char32_t, char32_t, std::uint32_t>(basic_re_tokeniser_state<char32_t, std::uint32_t>&);
template char16_t f<char, char16_t, std::uint16_t>(basic_re_tokeniser_state<char, std::uint16_t>&);
template char32_t f<char, char32_t, std::uint16_t>(basic_re_tokeniser_state<char, std::uint16_t>&);
'''
SEL = z3.Select
SIMPLE = {'a': 7, 'b': 8, 'e': 27, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}
HV = z3.Function('HEX_VALUE', z3.IntSort(), z3.IntSort())      # value of the first i digits of the escape
def isoct(c): return z3.And(c >= 48, c <= 55)
def ishex(c): return z3.Or(isdec(c), z3.And(c >= 97, c <= 102), z3.And(c >= 65, c <= 70))
def isdec(c): return z3.And(c >= 48, c <= 57)
def hexval(c): return z3.If(isdec(c), c - 48, z3.If(c >= 97, c - 87, c - 55))
def wrap(v, ty): lo, hi = int_range(ty); return z3.If(v > hi, v - (hi - lo + 1), v)
def make(R, I, ID, mx, ity, rty):
    H = 'lexertl::detail::basic_re_tokeniser_helper<%s,%s,%s>' % (R, I, ID)
    def fin(name):
        def g(u):
            o = [n for q, n in u.funcs if q.replace(' ', '').startswith('lexertl::detail::basic_re_tokeniser_helper<%s,%s,%s' % (R, I, ID.replace(' ', ''))) and q.endswith('::' + name)]
            if not o: raise ExtractError(H + name + ' not found')
            return o[0]
        return g
    RTY = Ty('int', rty)
    def setup(cx):
        d = cx.data; t = cx.cell(cx.fresh(Ty('vec', [RTY]), 'text'), 'text'); v = cx.load(t); b, p, e = z3.Ints('start curr end')
        # [start, end) is the text; one readable character follows it (a terminator)
        cx.assume(z3.And(0 <= b, b <= p, p < e, e < Z(v.len), Z(v.len) < 2 ** 40)); d.update(t=t, a=v.arr, p=p, e=e, v=v)
        names = {'_start': It(t, b), '_end': It(t, e), '_curr': It(t, p), '_id': z3.Int('_id'), '_flags': z3.Int('_flags'), '_flags_stack': Op('stack'), '_locale': Op('locale'), '_macro_name': NULL, '_paren_count': z3.Int('_paren'), '_in_string': z3.Bool('_instr'), '_nl_id': z3.Int('_nl')}
        rec = [r for r in (f'lexertl::detail::basic_re_tokeniser_state<{R}, {x}>' for x in ('unsigned short', 'unsigned int')) if True]
        st = parse_type(f'lexertl::detail::basic_re_tokeniser_state<{R}, {ID}>'); d['s'] = cx.cell(S(st, names), 'state'); return None, [d['s']]
    def curr(cx): return Z(cx.load(cx.data['s']).f['_curr'].idx)
    def frame(cx):
        d = cx.data; s = cx.load(d['s']); o = cx.load(d['s'], 'old')
        return z3.And(z3.BoolVal(all(s.f[x] is o.f[x] or (z3.is_expr(s.f[x]) and z3.is_expr(o.f[x]) and s.f[x].eq(o.f[x])) or (isinstance(s.f[x], It) and Z(s.f[x].idx).eq(Z(o.f[x].idx))) for x in s.f if x != '_curr')), z3.BoolVal(same_lv(s.f['_curr'].base, d['t'])))
    def at(cx, i): return SEL(cx.data['a'], i)
    # the meaning of the escape at p: ok, value, characters consumed
    def octal(cx, p):
        d = cx.data; e = d['e']; c0, c1, c2 = at(cx, p) - 48, at(cx, p + 1) - 48, at(cx, p + 2) - 48
        two = z3.And(p + 1 < e, isoct(c1 + 48)); three = z3.And(two, p + 2 < e, isoct(c2 + 48))
        val = z3.If(three, c0 * 64 + c1 * 8 + c2, z3.If(two, c0 * 8 + c1, c0)); return val <= mx, val, z3.If(three, 3, z3.If(two, 2, 1))
    def control(cx, p):
        c = at(cx, p + 1); ok = z3.And(p + 1 < cx.data['e'], z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 64, c <= 90))); return ok, z3.If(c >= 97, c - 96, c - 64), z3.IntVal(2)
    def hexa(cx, p):
        d = cx.data; N = d['N'] = z3.Int('hex_digits'); q = z3.Int('q?'); e = d['e']; i = z3.Int('i?')
        # N: the longest run of hexadecimal digits behind the x; HV its value, digit by digit
        cx.assume(z3.And(N >= 0, p + 1 + N <= e, z3.Implies(p + 1 + N < e, z3.Not(ishex(at(cx, p + 1 + N)))), z3.ForAll([q], z3.Implies(z3.And(q > p, q <= p + N), ishex(at(cx, q))), patterns=[at(cx, q)])))
        cx.assume(HV(0) == 0); cx.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And(HV(i + 1) == 16 * HV(i) + hexval(at(cx, p + 1 + i)))), patterns=[HV(i + 1)]))
        return z3.And(N >= 1, HV(N) <= mx), HV(N), 1 + N
    def hexinv(cx):
        d = cx.data; p = d['p']; i = curr(cx) - p - 1; h = Z(cx.v('hex_')); N = d['N']; c = Z(cx.v('ch_')); cx.assume(HV(i - 1 + 1) == 16 * HV(i - 1) + hexval(at(cx, p + i))); cx.assume(HV(i + 1) == 16 * HV(i) + hexval(at(cx, p + 1 + i)))
        # at the head of the body ch_ is digit number i (from 1), i - 1 digits are in hex_
        return [('digits consumed', z3.And(i >= 1, i <= N, c == at(cx, p + i))), ('the value so far, or known to be too big', z3.And(HV(i - 1) >= 0, h >= 0, z3.If(HV(i - 1) <= mx, h == HV(i - 1), h > mx), h <= 16 * (mx + 1) + 15)), ('variant', N - i)]
    def mono(cx):
        i = z3.Int('i?'); j = z3.Int('j?'); d = cx.data
    def spec(cx, which):
        d = cx.data; p = d['p']; c = at(cx, p)
        if which == 'octal': cx.assume(isoct(c)); return octal(cx, p)
        if which == 'control': return control(cx, p)
        if which == 'hex': return hexa(cx, p)
    def post(which):
        def ensures(cx, r):
            d = cx.data; ok, val, n = d['spec']; cx.oblige('only a valid escape is accepted', ok); cx.oblige('the escape denotes exactly its value', z3.Implies(ok, Z(r) == wrap(val, ity)))
            cx.oblige('exactly the digits of the escape are consumed', z3.Implies(ok, curr(cx) == d['p'] + n)); cx.oblige('nothing else changes', frame(cx))
        def throws(cx, exc): cx.oblige('only an invalid escape is rejected', z3.Not(cx.data['spec'][0]))
        return ensures, throws
    def setup_of(which):
        def g(cx): r = setup(cx); cx.data['spec'] = spec(cx, which); return r
        return g
    def noop(cx, f, this, args, site): cx.ex.trust('error message text'); return None
    msg = [(lambda q, n: q.endswith('::unexpected_end') or q.endswith('_state<%s, %s>::error' % (R, ID)) or (q.endswith('::error') and 'tokeniser_state' in q), noop)]
    def stream(cx, op, lv, node, e): return lv
    def opaque(cx, ty, ks, e): return Op('message')
    def opm(cx, o, name, lv, argn, e): return Op('string') if name == 'str' else NotImplemented
    X = dict(stream=stream, construct_opaque=opaque, opmethod=opm)
    def dec(which, loops, **kw):
        en, th = post(which); nm = 'decode_' + {'octal': 'octal', 'control': 'control_char', 'hex': 'hex'}[which]
        return Contract('%s<%s, %s>' % (nm, R, I), func=fin(nm), setup=setup_of(which), ensures=en, throws=th, loops=loops, summaries=msg, **X, **kw)
    def h_dec(which):
        def h(cx, f, this, args, site):
            ex = cx.ex; d = cx.data; cx.oblige('the state is passed on', z3.BoolVal(same_lv(args[0], d['s']))); cx.oblige('called at the escape', curr(cx) == d['p']); ok, val, n = spec(cx, which); d['used'] = (which, ok, val, n)
            if which == 'octal': cx.oblige('an octal digit is at hand', isoct(at(cx, d['p'])))
            if ex.decide(ok): s = cx.load(d['s']); ex.storev(d['s'], s.set('_curr', It(d['t'], z3.simplify(d['p'] + n)))); return wrap(val, ity)
            raise ThrowEx('runtime_error', None)
        return h
    def e_chr(cx, r):
        d = cx.data; c = at(cx, d['p']); u = d.get('used'); k1 = curr(cx) == d['p'] + 1
        g = {'octal': isoct(c), 'control': c == 99, 'hex': c == 120}
        for n in g:
            cx.oblige('\\ with %s is decoded as such' % n, z3.Implies(g[n], z3.BoolVal(bool(u and u[0] == n))))
        if u: cx.oblige('the value decoded is returned', z3.And(g[u[0]], Z(r) == wrap(u[2], ity), curr(cx) == d['p'] + u[3]))
        else:
            for ch, val in SIMPLE.items(): cx.oblige('\\%s is %d' % (ch, val), z3.Implies(c == ord(ch), z3.And(Z(r) == val, k1)))
            lo, hi = int_range(ity); cc = c if rty == ity.a else wrapfull(c, ity)
            cx.oblige('any other character stands for itself', z3.Implies(z3.And(*[c != ord(x) for x in SIMPLE]), z3.And(Z(r) == cc, k1)))
        cx.oblige('nothing else changes', frame(cx))
    def t_chr(cx, exc): u = cx.data.get('used'); cx.oblige('only what a decoder rejects is rejected', z3.And(z3.BoolVal(u is not None), z3.Not(u[1])) if u else z3.BoolVal(False))
    chrc = Contract('chr<%s, %s>' % (R, I), func=fin('chr'), setup=setup, ensures=e_chr, throws=t_chr, loops=[], summaries=[((lambda nm: (lambda q, n: q.endswith('::' + nm)))(nm), h_dec(w)) for nm, w in (('decode_octal', 'octal'), ('decode_control_char', 'control'), ('decode_hex', 'hex'))] + msg, **X)
    return [dec('octal', ['U'], unroll=4), dec('control', []), dec('hex', [hexinv]), chrc]
def wrapfull(c, ty): lo, hi = int_range(ty); m = hi - lo + 1; return (c - lo) % m + lo
CS = []
for R, I, ID, mx, ib, rb in (('char', 'char', 'unsigned short', 0xff, (8, True), (8, True)), ('wchar_t', 'wchar_t', 'unsigned short', 0x10ffff, (32, True), (32, True)), ('char32_t', 'char32_t', 'unsigned int', 0x10ffff, (32, False), (32, False)), ('char', 'char16_t', 'unsigned short', 0xffff, (16, False), (8, True)), ('char', 'char32_t', 'unsigned short', 0x10ffff, (32, False), (8, True))):
    CS += make(R, I, ID, mx, Ty('int', ib), rb)
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'proof'
SEARCH = ['L17.cpp']
RULE = 'every escape of up to 3 octal digits, every control letter, random and boundary hexadecimal escapes of up to 40 digits, alone, in character sets and in ranges, for char, char16_t, wchar_t and char32_t; non-trivial: escapes that are accepted and followed by another character'
ASSUMPTIONS = ['the character at the end of the text can be read (a terminator follows)', 'error messages are not examined']
