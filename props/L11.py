"""serialise: save writes an encoding of the machine, load reads exactly that encoding back."""
from .common import *
DRIVER = r'''
#include <cstdint>
#include <fstream>
#include <lexertl/state_machine.hpp>
#include <lexertl/serialise.hpp>
template void lexertl::save<char, std::uint8_t, std::ostream>(const basic_state_machine<char, std::uint8_t>&, std::ostream&);
template void lexertl::save<char, std::uint16_t, std::ostream>(const basic_state_machine<char, std::uint16_t>&, std::ostream&);
template void lexertl::save<char, std::uint32_t, std::ostream>(const basic_state_machine<char, std::uint32_t>&, std::ostream&);
template void lexertl::load<char, std::uint8_t, std::istream>(std::istream&, basic_state_machine<char, std::uint8_t>&);
template void lexertl::load<char, std::uint16_t, std::istream>(std::istream&, basic_state_machine<char, std::uint16_t>&);
template void lexertl::load<char, std::uint32_t, std::istream>(std::istream&, basic_state_machine<char, std::uint32_t>&);
'''
I = z3.IntSort(); TOK = Ty('int', (64, True))
LOFF, DOFF = z3.Function('LOOKUP_AT', I, I), z3.Function('DFA_AT', I, I)     # token index where table i starts
Q, J = z3.Ints('Q J')                                                        # an arbitrary table and entry
def norms(n): return n['type'].get('desugaredQualType', n['type']['qualType']).replace('const ', '').strip(' &')
def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('castKind') in (None, 'LValueToRValue', 'NoOp', 'IntegralCast'): n = n['inner'][0]
    return n
def mkstream(cx, name): return cx.cell(S('gstream', {'tok': V(TOK, z3.Int(name + '_len'), z3.Const(name + '_tok', z3.ArraySort(I, I))), 'sep': z3.Bool(name + '_sep'), 'pos': z3.Int(name + '_pos')}), name)
def is_char(t): return t in ('char', 'signed char', 'unsigned char', 'wchar_t', 'char16_t', 'char32_t')
INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long')
def h_stream(cx, op, lv, node, e):
    """formatted I/O of the standard library on white-space separated unsigned numbers (assumed contract)"""
    ex = cx.ex; ty = norms(node); s = cx.load(lv)
    if not (isinstance(s, S) and s.ty == 'gstream'): raise ExtractError('stream operator on %r' % (s,))
    ex.trust('formatted stream ' + op)
    if op == '<<':
        v = ex.rv(node)
        if is_char(ty):
            ok = z3.is_int_value(Z(v)) and Z(v).as_long() in (9, 10, 32)
            cx.oblige('only white space is written besides the numbers', z3.BoolVal(ok)); s = s.set('sep', True)
        elif ty in INTS:
            cx.oblige('numbers are separated', B(cx, s.f['sep'])); t = s.f['tok']
            s = s.set('tok', V(TOK, z3.simplify(Z(t.len) + 1), z3.Store(t.arr, Z(t.len), Z(v)))).set('sep', False)
        elif isinstance(v, V) and v.arr is not None and str(v.arr) in cx.data.get('texts', {}):
            x = cx.data['texts'][str(v.arr)]; t = s.f['tok']
            cx.oblige('numbers are separated', B(cx, s.f['sep'])); cx.oblige('one number at a time', Z(x.f['tok'].len) == 1)
            s = s.set('tok', V(TOK, z3.simplify(Z(t.len) + 1), z3.Store(t.arr, Z(t.len), z3.Select(x.f['tok'].arr, 0)))).set('sep', False)
        else: raise ExtractError('writing a ' + ty)
    else:
        t = s.f['tok']; d = ex.lvof(node); cx.oblige('numbers are read into integers wider than a character', z3.BoolVal(ty in INTS))
        cx.oblige('there is a number left', z3.And(Z(s.f['pos']) >= 0, Z(s.f['pos']) < Z(t.len))); x = z3.Select(t.arr, Z(s.f['pos']))
        if ty in INTS:
            w = {'unsigned short': 16, 'unsigned int': 32}.get(ty, 64)
            cx.oblige('the number fits the variable it is read into', z3.And(x >= 0, x < 2 ** w))
        ex.storev(d, x); s = s.set('pos', z3.simplify(Z(s.f['pos']) + 1))
    ex.storev(lv, s); return lv
def h_new(cx, ty, ks, e):
    if 'ostringstream' not in ty.name and 'ostringstream' not in str(ty): raise ExtractError('construction of ' + ty.name)
    return S('gstream', {'tok': V(TOK, z3.IntVal(0), z3.K(I, z3.IntVal(0))), 'sep': True, 'pos': z3.IntVal(0)})
def h_method(cx, o, name, lv, argn, e):
    ex = cx.ex
    if isinstance(o, S) and o.ty == 'gstream' and name == 'str':
        ex.trust('ostringstream::str')
        if not argn:
            v = V(Ty('int', (8, True)), z3.Int(ex.fresh_name('strlen')), z3.Const(ex.fresh_name('chars'), z3.ArraySort(I, I)))
            cx.assume(z3.And(Z(v.len) >= 0, Z(v.len) < 2 ** 40)); cx.data.setdefault('texts', {})[str(v.arr)] = o; return v
        a = ex.rv(argn[0]); a = ex.mkstr(a) if isinstance(a, Op) else a
        cx.oblige('the number buffer is emptied', Z(a.len) == 0)
        ex.storev(lv, S('gstream', {'tok': V(TOK, z3.IntVal(0), o.f['tok'].arr), 'sep': True, 'pos': z3.IntVal(0)})); return None
    return NotImplemented
HOOK = dict(stream=h_stream, construct_opaque=h_new, opmethod=h_method)
def toks(cx, lv, snap=None): s = cx.load(lv, snap); return s.f['tok'].arr, Z(s.f['tok'].len), B(cx, s.f['sep']), Z(s.f['pos'])
def contracts(id_, w, names):
    out = []; LIM = 2 ** w; VEC = Ty('vec', [Ty('int', (w, False))])
    def ff(name):
        def f(u):
            o = [n for q, n in u.funcs if q.split('::')[-1] == name and id_ + '>' in (n['type']['qualType']) + '>' and any(id_ in norms(p) or ('vector<' + id_) in norms(p) for p in params_of(n))]
            o = [n for n in o if any(('<' + id_ + ',') in norms(p) or ('<' + id_ + '>') in norms(p) or (', ' + id_ + '>') in norms(p) for p in params_of(n))]
            if not o: raise ExtractError('%s for %s not found' % (name, id_))
            return o[0]
        return f
    # --- one vector
    def pre_out(cx):
        st = mkstream(cx, 'stream'); v = cx.cell(cx.fresh(VEC, 'vec'), 'vec'); cx.data.update(st=st, v=v); a, n, sep, p = toks(cx, st)
        cx.assume(z3.And(n >= 0, sep)); return st, v
    def s_out(cx): st, v = pre_out(cx); return None, [v, st]
    def app(cx, st, v, upto, snap='old'):
        a0, n0, _, p0 = toks(cx, st, snap); a, n, sep, p = toks(cx, st); x = cx.load(v)
        return [('the size and the entries so far are appended', z3.And(n == n0 + 1 + upto, z3.Select(a, n0) == Z(x.len))), ('nothing before is touched', fall(0, n0, lambda q: z3.Select(a, q) == z3.Select(a0, q))),
                ('entries appended in order', fall(0, upto, lambda q: z3.Select(a, n0 + 1 + q) == z3.Select(x.arr, q))), ('separated', sep), ('the read position stays', p == p0)]
    def out_inv(cx):
        s = cx.load(cx.lv('ss_')); i = Z(cx.v('__begin').idx)
        return app(cx, cx.data['st'], cx.data['v'], i) + [('index', z3.And(i >= 0, i <= Z(cx.load(cx.data['v']).len))), ('the number buffer is empty', z3.And(Z(s.f['tok'].len) == 0, B(cx, s.f['sep'])))]
    def e_out(cx, r):
        for n, g in app(cx, cx.data['st'], cx.data['v'], Z(cx.load(cx.data['v']).len)): cx.oblige(n, g)
    out.append(Contract('output_vec<%s>' % id_, func=ff('output_vec'), setup=s_out, loops=[out_inv], ensures=e_out, **HOOK))
    def s_in(cx):
        st = mkstream(cx, 'stream'); v = cx.cell(V(VEC.a[0], z3.IntVal(0), z3.Const('empty', z3.ArraySort(I, I))), 'vec'); a, n, sep, p = toks(cx, st); cx.data.update(st=st, v=v)
        m = z3.Select(a, p); cx.assume(z3.And(p >= 0, p < n, m >= 0, m < 2 ** 62, p + 1 + m <= n, fall(0, m, lambda q: z3.And(z3.Select(a, p + 1 + q) >= 0, z3.Select(a, p + 1 + q) < LIM)))); return None, [st, v]
    def got(cx, upto):
        st = cx.data['st']; a0, n0, s0, p0 = toks(cx, st, 'old'); a, n, sep, p = toks(cx, st); x = cx.load(cx.data['v'])
        return [('reads the size and the entries so far', z3.And(p == p0 + 1 + upto, Z(x.len) == upto)), ('entries read in order', fall(0, upto, lambda q: z3.Select(x.arr, q) == z3.Select(a0, p0 + 1 + q))), ('the text stays', z3.And(n == n0, a == a0))]
    def in_inv(cx):
        a0, n0, s0, p0 = toks(cx, cx.data['st'], 'old'); i = Z(cx.v('idx_')); return got(cx, i) + [('index', z3.And(i >= 0, i <= z3.Select(a0, p0))), ('count', Z(cx.v('num_')) == z3.Select(a0, p0))]
    def e_in(cx, r):
        a0, n0, s0, p0 = toks(cx, cx.data['st'], 'old')
        for n, g in got(cx, z3.Select(a0, p0)): cx.oblige(n, g)
    out.append(Contract('input_vec<%s>' % id_, func=ff('input_vec'), setup=s_in, loops=[in_inv], ensures=e_in, **HOOK))
    # --- summaries from those two contracts
    def h_out(cx, f, this, args, site):
        v, st = args; a0, n0, sep, p0 = toks(cx, st); cx.oblige('output_vec starts separated', sep); x = cx.ex.val(v); x = cx.load(x) if isinstance(x, LV) else x
        a = z3.Const(cx.ex.fresh_name('toks'), z3.ArraySort(I, I)); q = z3.Int('k')
        cx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n0), z3.Select(a, q) == z3.Select(a0, q)), patterns=[z3.Select(a, q)])); cx.assume(z3.Select(a, n0) == Z(x.len))
        cx.assume(z3.ForAll([q], z3.Implies(z3.And(q > n0, q <= n0 + Z(x.len)), z3.Select(a, q) == z3.Select(x.arr, q - n0 - 1)), patterns=[z3.Select(a, q)]))
        cx.ex.storev(st, cx.load(st).set('tok', V(TOK, z3.simplify(n0 + 1 + Z(x.len)), a)).set('sep', True))
    def h_in(cx, f, this, args, site):
        st, v = args; a, n, sep, p = toks(cx, st); m = z3.Select(a, p); q = z3.Int('k'); cx.oblige('input_vec fills an empty vector', Z(cx.load(v).len) == 0)
        cx.oblige('input_vec finds its numbers', z3.And(p >= 0, p < n, m >= 0, m < 2 ** 62, p + 1 + m <= n)); sk = z3.Int(cx.ex.fresh_name('entry')); cx.assume(cx.data['inst'](sk)); cx.oblige('its numbers fit the id type', z3.Implies(z3.And(sk >= 0, sk < m), z3.And(z3.Select(a, p + 1 + sk) >= 0, z3.Select(a, p + 1 + sk) < LIM)))
        x = z3.Const(cx.ex.fresh_name('read'), z3.ArraySort(I, I)); cx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.Select(x, q) == z3.Select(a, p + 1 + q)), patterns=[z3.Select(x, q)]))
        cx.ex.storev(v, V(VEC.a[0], m, x)); cx.ex.storev(st, cx.load(st).set('pos', z3.simplify(p + 1 + m)))
    SUM = [('lexertl::detail::output_vec', h_out), ('lexertl::detail::input_vec', h_in)]
    REC = 'lexertl::detail::basic_internals<%s>' % id_
    def machine(cx, name): return cx.fresh(Ty('rec', [], cx.ex.find_record(REC)), name)
    # --- the encoding, at token positions P+5.. : tables of _lookup from LOFF(0), _dfa_alphabet at LOFF(#lookup), then features, #dfa, tables from DOFF(0)
    def nth(v, i): return cx_sel(v, i)
    def offs(m, P):
        lk, df = m.f['_lookup'], m.f['_dfa']; al = m.f['_dfa_alphabet']
        return z3.And(LOFF(0) == P + 5, DOFF(0) == LOFF(Z(lk.len)) + 1 + Z(al.len) + 2)
    def step(m, F, t, i): v = m.f[t]; return z3.Implies(z3.And(i >= 0, i < Z(v.len)), z3.And(F(i + 1) == F(i) + 1 + Z(z3.Select(v.arr.len, i)), Z(z3.Select(v.arr.len, i)) >= 0))
    def head(m, a, P, chsz): return [('version and sizes', z3.And(z3.Select(a, P) == 1, z3.Select(a, P + 1) == chsz, z3.Select(a, P + 2) == w // 8)), ('eoi', z3.Select(a, P + 3) == Z(m.f['_eoi'])), ('number of lookup tables', z3.Select(a, P + 4) == Z(m.f['_lookup'].len))]
    def table(m, F, t, a, q, lim): v = m.f[t]; return z3.Implies(z3.And(q >= 0, q < lim), z3.And(z3.Select(a, F(q)) == z3.Select(v.arr.len, q), z3.Implies(z3.And(J >= 0, J < z3.Select(v.arr.len, q)), z3.Select(a, F(q) + 1 + J) == z3.Select(z3.Select(v.arr.arr, q), J))))
    def alpha(m, a): at = LOFF(Z(m.f['_lookup'].len)); v = m.f['_dfa_alphabet']; return z3.And(z3.Select(a, at) == Z(v.len), z3.Implies(z3.And(J >= 0, J < Z(v.len)), z3.Select(a, at + 1 + J) == z3.Select(v.arr, J)))
    def feat(m, a): at = LOFF(Z(m.f['_lookup'].len)) + 1 + Z(m.f['_dfa_alphabet'].len); return z3.And(z3.Select(a, at) == Z(m.f['_features']), z3.Select(a, at + 1) == Z(m.f['_dfa'].len))
    def below(F, v, q, i): return z3.Implies(z3.And(q >= 0, q < i), z3.And(F(q) >= 0, F(q) + 1 + z3.Select(v.arr.len, q) <= F(i)))
    # save
    def s_save(cx):
        sm = cx.cell(Op('machine'), 'sm'); st = mkstream(cx, 'stream'); m = machine(cx, 'm'); cx.data.update(st=st, ml=cx.cell(m, 'internals'), P=z3.Int('stream_len')); a, n, sep, p = toks(cx, st)
        cx.assume(z3.And(n >= 0, sep, offs(m, n), step(m, LOFF, '_lookup', Q), step(m, DOFF, '_dfa', Q))); return None, [sm, st]
    def h_data(cx, f, this, args, site): return cx.data['ml']
    def sv(cx, phase, i):
        """everything written so far; phase 0 lookup tables, 1 transition tables"""
        d = cx.data; m = cx.load(d['ml'], 'old'); a0, n0, _, p0 = toks(cx, d['st'], 'old'); a, n, sep, p = toks(cx, d['st']); P = d['P']
        for F, t in ((LOFF, '_lookup'), (DOFF, '_dfa')): cx.assume(z3.And(step(m, F, t, i), step(m, F, t, Q)))
        nl, nd = Z(m.f['_lookup'].len), Z(m.f['_dfa'].len); il = i if phase == 0 else nl
        o = head(m, a, P, 1) + [('lookup tables written', table(m, LOFF, '_lookup', a, Q, il)), ('earlier tables lie before', below(LOFF, m.f['_lookup'], Q, il)), ('separated', sep), ('what was in the stream before stays', z3.Implies(z3.And(J >= 0, J < n0), z3.Select(a, J) == z3.Select(a0, J))), ('offsets grow', LOFF(il) >= P + 5)]
        if phase == 0: return o + [('position', n == LOFF(i)), ('index', z3.And(i >= 0, i <= nl))]
        return o + [('alphabets written', alpha(m, a)), ('features and number of tables written', feat(m, a)), ('transition tables written', table(m, DOFF, '_dfa', a, Q, i)), ('earlier transition tables lie before', below(DOFF, m.f['_dfa'], Q, i)), ('position', n == DOFF(i)), ('index', z3.And(i >= 0, i <= nd)), ('tables start behind the header', DOFF(i) >= DOFF(0))]
    def e_save(cx, r):
        m = cx.load(cx.data['ml'], 'old')
        for n, g in sv(cx, 1, Z(m.f['_dfa'].len)): cx.oblige(n, g)
    its = lambda phase: (lambda cx: sv(cx, phase, Z(cx.v('__begin').idx)))
    out.append(Contract('save<%s>' % id_, func=ff('save'), setup=s_save, loops=[its(0), its(1)], ensures=e_save, summaries=SUM + [(lambda q, *a: q.endswith('::data'), h_data)], **HOOK))
    # load: the stream holds the encoding of some machine m0; the target holds anything
    def s_load(cx):
        sm = cx.cell(Op('machine'), 'sm'); st = mkstream(cx, 'stream'); m0 = cx.cell(machine(cx, 'm0'), 'saved'); ml = cx.cell(machine(cx, 'target'), 'internals'); a, n, sep, p = toks(cx, st); m = cx.load(m0)
        cx.data.update(st=st, m0=m0, ml=ml, P=p, sizes=(z3.Select(a, p + 1), z3.Select(a, p + 2)), ok=z3.Bool('same_types')); nl, nd = Z(m.f['_lookup'].len), Z(m.f['_dfa'].len)
        cx.assume(z3.And(p >= 0, n >= DOFF(nd), offs(m, p), z3.Select(a, p) == 1, cx.data['sizes'][0] > 0, cx.data['sizes'][0] <= 4, cx.data['sizes'][1] > 0, cx.data['sizes'][1] <= 8, p + 3 < n)); q, j = z3.Int('q'), z3.Int('j')
        enc = [h for _, h in head(m, a, p, 1)[1:]] + [alpha(m, a), feat(m, a)]
        same = z3.And(cx.data['sizes'][0] == 1, cx.data['sizes'][1] == w // 8)
        cx.data['same'] = same; cx.assume(z3.Implies(same, z3.And(*enc)))
        for F, t in ((LOFF, '_lookup'), (DOFF, '_dfa')):
            v = m.f[t]; ln = z3.Select(v.arr.len, q)
            cx.assume(z3.Implies(same, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Z(v.len)), z3.And(z3.Select(a, F(q)) == ln, ln >= 0, ln < 2 ** 40, F(q + 1) == F(q) + 1 + ln, F(q) >= F(0), F(q + 1) <= F(Z(v.len)))), patterns=[F(q)])))
            e = z3.Select(z3.Select(v.arr.arr, q), j)
            cx.assume(z3.Implies(same, z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < Z(v.len), j >= 0, j < ln), z3.And(z3.Select(a, F(q) + 1 + j) == e, e >= 0, e < LIM)), patterns=[e, z3.Select(a, F(q) + 1 + j)])))
        al = m.f['_dfa_alphabet']; cx.assume(z3.Implies(same, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(al.len)), z3.And(z3.Select(a, LOFF(nl) + 1 + j) == z3.Select(al.arr, j), z3.Select(al.arr, j) >= 0, z3.Select(al.arr, j) < LIM)), patterns=[z3.Select(a, LOFF(nl) + 1 + j)])))
        def inst(sk):
            # instances of the encoding at the table being read
            o = [z3.Implies(z3.And(same, sk >= 0, sk < Z(al.len)), z3.And(z3.Select(a, LOFF(nl) + 1 + sk) == z3.Select(al.arr, sk), z3.Select(al.arr, sk) >= 0, z3.Select(al.arr, sk) < LIM))]
            for F, t in ((LOFF, '_lookup'), (DOFF, '_dfa')):
                try: i = Z(cx.v('idx_'))
                except Mismatch: continue
                v = m.f[t]; e = z3.Select(z3.Select(v.arr.arr, i), sk); o.append(z3.Implies(z3.And(same, i >= 0, i < Z(v.len), sk >= 0, sk < z3.Select(v.arr.len, i)), z3.And(z3.Select(a, F(i) + 1 + sk) == e, e >= 0, e < LIM)))
            return z3.And(*o)
        cx.data['inst'] = inst
        cx.assume(z3.And(DOFF(nd) >= DOFF(0), LOFF(nl) >= LOFF(0), n >= DOFF(0))); cx.assume(z3.And(Z(al.len) < 2 ** 40, nl < 2 ** 40, nd < 2 ** 40)); return None, [st, sm]
    def eqt(x, y, q, lim): return z3.Implies(z3.And(q >= 0, q < lim), z3.And(z3.Select(x.arr.len, q) == z3.Select(y.arr.len, q), z3.Implies(z3.And(J >= 0, J < z3.Select(y.arr.len, q)), z3.Select(z3.Select(x.arr.arr, q), J) == z3.Select(z3.Select(y.arr.arr, q), J))))
    def ld(cx, phase, i):
        d = cx.data; m, y = cx.load(d['ml']), cx.load(d['m0'], 'old'); a, n, sep, p = toks(cx, d['st']); a0, n0, _, p0 = toks(cx, d['st'], 'old'); nl, nd = Z(y.f['_lookup'].len), Z(y.f['_dfa'].len); il = i if phase == 0 else nl
        o = [('the types match', d['same']), ('the text stays', z3.And(a == a0, n == n0)), ('eoi', Z(m.f['_eoi']) == Z(y.f['_eoi'])), ('lookup tables read', z3.And(Z(m.f['_lookup'].len) == il, eqt(m.f['_lookup'], y.f['_lookup'], Q, il)))]
        if phase == 0: return o + [('position', p == LOFF(i)), ('index', z3.And(i >= 0, i <= nl)), ('nothing else is in the target', z3.And(Z(m.f['_dfa'].len) == 0, Z(m.f['_dfa_alphabet'].len) == 0)), ('count', Z(cx.v('num_')) == nl)]
        x, z = m.f['_dfa_alphabet'], y.f['_dfa_alphabet']
        o += [('alphabets read', z3.And(Z(x.len) == Z(z.len), z3.Implies(z3.And(J >= 0, J < Z(z.len)), z3.Select(x.arr, J) == z3.Select(z.arr, J)))), ('features', Z(m.f['_features']) == Z(y.f['_features'])), ('transition tables read', z3.And(Z(m.f['_dfa'].len) == i, eqt(m.f['_dfa'], y.f['_dfa'], Q, i))), ('position', p == DOFF(i)), ('index', z3.And(i >= 0, i <= nd))]
        return o + ([('count', Z(cx.v('num_')) == nd)] if phase == 1 else [])
    def e_load(cx, r):
        for n, g in ld(cx, 2, Z(cx.load(cx.data['m0'], 'old').f['_dfa'].len)): cx.oblige(n, g)
    def t_load(cx, ex):
        cx.oblige('a mismatch is reported only for different types', z3.Not(cx.data['same']))
    ix = lambda phase: (lambda cx: ld(cx, phase, Z(cx.v('idx_'))))
    out.append(Contract('load<%s>' % id_, func=ff('load'), setup=s_load, loops=[ix(0), ix(1)], ensures=e_load, throws=t_load, summaries=SUM + [(lambda q, *a: q.endswith('::data'), h_data)], **HOOK))
    return out
cs = contracts('unsigned short', 16, None) + contracts('unsigned int', 32, None) + contracts('unsigned char', 8, None)
GROUPS = [dict(driver=DRIVER, contracts=cs)]
LEVEL = 'proof'
SEARCH = ['L11.cpp']
RULE = 'random table machines (id types uint8, uint16, uint32, all values incl. maxima) saved, text appended behind, loaded into a non-empty machine: every field equal and the trailing text still there; non-trivial: at least one table'
ASSUMPTIONS = ['the standard streams write an unsigned integer as decimal digits and read the same number back when it is delimited by white space (classic locale, no stream failure)', 'the encoding predicate is shared by the contracts of save and load; the round trip is their composition']
