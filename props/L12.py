"""replace(): the output is gap, replacement, gap, replacement, ... for the tokens of repeated lookup()."""
from .common import *
DRIVER = r'''
#include <cstdint>
#include <map>
#include <string>
#include <lexertl/lookup.hpp>
#include <lexertl/state_machine.hpp>
#include <lexertl/replace.hpp>
using S = std::string; using I = S::const_iterator; using P = const char*; using SM = lexertl::state_machine; using ID = std::uint16_t;
void f(char* o, P a, P b, I c, I d, const SM& m, const S& s, const std::map<ID, S>& ms, const std::map<ID, S(*)(I&, I&)>& mf, const std::map<ID, P>& mp, const std::map<ID, P(*)(P, P)>& mq, const std::map<ID, S(*)(P, P)>& mr) {
    using namespace lexertl;
    replace(o, a, b, m, s); replace(o, a, b, m, ms); replace(o, c, d, m, mf); replace(o, a, b, m, a); replace(o, a, b, m, mp); replace(o, a, b, m, mq);
    replace(s, m, s); replace(s, m, ms); replace(s, m, mf); replace(s, m, a); replace(s, m, mp); replace(s, m, mq);
    replace(a, m, s); replace(a, m, ms); replace(a, m, mr); replace(a, m, a); replace(a, m, mp); replace(a, m, mq);
}
'''
I_ = z3.IntSort(); AI = z3.ArraySort(I_, I_)
F, E, ID = [z3.Function(n, I_, I_) for n in ('TOKEN_FIRST', 'TOKEN_SECOND', 'TOKEN_ID')]
BOL, ST = z3.Function('TOKEN_BOL', I_, z3.BoolSort()), z3.Function('TOKEN_STATE', I_, I_)
POS = z3.Function('OUTPUT_AT', I_, I_)                    # where the output for token i (its gap first) starts
END = z3.Function('NUL_AT', AI, I_, I_)                   # first NUL at or behind a position
RESLEN, RESAT = z3.Function('RESULT_LENGTH', I_, I_, I_, I_), z3.Function('RESULT_AT', I_, I_, I_, I_)
RES = z3.Function('RESULT_TEXT', I_, I_, I_, AI)
Q, J = z3.Ints('Q J')
SEL = z3.Select
def clean(t): return t.replace('std::basic_string<char>', 'std::string').replace('std::', '').replace(' ', '')
KEYS = {'S': ('string&',), 'P': ('char*',)}
def kind(n):
    """(output pointer?, source kind, format kind) from the parameter types"""
    ps = [p['type'].get('desugaredQualType', p['type']['qualType']) for p in params_of(n)]; last = ps[-1].replace(' ', '')
    out = len(ps) == 5; src = 'range' if out else ('cstr' if '*' in ps[0] else 'str')
    if 'map<' in last: fm = 'mapfn_str' if '(*)' in last and not last.split('(*)')[0].endswith('char*') else 'mapfn_cstr' if '(*)' in last else 'mapcstr' if 'char*' in last else 'mapstr'
    else: fm = 'cstr' if last.endswith('char*') or last.endswith('char*const') else 'str'
    return out, src, fm
def make(out, src, fm):
    nm = 'replace(%s%s, %s)' % ('out, ' if out else '', {'range': 'first, last', 'cstr': 'const char*', 'str': 'string'}[src], fm)
    def func(u):
        o = [n for q, n in u.funcs if q == 'lexertl::replace' and not any(x in n['type']['qualType'] for x in ('char_type', 'fwd_iter', 'id_type', 'out_iter')) and kind(n) == (out, src, fm)]
        if not o: raise ExtractError(nm + ' not found')
        return o[0]
    CH = Ty('int', (8, True))
    def text(cx, name):
        lv = cx.cell(cx.fresh(Ty('vec', [CH]), name), name); v = cx.load(lv); cx.assume(Z(v.len) < 2 ** 40); return lv
    def nul(cx, arr, p, n):
        """assumption on C strings: there is a NUL inside the array"""
        cx.assume(nulf(arr, p, n)); return END(arr, p)
    def nulf(arr, p, n): e = END(arr, p); q = z3.Int('q?'); return z3.And(p >= 0, e >= p, e < n, SEL(arr, e) == 0, z3.ForAll([q], z3.Implies(z3.And(q >= p, q < e), SEL(arr, q) != 0), patterns=[SEL(arr, q)]))
    def setup(cx):
        d = cx.data; d['cnt'] = cx.cell(z3.IntVal(0), 'lookups'); sm = cx.cell(Op('machine'), 'sm'); t = text(cx, 'text'); v = cx.load(t); args = []
        if src == 'cstr': b = z3.Int('begin'); e = nul(cx, v.arr, b, Z(v.len)); args = [It(t, b)]
        elif src == 'range': b, e = z3.Int('begin'), z3.Int('end'); cx.assume(z3.And(0 <= b, b <= e, e <= Z(v.len))); args = [It(t, b), It(t, e)]
        else: b, e = z3.IntVal(0), Z(v.len); args = [t]
        d.update(t=t, b=b, e=e, sm=sm)
        if out: o = text(cx, 'output'); d['o'] = o; d['o0'] = z3.Int('out_position'); cx.assume(z3.And(d['o0'] >= 0, d['o0'] <= Z(cx.load(o).len))); args = [It(o, d['o0'])] + args
        pool = text(cx, 'pool'); d['pool'] = pool; pv = cx.load(pool); U16 = Ty('int', (16, False))
        def mp(val): mem = z3.Const('map_has', z3.ArraySort(I_, z3.BoolSort())); s = S('map', {'mem': mem, 'size': z3.Int('map_size'), 'val': val}); d['mem'] = mem; return s
        if fm == 'str': f = cx.cell(cx.fresh(Ty('vec', [CH]), 'fmt'), 'fmt'); fv = cx.load(f); d['rep'] = lambda i: (fv.arr, z3.IntVal(0), Z(fv.len)); cx.assume(Z(fv.len) < 2 ** 40)
        elif fm == 'cstr': p = z3.Int('fmt_position'); pe = nul(cx, pv.arr, p, Z(pv.len)); f = It(pool, p); d['rep'] = lambda i: (pv.arr, p, pe - p)
        else:
            if fm == 'mapstr':
                val = cx.ex.fresh(Ty('vec', [CH]), 'entry', 1); ent = lambda i: (SEL(val.arr, ID(i)), z3.IntVal(0), SEL(val.len, ID(i)))
            elif fm == 'mapcstr':
                pos = z3.Const('entry_position', AI); val = It(pool, pos); d['pos'] = pos; ent = lambda i: (pv.arr, SEL(pos, ID(i)), END(pv.arr, SEL(pos, ID(i))) - SEL(pos, ID(i)))
            else:
                val = z3.Const('entry_function', AI); g = lambda i: (SEL(val, ID(i)), F(i), E(i))
                ent = (lambda i: (RES(*g(i)), z3.IntVal(0), RESLEN(*g(i)))) if fm == 'mapfn_str' else (lambda i: (pv.arr, RESAT(*g(i)), END(pv.arr, RESAT(*g(i))) - RESAT(*g(i))))
            m = mp(val); f = cx.cell(m, 'fmt'); tv = v
            def rep(i):
                a, o_, n_ = ent(i); has = SEL(d['mem'], ID(i)); return (z3.If(has, a, tv.arr), z3.If(has, o_, F(i)), z3.If(has, n_, E(i) - F(i)))
            d['rep'] = rep
        d['fmt'] = f
        return None, args + [sm, f]
    def prev(cx, i): return z3.If(i == 0, cx.data['b'], E(i - 1))
    def tokens(cx, i):
        """what lookup guarantees about token i (L02): contiguous, in order, and an end token at the end only"""
        d = cx.data; p = prev(cx, i)
        cx.assume(z3.And(F(i) >= p, E(i) >= F(i), E(i) <= d['e'], F(i) <= d['e'], ID(i) >= 0, ID(i) < 65536, z3.Implies(ID(i) == 0, z3.And(F(i) == d['e'], E(i) == d['e']))))
        fmtok(cx, i); cx.assume(POS(i + 1) == POS(i) + (F(i) - p) + d['rep'](i)[2])
    def fmtok(cx, i):
        """strings have a length, C strings a NUL"""
        d = cx.data; a, o, n = d['rep'](i)
        if fm in ('mapstr',): cx.assume(z3.Implies(SEL(d['mem'], ID(i)), z3.And(n >= 0, n < 2 ** 40)))
        if fm == 'mapcstr': pv = cx.load(d['pool']); q = SEL(d['pos'], ID(i)); cx.assume(z3.Implies(SEL(d['mem'], ID(i)), nulf(pv.arr, q, Z(pv.len))))
    def h_lookup(cx, f, this, args, site):
        d = cx.data; ex = cx.ex; r = cx.load(args[1]); i = Z(cx.load(d['cnt'])); ex.trust('lookup (contract of L01-L04)')
        cx.oblige('lookup runs on the machine given', z3.BoolVal(same_lv(args[0], d['sm'])))
        cx.oblige('lookup continues in the given text', z3.BoolVal(all(isinstance(r.f[x], It) and same_lv(r.f[x].base, d['t']) for x in ('first', 'second', 'eoi'))))
        cx.oblige('lookup starts at the beginning and continues where it stopped', z3.And(Z(r.f['second'].idx) == prev(cx, i), Z(r.f['eoi'].idx) == d['e'], B(cx, r.f['bol']) == z3.If(i == 0, True, BOL(i - 1)), Z(r.f['state']) == z3.If(i == 0, 0, ST(i - 1))))
        tokens(cx, i); t = d['t']
        r = r.set('id', ID(i)).set('first', It(t, F(i))).set('second', It(t, E(i))).set('bol', BOL(i)).set('state', ST(i)).set('user_id', z3.Int(ex.fresh_name('uid')))
        ex.storev(args[1], r); ex.storev(d['cnt'], z3.simplify(i + 1))
    def cstr(cx, it):
        v = cx.load(it.base); return It(it.base, nul(cx, v.arr, Z(it.idx), Z(v.len)))
    def callptr(cx, fn, argn, site):
        ex = cx.ex; a = [ex.rv(x) for x in argn]; d = cx.data
        cx.oblige('the function gets the range of the token', z3.BoolVal(len(a) == 2 and all(isinstance(x, It) and same_lv(x.base, d['t']) for x in a)))
        g = (fn, Z(a[0].idx), Z(a[1].idx)); ex.trust('replacement function (pure)')
        if fm == 'mapfn_str': cx.assume(z3.And(RESLEN(*g) >= 0, RESLEN(*g) < 2 ** 40)); return V(CH, RESLEN(*g), RES(*g))
        pv = cx.load(d['pool']); cx.assume(nulf(pv.arr, RESAT(*g), Z(pv.len))); return It(d['pool'], RESAT(*g))
    def outv(cx):
        d = cx.data
        if out: o = cx.load(d['o']); return o.arr, Z(cx.v('out_').idx), d['o0']
        o = cx.v('ret_'); return o.arr, Z(o.len), z3.IntVal(0)
    def done(cx, i, arr, n, o0, last=None):
        """the output for the first i tokens"""
        d = cx.data; t = cx.load(d['t']); pQ = prev(cx, Q); gap = F(Q) - pQ; ra, ro, rn = d['rep'](Q); cx.assume(POS(0) == o0); tokens_ok(cx, Q)
        below = z3.And(Q >= 0, Q < i)
        o = [('gap text of every token', z3.Implies(z3.And(below, J >= 0, J < gap), SEL(arr, POS(Q) + J) == SEL(t.arr, pQ + J))),
             ('replacement text of every token', z3.Implies(z3.And(below, J >= 0, J < rn), SEL(arr, POS(Q) + gap + J) == SEL(ra, ro + J))),
             ('earlier output lies before', z3.Implies(below, z3.And(POS(Q) >= o0, gap >= 0, rn >= 0, POS(Q) + gap + rn <= POS(i))))]
        if out: old = cx.load(d['o'], 'old'); o.append(('nothing is written before the output position', z3.Implies(z3.And(J >= 0, J < o0), SEL(arr, J) == SEL(old.arr, J))))
        return o
    def tokens_ok(cx, i): pass
    def inv(cx):
        d = cx.data; ex = cx.ex; i = Z(cx.load(d['cnt'])) - 1; r = cx.v('results_'); l = cx.v('last_'); arr, n, o0 = outv(cx); cx.assume(POS(0) == o0); fmtok(cx, i)
        o = [('token index', i >= 0), ('results are those of the last lookup', z3.And(Z(r.f['id']) == ID(i), Z(r.f['first'].idx) == F(i), Z(r.f['second'].idx) == E(i), Z(r.f['eoi'].idx) == d['e'], B(cx, r.f['bol']) == BOL(i), Z(r.f['state']) == ST(i))),
             ('tokens are in order', z3.And(F(i) >= prev(cx, i), E(i) >= F(i), E(i) <= d['e'], prev(cx, i) >= d['b'], ID(i) >= 0, z3.Implies(ID(i) == 0, z3.And(F(i) == d['e'], E(i) == d['e'])))),
             ('output offsets', POS(i + 1) == POS(i) + (F(i) - prev(cx, i)) + d['rep'](i)[2]),
             ('copied up to the end of the token before', Z(l.idx) == prev(cx, i)), ('output length', z3.And(n == POS(i), n >= o0))]
        if out: o.append(('output has room', n <= Z(cx.load(d['o']).len)))
        return o + done(cx, i, arr, n, o0)
    def nulloop(var):
        def g(cx):
            fr = [f for f in reversed(cx.ex.frames) if f.this is None][0]; p = cx.v(var); v = cx.load(p.base)
            st = cx.data.setdefault('nulstart', {}); key = fr.fn['id']
            if key not in st: st[key] = Z(p.idx)
            return [('no NUL passed', z3.And(Z(p.idx) >= st[key], Z(p.idx) <= END(v.arr, st[key])))]
        return g
    def ensures(cx, r):
        d = cx.data; i = Z(cx.load(d['cnt'])) - 1
        if out: v = cx.load(d['o']); arr, o0 = v.arr, d['o0']; n = Z(cx.ex.val(r).idx); cx.oblige('returns an iterator into the output', z3.BoolVal(same_lv(cx.ex.val(r).base, d['o'])))
        else: v = cx.ex.val(r); v = cx.load(v) if isinstance(v, LV) else v; arr, n, o0 = v.arr, Z(v.len), z3.IntVal(0)
        t = cx.load(d['t'])
        cx.oblige('stops at the end-of-input token', ID(i) == 0)
        for a, g in done(cx, i, arr, n, o0): cx.oblige(a, g)
        cx.oblige('the rest of the text is copied', z3.And(n == POS(i) + d['e'] - prev(cx, i), z3.Implies(z3.And(J >= 0, J < d['e'] - prev(cx, i)), SEL(arr, POS(i) + J) == SEL(t.arr, prev(cx, i) + J))))
        cx.oblige('the text is unchanged', t.arr == cx.load(d['t'], 'old').arr)
    pre = (src == 'cstr') ; loops = []
    if src == 'cstr': loops.append(nulloop('s_'))
    if fm == 'cstr' and (out or src == 'str'): loops.append(nulloop('fmt_'))
    loops.append(inv)
    if out and fm == 'mapcstr': loops.append(nulloop('end_'))
    if out and fm == 'mapfn_cstr': loops.append(nulloop('str_'))
    return Contract(nm, func=func, setup=setup, loops=loops, ensures=ensures, summaries=[('lexertl::lookup', h_lookup)], cstr=cstr, callptr=callptr, copyroom=True)
cs = [make(o, s, f) for o, s, fs in ((True, 'range', ('str', 'mapstr', 'mapfn_str', 'cstr', 'mapcstr', 'mapfn_cstr')), (False, 'str', ('str', 'mapstr', 'mapfn_str', 'cstr', 'mapcstr', 'mapfn_cstr')), (False, 'cstr', ('str', 'mapstr', 'mapfn_str', 'cstr', 'mapcstr', 'mapfn_cstr'))) for f in fs]
GROUPS = [dict(driver=DRIVER, contracts=cs)]
LEVEL = 'proof'
SEARCH = ['L12.cpp']
RULE = 'random table machines and texts through all 18 overloads (pointer, back_inserter and list outputs included) against the token sequence of repeated lookup(); non-trivial: at least one token and one gap'
ASSUMPTIONS = ['lookup() meets its contract (L01-L04): tokens in order, the end-of-input id 0 exactly at the end', 'C strings are NUL terminated; replacement functions are pure; the output buffer is large enough', 'termination of the token loop is progress of lookup (L02)', 'std::copy and basic_string::append are modelled']
