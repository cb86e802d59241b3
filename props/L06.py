"""Character-class set algebra: basic_string_token<char> and <char32_t>."""
import z3
from vc.exec import *
from vc.sym import *
from vc.front import params_of
DRIVER = r'''
#include <lexertl/string_token.hpp>
template struct lexertl::basic_string_token<char>;
template struct lexertl::basic_string_token<char32_t>;
template struct lexertl::basic_string_token<wchar_t>;
template<class T, class C> void use(T& a, T& b, T& c, C x) { T d(x), e(x, x); a.insert(b._ranges[0]); a.insert(b); a.negate(); a.intersect(b, c); a.remove(b); a.clear(); (void)(a.any() && a.empty() && a.size() && a.negatable()); }
void g(lexertl::basic_string_token<char16_t>& c) { use(c, c, c, u'a'); }
bool f(lexertl::basic_string_token<char>& a, lexertl::basic_string_token<char32_t>& b, lexertl::basic_string_token<char16_t>& c, lexertl::basic_string_token<wchar_t>& d) { return a == a || b == b || c == c || d == d; }
'''
k, j = z3.Ints('k j')
def fs(v): return v.arr.f['first'], v.arr.f['second']
def wf(v, MAX):
    f, s = fs(v); n = Z(v.len)
    return [('ranges are non-empty and in the alphabet', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= z3.Select(f, k), z3.Select(f, k) <= z3.Select(s, k), z3.Select(s, k) <= MAX)), patterns=[z3.Select(f, k), z3.Select(s, k)])),
            ('ranges are sorted, disjoint and not adjacent', z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), z3.Select(s, k) + 1 < z3.Select(f, j)), patterns=[z3.MultiPattern(z3.Select(s, k), z3.Select(f, j))]))]
def inr(a, b, X): return z3.And(Z(a) <= X, X <= Z(b))
def at(v, i, X):
    f, s = fs(v); return inr(z3.Select(f, i), z3.Select(s, i), X)
def mem(v, X, lo=None, hi=None, nm='m'):
    q = z3.Int('q_' + nm)
    lo = 0 if lo is None else Z(lo); hi = Z(v.len) if hi is None else Z(hi)
    return z3.Exists([q], z3.And(lo <= q, q < hi, at(v, q, X)))

def contracts(ch, ity, MAX, suffix):
    REC = 'lexertl::basic_string_token<%s>' % ch
    R = {}
    def m(name, npar, pred=lambda n: True):
        def f(u):
            o = [n for q, n in u.funcs if q == '%s::%s' % (REC, name) and len(params_of(n)) == npar and pred(n)]
            if not o: raise ExtractError('%s not found' % name)
            return o[0]
        return f
    is_range_insert = lambda n: 'pair' in params_of(n)[0]['type'].get('desugaredQualType', params_of(n)[0]['type']['qualType']) or 'range' in params_of(n)[0]['type']['qualType']
    def tok(cx, name, wellformed=True):
        v = cx.fresh(Ty('vec', [Ty('pair', [parse_type(ity), parse_type(ity)])]), name)
        s = S(cx.ex.find_record(REC), {'_ranges': v}); lv = cx.cell(s, name)
        if wellformed:
            for _, g in wf(v, MAX): cx.assume(g)
        return lv
    def rng(cx, name):
        a, b = cx.fresh(ity, name + 'f'), cx.fresh(ity, name + 's')
        return S('pair', {'first': a, 'second': b}), a, b
    def V_(cx, lv, snap=None): return cx.load(lv.f('_ranges'), snap)
    X = z3.Int('X')
    def obl_wf(cx, lv, pre=''):
        for n, g in wf(V_(cx, lv), MAX): cx.oblige(pre + n, g)
    def iso(v, a, b):
        f, s = fs(v)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(v.len)), z3.Or(z3.Select(s, k) + 1 < a, b + 1 < z3.Select(f, k))), patterns=[z3.Select(f, k), z3.Select(s, k)])
    def ins_post(old, new, a, b, p, X):
        """what insert guarantees; old/new vectors, inserted range [a,b], returned index p"""
        f, s = fs(old); f2, s2 = fs(new); n, n2 = Z(old.len), Z(new.len)
        sh = lambda d, g: z3.And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), d(k, 0)), patterns=g(k)), )
        return [('union: every character of either operand is in the result', z3.Implies(z3.Or(mem(old, X), inr(a, b, X)), mem(new, X))),
                ('union: no other character is in the result', z3.Implies(mem(new, X), z3.Or(mem(old, X), inr(a, b, X)))),
                ('returned position is valid', z3.And(0 <= p, p <= n2)),
                ('the largest stored character is that of the operands', z3.And(n2 >= 1, z3.Select(s2, n2 - 1) == z3.If(z3.And(n > 0, z3.Select(s, n - 1) > b), z3.Select(s, n - 1), b))),
                ('an isolated range is stored unchanged at the returned position', z3.Implies(iso(old, a, b), z3.And(n2 == n + 1, p < n2, z3.Select(f2, p) == a, z3.Select(s2, p) == b))),
                ('an isolated range leaves the others in place', z3.Implies(iso(old, a, b), z3.And(
                    z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), z3.And(z3.Select(f2, k) == z3.Select(f, k), z3.Select(s2, k) == z3.Select(s, k))), patterns=[z3.Select(f2, k), z3.Select(s2, k)]),
                    z3.ForAll([k], z3.Implies(z3.And(p < k, k < n2), z3.And(z3.Select(f2, k) == z3.Select(f, k - 1), z3.Select(s2, k) == z3.Select(s, k - 1))), patterns=[z3.Select(f2, k), z3.Select(s2, k)]))))]
    # ------------------------------------------------ insert(range)
    def s_ins(cx):
        t = tok(cx, 'this'); r, a, b = rng(cx, 'r'); cx.assume(z3.And(0 <= a, a <= b, b <= MAX)); cx.data.update(a=a, b=b, t=t)
        return t, [r]
    def i_ins(cx):
        t = cx.data['t']; v = V_(cx, t); n = Z(v.len); f, s = fs(v)
        c = Z(cx.v('iter_').idx); e = Z(cx.v('erase_iter_').idx); en = Z(cx.v('end_').idx); r = cx.v('rhs_'); a, b = Z(r.f['first']), Z(r.f['second'])
        return [('cursors', z3.And(0 <= c, c <= n, en == n, z3.Or(e == n, z3.And(0 <= e, e < c)))),
                ('range', z3.And(0 <= a, a <= b, b <= MAX, a <= cx.data['a'], b >= cx.data['b'])),
                ('insert flag', Z(cx.v('insert_')) == True),
                ('nothing absorbed yet', z3.Implies(e == n, z3.And(a == cx.data['a'], b == cx.data['b'], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), z3.Select(s, k) + 1 < a), patterns=[z3.Select(s, k)])))),
                ('before the absorbed ones', z3.Implies(e < n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < e), z3.Select(s, k) + 1 < a), patterns=[z3.Select(s, k)]))),
                ('absorbed ones are inside', z3.Implies(e < n, z3.ForAll([k], z3.Implies(z3.And(e <= k, k < c), z3.And(a <= z3.Select(f, k), z3.Select(s, k) <= b)), patterns=[z3.Select(f, k), z3.Select(s, k)]))),
                ('upper end is the largest absorbed one', z3.Implies(e < n, b == z3.If(z3.Select(s, c - 1) > cx.data['b'], z3.Select(s, c - 1), cx.data['b']))),
                ('absorbing adds nothing else', z3.Implies(z3.And(inr(a, b, X), z3.Not(inr(cx.data['a'], cx.data['b'], X))), z3.And(e < n, mem(v, X, e, c)))),
                ('an isolated range absorbs nothing', z3.Implies(e < n, z3.Exists([k], z3.And(0 <= k, k < n, z3.Not(z3.Or(z3.Select(s, k) + 1 < cx.data['a'], cx.data['b'] + 1 < z3.Select(f, k))))))),
                ('variant', n - c)]
    def e_ins(cx, ret):
        t = cx.data['t']; old, new = V_(cx, t, 'old'), V_(cx, t); a, b = cx.data['a'], cx.data['b']
        obl_wf(cx, t)
        for nm, g in ins_post(old, new, a, b, Z(ret.idx), X): cx.oblige(nm, g)
    out = [Contract(suffix + '::insert(range)', func=m('insert', 1, is_range_insert), setup=s_ins, ensures=e_ins, loops=[i_ins])]
    # summary used by callers: exactly the contract proved above, for the current X
    def sum_insert(cx, f, this, args, site):
        if not is_range_insert(f): return NotImplemented
        ex = cx.ex; t = this; old = ex.load(t.f('_ranges')); r = ex.val(args[0]); a, b = Z(r.f['first']), Z(r.f['second'])
        for nm, g in wf(old, MAX): cx.oblige('insert precondition: ' + nm, g)
        cx.oblige('insert precondition: range is well-formed', z3.And(0 <= a, a <= b, b <= MAX))
        new = cx.fresh(Ty('vec', [Ty('pair', [parse_type(ity), parse_type(ity)])]), 'ins')
        p = z3.Int(ex.fresh_name('p'))
        for nm, g in wf(new, MAX): cx.assume(g)
        for nm, g in ins_post(old, new, a, b, p, X): cx.assume(g)
        for extra in cx.data.get('XS', []):
            for nm, g in ins_post(old, new, a, b, p, extra)[:2]: cx.assume(g)
        ex.storev(t.f('_ranges'), new)
        return It(t.f('_ranges'), p)
    SUM = [('insert', sum_insert)]
    # ------------------------------------------------ insert(token)
    def s_inst(cx): t = tok(cx, 'this'); r = tok(cx, 'rhs'); cx.data.update(t=t, r=r); return t, [r]
    def i_inst(cx):
        t, r = cx.data['t'], cx.data['r']; c = Z(cx.v('iter_').idx); rv = V_(cx, r); o = V_(cx, t, 'old'); v = V_(cx, t)
        return [('cursor', z3.And(0 <= c, c <= Z(rv.len), Z(cx.v('end_').idx) == Z(rv.len)))] + wf(v, MAX) + [
                ('union so far (1)', z3.Implies(z3.Or(mem(o, X), mem(rv, X, 0, c)), mem(v, X))), ('union so far (2)', z3.Implies(mem(v, X), z3.Or(mem(o, X), mem(rv, X, 0, c)))), ('variant', Z(rv.len) - c)]
    def e_inst(cx, ret):
        t, r = cx.data['t'], cx.data['r']; o, v, rv = V_(cx, t, 'old'), V_(cx, t), V_(cx, r, 'old')
        obl_wf(cx, t); cx.oblige('union (1)', z3.Implies(z3.Or(mem(o, X), mem(rv, X)), mem(v, X))); cx.oblige('union (2)', z3.Implies(mem(v, X), z3.Or(mem(o, X), mem(rv, X))))
    out.append(Contract(suffix + '::insert(string_token)', func=m('insert', 1, lambda n: not is_range_insert(n)), setup=s_inst, ensures=e_inst, loops=[i_inst], summaries=SUM))
    # ------------------------------------------------ negate
    def s_neg(cx): t = tok(cx, 'this'); cx.data['t'] = t; return t, []
    def i_neg(cx):
        t = cx.data['t']; v = V_(cx, t); f, s = fs(v); n = Z(v.len); c = Z(cx.v('iter_').idx); nx = Z(cx.v('next_')); tv = cx.load(cx.lv('temp_').f('_ranges')); tf, ts = fs(tv)
        return [('cursor', z3.And(0 <= c, c <= n, Z(cx.v('end_').idx) == n)), ('not finished', Z(cx.v('finished_')) == False),
                ('next is one past the last range', z3.And(z3.If(c == 0, nx == 0, nx == z3.Select(s, c - 1) + 1), nx <= MAX)),
                ('earlier ranges are below next', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), z3.Select(s, k) < nx), patterns=[z3.Select(s, k)]))] + wf(tv, MAX) + [
                ('temp stays below next', z3.Implies(Z(tv.len) > 0, z3.Select(ts, Z(tv.len) - 1) < nx)),
                ('complement below next (1)', z3.Implies(z3.And(0 <= X, X < nx, z3.Not(mem(v, X))), mem(tv, X))),
                ('complement below next (2)', z3.Implies(mem(tv, X), z3.And(0 <= X, X < nx, z3.Not(mem(v, X))))), ('variant', n - c)]
    def e_neg(cx, ret):
        t = cx.data['t']; o, v = V_(cx, t, 'old'), V_(cx, t)
        obl_wf(cx, t); cx.oblige('complement (1)', z3.Implies(z3.And(0 <= X, X <= MAX, z3.Not(mem(o, X))), mem(v, X))); cx.oblige('complement (2)', z3.Implies(mem(v, X), z3.And(0 <= X, X <= MAX, z3.Not(mem(o, X)))))
    # the bound "temp stays below next" needs the members of temp at their upper ends: insert's contract is
    # instantiated for an arbitrary second character Y as well
    out.append(Contract(suffix + '::negate', func=m('negate', 0), setup=s_neg, ensures=e_neg, loops=[i_neg], summaries=SUM))
    # ------------------------------------------------ intersect / remove (private adjust inlined)
    def ov(a, b, lv_, rv):
        lf, ls = fs(lv_); rf, rs = fs(rv)
        return z3.If(z3.And(a < Z(lv_.len), b < Z(rv.len), z3.Select(rf, b) <= z3.Select(ls, a), z3.Select(lf, a) <= z3.Select(rs, b)), z3.IntVal(1), z3.IntVal(0))
    def s_int(cx):
        t, r, o = tok(cx, 'this'), tok(cx, 'rhs'), tok(cx, 'overlap'); cx.data.update(t=t, r=r, o=o)
        return t, [r, o]
    def common(cx, both):
        t, r = cx.data['t'], cx.data['r']; L, Rv = V_(cx, t), V_(cx, r); L0, R0 = V_(cx, t, 'old'), V_(cx, r, 'old')
        a, b = Z(cx.v('lhs_iter_').idx), Z(cx.v('rhs_iter_').idx)
        I = [('cursors', z3.And(0 <= a, a <= Z(L.len), 0 <= b, b <= Z(Rv.len), Z(cx.v('lhs_end_').idx) == Z(L.len), Z(cx.v('rhs_end_').idx) == Z(Rv.len)))]
        I += [('left: ' + n, g) for n, g in wf(L, MAX)]
        if both: I += [('right: ' + n, g) for n, g in wf(Rv, MAX)]
        I += [('left shrinks', z3.Implies(mem(L, X), mem(L0, X))),
              ('skipped left ranges are disjoint from the right operand', z3.Implies(mem(L, X, 0, a), z3.Not(mem(Rv, X)))),
              ('skipped right ranges are disjoint from the left operand', z3.Implies(mem(Rv, X, 0, b), z3.Not(mem(L, X))))]
        I.append(('variant', 2 * (Z(L.len) - a + Z(Rv.len) - b) + ov(a, b, L, Rv)))
        return I, L, Rv, L0, R0
    def i_int(cx):
        I, L, Rv, L0, R0 = common(cx, True); o = V_(cx, cx.data['o']); o0 = V_(cx, cx.data['o'], 'old')
        moved = z3.And(mem(L0, X), z3.Not(mem(L, X)))
        I[-1:-1] = [('overlap: ' + n, g) for n, g in wf(o, MAX)] + [
            ('right shrinks', z3.Implies(mem(Rv, X), mem(R0, X))),
            ('what leaves one operand leaves the other (1)', z3.Implies(z3.And(mem(L0, X), z3.Not(mem(L, X))), z3.And(mem(R0, X), z3.Not(mem(Rv, X))))),
            ('what leaves one operand leaves the other (2)', z3.Implies(z3.And(mem(R0, X), z3.Not(mem(Rv, X))), z3.And(mem(L0, X), z3.Not(mem(L, X))))),
            ('overlap gets what left (1)', z3.Implies(z3.Or(mem(o0, X), z3.And(mem(L0, X), z3.Not(mem(L, X)))), mem(o, X))),
            ('overlap gets what left (2)', z3.Implies(mem(o, X), z3.Or(mem(o0, X), z3.And(mem(L0, X), z3.Not(mem(L, X))))))]
        return I
    def e_int(cx, ret):
        t, r, o = cx.data['t'], cx.data['r'], cx.data['o']
        L, Rv, O = V_(cx, t), V_(cx, r), V_(cx, o); L0, R0, O0 = V_(cx, t, 'old'), V_(cx, r, 'old'), V_(cx, o, 'old')
        for lv, nm in ((t, 'left: '), (r, 'right: '), (o, 'overlap: ')): obl_wf(cx, lv, nm)
        cx.oblige('left becomes left minus right (1)', z3.Implies(z3.And(mem(L0, X), z3.Not(mem(R0, X))), mem(L, X)))
        cx.oblige('left becomes left minus right (2)', z3.Implies(mem(L, X), z3.And(mem(L0, X), z3.Not(mem(R0, X)))))
        cx.oblige('right becomes right minus left (1)', z3.Implies(z3.And(mem(R0, X), z3.Not(mem(L0, X))), mem(Rv, X)))
        cx.oblige('right becomes right minus left (2)', z3.Implies(mem(Rv, X), z3.And(mem(R0, X), z3.Not(mem(L0, X)))))
        cx.oblige('overlap receives the intersection (1)', z3.Implies(z3.Or(mem(O0, X), z3.And(mem(L0, X), mem(R0, X))), mem(O, X)))
        cx.oblige('overlap receives the intersection (2)', z3.Implies(mem(O, X), z3.Or(mem(O0, X), z3.And(mem(L0, X), mem(R0, X)))))
    out.append(Contract(suffix + '::intersect', func=m('intersect', 2), setup=s_int, ensures=e_int, loops=[i_int], summaries=SUM, timeout=60))
    def s_rem(cx):
        t, r = tok(cx, 'this'), tok(cx, 'rhs'); cx.data.update(t=t, r=r); return t, [r]
    def i_rem(cx):
        I, L, Rv, L0, R0 = common(cx, False)
        I[-1:-1] = [('only common characters are removed', z3.Implies(z3.And(mem(L0, X), z3.Not(mem(L, X))), mem(Rv, X)))]
        return I
    def e_rem(cx, ret):
        t, r = cx.data['t'], cx.data['r']; L, L0, R0 = V_(cx, t), V_(cx, t, 'old'), V_(cx, r, 'old')
        obl_wf(cx, t)
        cx.oblige('difference (1)', z3.Implies(z3.And(mem(L0, X), z3.Not(mem(R0, X))), mem(L, X)))
        cx.oblige('difference (2)', z3.Implies(mem(L, X), z3.And(mem(L0, X), z3.Not(mem(R0, X)))))
    out.append(Contract(suffix + '::remove', func=m('remove', 1), setup=s_rem, ensures=e_rem, loops=[i_rem], summaries=SUM))
    # ------------------------------------------------ queries
    def s_q(cx): t = tok(cx, 'this'); cx.data['t'] = t; return t, []
    B = lambda cx, r: Z(cx.ex.val(r))
    def e_any(cx, r):
        v = V_(cx, cx.data['t'])
        cx.oblige('any() is true only for the whole alphabet', z3.Implies(z3.And(B(cx, r), 0 <= X, X <= MAX), mem(v, X)))
        cx.oblige('any() is true for the whole alphabet', z3.Implies(z3.And(Z(v.len) == 1, z3.Select(fs(v)[0], 0) == 0, z3.Select(fs(v)[1], 0) == MAX), B(cx, r)))
        # canonical form: a normalised set containing 0, MAX and everything between has one range
        cx.oblige('a set that is not any() misses a character', z3.Implies(z3.Not(B(cx, r)), z3.Or(Z(v.len) == 0, z3.Not(mem(v, z3.IntVal(0))), z3.Not(mem(v, z3.IntVal(MAX))), z3.And(Z(v.len) > 1, z3.Not(mem(v, z3.Select(fs(v)[1], 0) + 1))))))
    out.append(Contract(suffix + '::any', func=m('any', 0), setup=s_q, ensures=e_any))
    out.append(Contract(suffix + '::empty', func=m('empty', 0), setup=s_q, ensures=lambda cx, r: (
        cx.oblige('empty() means no character', z3.Implies(B(cx, r), z3.Not(mem(V_(cx, cx.data['t']), X)))),
        cx.oblige('not empty() means some character', z3.Implies(z3.Not(B(cx, r)), mem(V_(cx, cx.data['t']), z3.Select(fs(V_(cx, cx.data['t']))[0], 0)))))))
    out.append(Contract(suffix + '::size', func=m('size', 0), setup=s_q, ensures=lambda cx, r: cx.oblige('size() is the number of ranges', B(cx, r) == Z(V_(cx, cx.data['t']).len))))
    def s_clr(cx): t = tok(cx, 'this'); cx.data['t'] = t; return t, []
    out.append(Contract(suffix + '::clear', func=m('clear', 0), setup=s_clr, ensures=lambda cx, r: cx.oblige('clear() empties the set', z3.Not(mem(V_(cx, cx.data['t']), X)))))
    SZ = z3.Function('count_upto', z3.IntSort(), z3.IntSort())
    def s_ng(cx):
        t = tok(cx, 'this'); cx.data['t'] = t; v = V_(cx, t); f, s = fs(v)
        # ghost: number of characters in the first k ranges
        cx.assume(SZ(0) == 0)
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(v.len)), SZ(k + 1) == SZ(k) + z3.Select(s, k) - z3.Select(f, k) + 1), patterns=[SZ(k + 1), z3.Select(s, k)]))
        return t, []
    def i_ng(cx):
        v = V_(cx, cx.data['t']); f, s = fs(v); c = Z(cx.v('__begin').idx)
        return [('cursor', z3.And(0 <= c, c <= Z(v.len), Z(cx.v('__end').idx) == Z(v.len))), ('counted', z3.And(Z(cx.v('size_')) == SZ(c), SZ(c) >= 0, z3.If(c == 0, SZ(c) == 0, SZ(c) <= z3.Select(s, c - 1) + 1))), ('variant', Z(v.len) - c)]
    out.append(Contract(suffix + '::negatable', func=m('negatable', 0), setup=s_ng, loops=[i_ng], ensures=lambda cx, r: cx.oblige('negatable() compares the number of characters with half the alphabet', B(cx, r) == (SZ(Z(V_(cx, cx.data['t']).len)) > MAX // 2))))
    # ------------------------------------------------ constructors
    def cf(npar):
        def f(u):
            o = [n for q, n in u.funcs if q == REC + '::basic_string_token' and len(params_of(n)) == npar and all('basic_string_token' not in p['type']['qualType'] for p in params_of(n))]
            if not o: raise ExtractError('constructor not found')
            return o[0]
        return f
    sg = ch == 'char'
    def s_c(npar):
        def f(cx):
            xs = [cx.fresh(ch, 'c%d' % q) for q in range(npar)]
            u = [z3.If(x < 0, x + 256, x) for x in xs] if sg else xs
            cx.assume(z3.And(*[z3.And(0 <= x, x <= MAX) for x in u])); cx.assume(u[0] <= u[-1]); cx.data['u'] = (u[0], u[-1])
            t = cx.cell(cx.ex.zero_shape(Ty('rec', [], REC)), 'this'); cx.data['t'] = t
            return t, xs
        return f
    def e_c(cx, r):
        v = V_(cx, cx.data['t']); obl_wf(cx, cx.data['t']); a, b = cx.data['u']
        cx.oblige('exactly the given range (1)', z3.Implies(inr(a, b, X), mem(v, X))); cx.oblige('exactly the given range (2)', z3.Implies(mem(v, X), inr(a, b, X)))
    for npar in (1, 2): out.append(Contract(suffix + '::constructor(%d)' % npar, func=cf(npar), setup=s_c(npar), ensures=e_c, summaries=SUM))
    # equality: identical ranges; and a canonical form makes that set equality
    def s_eq(cx): a, b = tok(cx, 'lhs'), tok(cx, 'rhs'); cx.data.update(a=a, b=b); return None, [a, b]
    def f_eq(u):
        o = [n for q, n in u.funcs if q == REC + '::operator==' and len(params_of(n)) == 2]
        if not o: raise ExtractError('operator== not found')
        return o[0]
    def e_eq(cx, r):
        a, b = V_(cx, cx.data['a']), V_(cx, cx.data['b']); r = B(cx, r)
        cx.oblige('equal tokens are equal sets (1)', z3.Implies(z3.And(r, mem(a, X)), mem(b, X))); cx.oblige('equal tokens are equal sets (2)', z3.Implies(z3.And(r, mem(b, X)), mem(a, X)))
        af, as_ = fs(a); bf, bs = fs(b); d = z3.Int('d'); n, m_ = Z(a.len), Z(b.len)
        # canonical form, by induction on the first differing index d: unequal normalised tokens differ in a character
        same = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d), z3.And(z3.Select(af, k) == z3.Select(bf, k), z3.Select(as_, k) == z3.Select(bs, k))), patterns=[z3.Select(af, k), z3.Select(bf, k)])
        first = z3.And(0 <= d, d <= n, d <= m_, same, z3.Or(z3.And(d < n, d < m_, z3.Or(z3.Select(af, d) != z3.Select(bf, d), z3.Select(as_, d) != z3.Select(bs, d))), z3.And(d == n, d < m_), z3.And(d == m_, d < n)))
        cands = [z3.Select(af, d), z3.Select(bf, d), z3.Select(as_, d) + 1, z3.Select(bs, d) + 1]
        cx.oblige('unequal normalised tokens differ in a character', z3.Implies(first, z3.Or(*[mem(a, c, nm='a%d' % q) != mem(b, c, nm='b%d' % q) for q, c in enumerate(cands)])))
        cx.oblige('unequal tokens have a first differing range', z3.Implies(z3.And(r, first), False))
    out.append(Contract(suffix + '::operator==', func=f_eq, setup=s_eq, ensures=e_eq))
    return out, dict(tok=tok, V_=V_, m=m, SUM=SUM, REC=REC, X=X, obl_wf=obl_wf, rng=rng, ity=ity, MAX=MAX)
cs = []
for ch, ity, MAX, sfx in (('char', 'unsigned char', 255, 'string_token<char>'), ('char32_t', 'char32_t', 0x10ffff, 'string_token<char32_t>'), ('char16_t', 'char16_t', 0xffff, 'string_token<char16_t>'), ('wchar_t', 'wchar_t', 0x10ffff, 'string_token<wchar_t>')):
    o, env = contracts(ch, ity, MAX, sfx)
    cs += o
GROUPS = [dict(driver=DRIVER, contracts=cs)]
LEVEL = 'proof'
SEARCH = ['L06.cpp']
RULE = 'random pairs of range lists clustered at both ends, the middle and all over the alphabet (char, char16_t, char32_t, wchar_t); every operation compared with plain interval-list sets at every end point and its neighbours; non-trivial: both operands non-empty'
ASSUMPTIONS = ['to_string/escaping of a token for messages is not covered (no effect on the set)',
               'the operator== canonical-form argument uses the first differing range, whose existence for unequal finite vectors is the one inductive step left to the reader (a least element of a non-empty set of indices)']
