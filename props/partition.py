"""the two partition loops of the generator (character sets; followers of a set of positions): the parts are disjoint, cover what was given, and each part carries exactly what belongs to it"""
from .gen_common import *
from vc.stl import Std
BA = z3.ArraySort(I, Bo); k, j = z3.Ints('k? j?')
# seen from one arbitrary element X (a character, or a class number) and one arbitrary label K (a set's number, or a position):
# x: X is in the part, k: the part carries label K, e: the part is empty
def part(cx, nm): f = lambda s: z3.Bool(cx.ex.fresh_name(nm + '.' + s)); p = S('part', {'x': f('x'), 'k': f('k'), 'e': f('e')}); cx.assume(z3.Implies(p.f['e'], z3.Not(p.f['x']))); return p
def parts(cx, nm, n):
    f = lambda s: z3.Const(cx.ex.fresh_name(nm + '.' + s), BA); a = S('part', {'x': f('x'), 'k': f('k'), 'e': f('e')}); cx.assume(z3.ForAll([k], z3.Implies(SEL(a.f['e'], k), z3.Not(SEL(a.f['x'], k))), patterns=[SEL(a.f['e'], k)])); return V(Ty('opt', [Ty('rec', [], 'part')]), n, S('opt', {'some': z3.K(I, z3.BoolVal(True)), 'val': a}), )
UX, UK = z3.Function('among_the_first', I, Bo), z3.Function('labelled_among_the_first', I, Bo)
def partition(inst, name, npar, what):
    at = lambda v, f, i: SEL(v.arr.f['val'].f[f], i); some = lambda v, i: SEL(v.arr.f['some'], i)
    class PX(Std):
        def zero(self, ty):
            if ty.k == 'opt': return S('opt', {'some': False, 'val': part(self.cx, 'null')})
            if ty.k == 'vec' and ty.a[0].k == 'opt': return parts(self.cx, 'none', 0)
            return super().zero(ty)
        def m_opt_release(self, lv, a, e): v = self.load(lv); self.storev(lv, v.set('some', False)); return v
        def m_opt_reset(self, lv, a, e):
            if not a or a[0].get('kind') == 'CXXDefaultArgExpr': return super().m_opt_reset(lv, a, e)
            v = self.rv(a[0])
            if not (isinstance(v, S) and v.ty == 'opt'): raise ExtractError('reset argument')
            self.storev(lv, v); return VOID
        def std_construct(self, ty, ks, e):
            if ty.k == 'opt' and len(ks) == 1:
                v = self.rv(ks[0])
                if isinstance(v, S) and v.ty == 'opt': return v
            if ty.k == 'opt' and not ks: return self.zero(ty)
            return super().std_construct(ty, ks, e)
        def m_V_pop_front(self, lv, a, e):
            o = self.load(lv); self.check('pop_front of non-empty container', Z(o.len) > 0); self.trust('std::list::pop_front'); n = z3.simplify(Z(o.len) - 1)
            def pop(arr): b = z3.Const(self.fresh_name('pop'), arr.sort()); self.assume(z3.ForAll([k], SEL(b, k) == SEL(arr, k + 1), patterns=[SEL(b, k)])); return b
            ov = o.arr.f['val'].f; self.storev(lv, V(o.ety, n, S('opt', {'some': pop(o.arr.f['some']), 'val': S('part', {q: pop(ov[q]) for q in ov})}))); return VOID
        def m_V_insert(self, lv, a, e):
            o = self.load(lv); i = self.rv(a[0]); v = self.rv(a[1])
            if not (isinstance(i, It) and isinstance(v, S) and v.ty == 'opt' and len(a) == 2): raise ExtractError('list insert')
            p = Z(i.idx); self.check('insert position is valid', z3.And(p >= 0, p <= Z(o.len))); self.trust('std::list::insert')
            def ins(arr, val):
                b = z3.Const(self.fresh_name('ins'), arr.sort()); val = z3.BoolVal(val) if isinstance(val, bool) else val
                self.assume(z3.ForAll([k], SEL(b, k) == z3.If(k < p, SEL(arr, k), z3.If(k == p, val, SEL(arr, k - 1))), patterns=[SEL(b, k)])); return b
            ov = o.arr.f['val'].f; self.storev(lv, V(o.ety, Z(o.len) + 1, S('opt', {'some': ins(o.arr.f['some'], v.f['some']), 'val': S('part', {q: ins(ov[q], v.f['val'].f[q]) for q in ov})}))); return It(i.base, p)
    def new(cx, el, a, e): p = part(cx, 'new'); cx.assume(p.f['e']); return S('opt', {'some': True, 'val': p})
    def fill(cx, f, this, args, site):
        d = cx.data; m = z3.Int('n_given'); cx.assume(z3.And(m >= 0, m < 2 ** 32)); v = parts(cx, 'given', m); d['m'], d['given'] = m, v; cx.ex.storev(args[-1].lv if isinstance(args[-1], Ad) else args[-1], v)
        cx.assume(z3.And(z3.Not(UX(0)), z3.Not(UK(0))))
    def isect(cx, f, this, args, site):
        """contract of intersect (proved on the code of charset and equivset)"""
        ex = cx.ex; g = lambda a: a.lv if isinstance(a, Ad) else a; L, R, O = this, g(args[0]), g(args[1]); l, r, o = cx.load(L), cx.load(R), cx.load(O)
        cx.oblige('the overlap is empty before the next intersection', bb(o.f['e'])); l2, r2, o2 = part(cx, 'left'), part(cx, 'right'), part(cx, 'overlap'); lf, rf, of = l.f, r.f, o2.f; emp = of['e']
        cx.assume(z3.And(of['x'] == z3.And(bb(lf['x']), bb(rf['x'])), l2.f['x'] == z3.And(bb(lf['x']), z3.Not(bb(rf['x']))), r2.f['x'] == z3.And(bb(rf['x']), z3.Not(bb(lf['x'])))))
        cx.assume(z3.Implies(z3.Not(emp), z3.And(of['k'] == z3.Or(bb(lf['k']), bb(rf['k'])), z3.Implies(z3.Not(l2.f['e']), l2.f['k'] == bb(lf['k'])), z3.Implies(z3.Not(r2.f['e']), r2.f['k'] == bb(rf['k'])))))
        cx.assume(z3.Implies(emp, z3.And(l2.f['k'] == bb(lf['k']), r2.f['k'] == bb(rf['k']), l2.f['e'] == bb(lf['e']), r2.f['e'] == bb(rf['e'])))); ex.storev(L, l2); ex.storev(R, r2); ex.storev(O, o2)
    def empty(cx, f, this, args, site): return cx.load(this).f['e']
    bb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    def setup(cx): d = cx.data; d['lhs'] = cx.cell(parts(cx, 'nothing', 0), 'lhs_'); d['pos'] = cx.cell(z3.IntVal(-1), 'place of X'); no = Op('given'); return None, [cx.cell(no, 'given%d' % i) for i in range(npar - 2)] + [d['lhs'], cx.cell(Op('tag'), 'tag')]
    def lhs(cx): return cx.load(cx.data['lhs'])
    def place(cx, *more):
        """a part that contains X (witness of coverage), or -1"""
        v = lhs(cx); n = Z(v.len); p = Z(cx.load(cx.data['pos'])); r = z3.IntVal(-1)
        for c in more + (n - 1, p + 1, p): r = z3.If(z3.And(0 <= c, c < n, at(v, 'x', c)), c, r)
        cx.ex.storev(cx.data['pos'], r); return r
    def disjoint(cx, p): v = lhs(cx); return ('no two parts share an element', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(v.len), at(v, 'x', k)), k == p), patterns=[at(v, 'x', k)]))
    def labels(cx, p, on): v = lhs(cx); return ('a part carries exactly the labels of what contains its elements', z3.Implies(p >= 0, at(v, 'k', p) == on))
    def owned(cx): v = lhs(cx); return ('every part is there', z3.And(Z(v.len) >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(v.len)), some(v, k)), patterns=[at(v, 'x', k), some(v, k)])))
    def left(cx):
        d = cx.data; r = cx.v('rhs_'); n = Z(r.len); t = d['m'] - n; g = d['given']
        for q in (t, t - 1, z3.IntVal(0)): cx.assume(z3.Implies(q >= 0, z3.And(UX(q + 1) == z3.Or(UX(q), at(g, 'x', q)), UK(q + 1) == z3.Or(UK(q), z3.And(at(g, 'x', q), at(g, 'k', q))))))
        return t, ('what is left is the rest of what was given', z3.And(n >= 0, n <= d['m'], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(some(r, k), at(r, 'x', k) == at(g, 'x', t + k), at(r, 'k', k) == at(g, 'k', t + k), at(r, 'e', k) == at(g, 'e', t + k))), patterns=[at(r, 'x', k), at(r, 'k', k), at(r, 'e', k), some(r, k)])))
    def overlap(cx): o = cx.v('overlap_'); return ('the overlap is empty', z3.And(bb(o.f['some']), bb(o.f['val'].f['e'])))
    def L_out(cx): t, rest = left(cx); p = place(cx); return [rest, ('something was taken', t >= 1), ('a label comes with its elements', z3.Implies(UK(t), UX(t))), ('every element given so far is in a part, and no other', (p >= 0) == UX(t)), disjoint(cx, p), labels(cx, p, UK(t)), owned(cx), overlap(cx), ('variant', Z(cx.v('rhs_').len))]
    def L_in(cx):
        t, rest = left(cx); g = cx.data['given']; i = Z(cx.v('iter_').idx); p = place(cx, i - 1); r = cx.v('r_'); rx, rk, re_ = [bb(r.f['val'].f[q]) for q in 'xke']; gx, gk = at(g, 'x', t - 1), at(g, 'k', t - 1); n = Z(lhs(cx).len); gone = z3.And(gx, z3.Not(rx))
        return [rest, ('position', z3.And(0 <= i, i <= n, Z(cx.v('end_').idx) == n, t >= 1, bb(r.f['some']))), ('what is left of the set', z3.And(z3.Implies(rx, gx), z3.Implies(z3.And(z3.Not(re_), rx), rk == gk), z3.Implies(re_, z3.Not(rx)), z3.Implies(rx, z3.Not(z3.And(0 <= p, p < i))))),
                ('a label comes with its elements', z3.Implies(UK(t - 1), UX(t - 1))), ('coverage', (p >= 0) == z3.If(gone, True, UX(t - 1))), ('an element taken from the set is in a part already passed', z3.Implies(gone, p < i)), disjoint(cx, p), labels(cx, p, z3.If(gone, UK(t), UK(t - 1))), owned(cx), overlap(cx), ('variant', z3.If(re_, 0, n - i + 1))]
    def ens(cx, r):
        d = cx.data; v = lhs(cx); p = place(cx, z3.IntVal(0)); m = d['m']; cx.assume(z3.And(UX(1) == at(d['given'], 'x', 0), UK(1) == z3.And(at(d['given'], 'x', 0), at(d['given'], 'k', 0)))); cx.oblige('every element given is in a part, and no other', (p >= 0) == UX(m))
        for g in (disjoint(cx, p), labels(cx, p, UK(m)), owned(cx)): cx.oblige(*g)
    tt = lambda n: 'true_type' in par(n) or 'integral_constant<bool, true>' in par(n)
    return Contract('%s<%s>' % (name, inst), func=gfind(inst, name, npar, tt), setup=setup, ensures=ens, loops=[L_out, L_in], summaries=[(sub('fill_rhs_list'), fill), (lambda q, n: q.endswith('::intersect'), isect), (lambda q, n: q.endswith('::empty') and ('charset' in q or 'equivset' in q), empty)], exec_class=PX, make_unique=new)
