"""state_machine::minimise: only identical rows are merged, everything is renumbered consistently."""
from .common import *
from vc.stl import Std
I, Bo = z3.IntSort(), z3.BoolSort()
AB = z3.ArraySort(I, Bo)
ROW = z3.Function('ROW', I, I); INV = z3.Function('STATE_OF_ROW', I, I)
LT = z3.Function('MEMBERS_BELOW', AB, I, I)
s_, t_, c_ = z3.Ints('s t c')
DRIVER = r'''
#include <lexertl/state_machine.hpp>
template class lexertl::basic_state_machine<char>;
template class lexertl::basic_state_machine<char32_t>;
template class lexertl::basic_state_machine<char, std::uint8_t>;
template class lexertl::basic_state_machine<char, std::uint32_t>;
'''
class MinExec(Std):
    """products/quotients by the row size are row offsets"""
    def mulhook(self, a, b, ty):
        A = self.cx.data['A']
        if Z(a).eq(A): a, b = b, a
        if not Z(b).eq(A): raise ExtractError('unexpected product %s * %s' % (a, b))
        r = ROW(Z(a)); n = self.cx.data['n']
        self.check('product is a row offset inside the table', z3.And(Z(a) >= 0, Z(a) <= n))
        self.rng[r.get_id()] = (0, 1 << 62); self.keep.append(r)
        self.assume(z3.And(r >= 0, r <= ROW(n), ROW(n) - r == ROW(n - Z(a)), INV(ROW(n - Z(a))) == n - Z(a)))
        return r
    def divhook(self, op, a, b, ty):
        if op != '/' or not Z(b).eq(self.cx.data['A']): raise ExtractError('unexpected division')
        r = INV(Z(a)); self.check('dividend is a row offset', z3.And(ROW(r) == Z(a), r >= 0))
        self.rng[r.get_id()] = (0, (1 << 62)); self.keep.append(r)
        return r
def rowfacts(cx, *xs):
    A = cx.data['A']
    for x in xs: cx.assume(z3.Implies(x >= 0, z3.And(ROW(x + 1) == ROW(x) + A, ROW(x) >= 0, INV(ROW(x)) == x)))
def contracts(ch, idt, sfx):
    W = parse_type(idt).a[0]; NP = (1 << W) - 1
    REC = 'lexertl::basic_state_machine<%s, %s>' % (ch, idt)
    X, Y, Q = z3.Ints('X Y Q')       # an arbitrary state, column, and state kept
    def wf(D, n, A):
        return [('the bol start and all links stay inside the table', z3.And(z3.Implies(n > 0, z3.And(0 <= z3.Select(D, 0), z3.Select(D, 0) < n)),
                 z3.ForAll([s_, c_], z3.Implies(z3.And(1 <= s_, s_ < n, z3.Or(c_ == 5, z3.And(7 <= c_, c_ < A))), z3.And(0 <= z3.Select(D, ROW(s_) + c_), z3.Select(D, ROW(s_) + c_) < n)), patterns=[z3.Select(D, ROW(s_) + c_)])))]
    def setup(cx):
        ex = cx.ex; d = cx.data
        A = cx.fresh(idt, 'alphabet'); n = z3.Int('n_states'); d.update(A=A, n=n)
        cx.assume(z3.And(A >= 7, n >= 0, n <= NP))
        dfa = cx.fresh(Ty('vec', [parse_type(idt)]), 'dfa'); dl = cx.cell(dfa, 'dfa_'); D = dfa.arr; d.update(D=D, dl=dl)
        cx.assume(z3.And(ROW(0) == 0, Z(dfa.len) == ROW(n), ROW(n) < (1 << 62)))
        cx.assume(z3.ForAll([s_, t_], z3.Implies(z3.And(0 <= s_, s_ < t_), ROW(s_) + A <= ROW(t_)), patterns=[z3.MultiPattern(ROW(s_), ROW(t_))]))
        cx.assume(z3.ForAll([s_], z3.Implies(0 <= s_, z3.And(INV(ROW(s_)) == s_, ROW(s_) >= 0)), patterns=[ROW(s_)]))
        rowfacts(cx, z3.IntVal(0), z3.IntVal(1), n, n - 1)
        cx.assume(z3.ForAll([k], z3.And(z3.Select(D, k) >= 0, z3.Select(D, k) <= NP), patterns=[z3.Select(D, k)]))
        for _, g in wf(D, n, A): cx.assume(g)
        cx.assume(z3.ForAll([s_], z3.Implies(z3.And(0 <= s_, s_ < n), z3.Select(D, ROW(s_) + 6) == 0), patterns=[ROW(s_)]))    # no transition for characters outside the alphabet
        RE = z3.Function('SAME_ROW', I, I, Bo); d['RE'] = RE
        cx.assume(z3.ForAll([s_, t_], RE(s_, t_) == z3.ForAll([c_], z3.Implies(z3.And(0 <= c_, c_ < A), z3.Select(D, ROW(s_) + c_) == z3.Select(D, ROW(t_) + c_))), patterns=[RE(s_, t_)]))
        # consequences of that definition (proved in the lemma contract)
        cx.assume(z3.ForAll([s_, t_, c_], z3.Implies(z3.And(RE(s_, t_), RE(t_, c_)), RE(s_, c_)), patterns=[z3.MultiPattern(RE(s_, t_), RE(t_, c_))]))
        cx.assume(z3.ForAll([s_, t_], RE(s_, t_) == RE(t_, s_), patterns=[RE(s_, t_)]))
        S_ = z3.Const('S?', AB); e_ = z3.Int('e?')
        # finite sets: number of members below a bound
        cx.assume(z3.ForAll([S_, s_], z3.Implies(s_ >= 0, z3.And(0 <= LT(S_, s_), LT(S_, s_) <= s_)), patterns=[LT(S_, s_)]))
        cx.assume(z3.ForAll([S_, s_, t_], z3.Implies(z3.And(0 <= s_, s_ <= t_), z3.And(LT(S_, s_) <= LT(S_, t_), LT(S_, t_) - LT(S_, s_) <= t_ - s_)), patterns=[z3.MultiPattern(LT(S_, s_), LT(S_, t_))]))
        cx.assume(z3.ForAll([S_, e_, s_], z3.Implies(e_ >= s_, LT(z3.Store(S_, e_, True), s_) == LT(S_, s_)), patterns=[LT(z3.Store(S_, e_, True), s_)]))
        this = cx.cell(Op('state machine'), 'this')
        return this, [A, dl, Z(dfa.len)]
    def step(cx, S, *xs):
        for x in xs: cx.assume(z3.Implies(x >= 0, LT(S, x + 1) == LT(S, x) + z3.If(z3.Select(S, x), 1, 0)))
    def st(cx):
        d = cx.data; s = cx.v('index_set_'); S, sz = s.f['mem'], Z(s.f['size']); phi = cx.v('lookup_'); n = d['n']
        cx.assume(LT(S, z3.IntVal(0)) == 0); step(cx, S, z3.IntVal(0), z3.IntVal(1))
        # all members are below n: the size of the set is the number of members below n
        cx.assume(z3.Implies(z3.ForAll([k], z3.Implies(z3.Select(S, k), z3.And(0 <= k, k < n)), patterns=[z3.Select(S, k)]), LT(S, n) == sz))
        return S, sz, phi.arr, phi.len, n
    def rank(S, x): return x - LT(S, x)
    def base(cx, i, strict):
        """what the numbering computed so far says; kept states below i are numbered, merged ones up to `cur` in round i"""
        d = cx.data; S, sz, P, pl, n = st(cx); RE, A = d['RE'], d['A']
        step(cx, S, i, Q, X)
        ni = Z(cx.v('new_index_'))
        p = lambda x: z3.Select(P, x)
        return [('numbering table has one entry per state', z3.And(Z(pl) == n, n >= 1, 1 <= i, i <= n)),
                ('merged states are states after the start state', z3.ForAll([k], z3.Implies(z3.Select(S, k), z3.And(2 <= k, k < n)), patterns=[z3.Select(S, k)])),
                ('next number', ni == rank(S, i)),
                ('dead state keeps number 0', p(z3.IntVal(0)) == 0),
                ('kept states are numbered in order', z3.Implies(z3.And(1 <= Q, Q < i, z3.Not(z3.Select(S, Q))), p(Q) == rank(S, Q))),
                ('states not yet reached have no number', z3.ForAll([k], z3.Implies(z3.And(i <= k, k < n, z3.Not(z3.Select(S, k))), p(k) == NP), patterns=[p(k)])),
                ('every number is that of a kept state', z3.ForAll([k], z3.Implies(z3.And(0 < k, k < n, p(k) != NP), z3.And(1 <= p(k), p(k) < ni if strict else z3.Or(p(k) < ni, z3.And(p(k) == ni, z3.Not(z3.Select(S, i)))))), patterns=[p(k)])),
                ('states passed have numbers', z3.ForAll([k], z3.Implies(z3.And(1 <= k, k < i), p(k) != NP), patterns=[p(k)])),
                ('a merged state has the number of an identical kept state', z3.Implies(z3.Select(S, X), z3.Exists([k], z3.And(1 <= k, k < X, k <= i, z3.Not(z3.Select(S, k)), p(X) == rank(S, k), p(X) != NP, RE(k, X)), patterns=[RE(k, X)]))),
                ('merged states have numbers', z3.ForAll([k], z3.Implies(z3.Select(S, k), p(k) != NP), patterns=[z3.Select(S, k), p(k)]))]
    def complete(cx, upto):
        d = cx.data; S = cx.v('index_set_').f['mem']; RE = d['RE']; n = d['n']
        return ('states identical to an earlier kept one are merged', z3.ForAll([s_, t_], z3.Implies(z3.And(1 <= s_, s_ < upto, s_ < t_, t_ < n, z3.Not(z3.Select(S, s_)), RE(s_, t_)), z3.Select(S, t_)), patterns=[RE(s_, t_)]))
    def merged_upper(cx, i):
        """merged states not above i were merged into something below them in an earlier round: their representative is below i"""
        d = cx.data; S, sz, P, pl, n = st(cx); RE = d['RE']
        return ('each merged state is identical to a kept state seen already', z3.ForAll([t_], z3.Implies(z3.Select(S, t_), z3.Exists([k], z3.And(1 <= k, k < i, k < t_, z3.Not(z3.Select(S, k)), RE(k, t_)), patterns=[RE(k, t_)])), patterns=[z3.Select(S, t_)]))
    def L_outer(cx):
        i = Z(cx.v('index_')); n = cx.data['n']; rowfacts(cx, i)
        return base(cx, i, True) + [complete(cx, i), merged_upper(cx, i), ('cursor', z3.And(Z(cx.v('first_').idx) == ROW(i), Z(cx.v('end_').idx) == ROW(n))), ('table untouched', unchanged(cx)), ('bol', Z(cx.v('bol_index_')) == z3.Select(cx.data['D'], 0)), ('variant', n - i)]
    def L_inner(cx):
        d = cx.data; i = Z(cx.v('index_')); n = d['n']; c = Z(cx.v('curr_index_')); RE = d['RE']; S = cx.v('index_set_').f['mem']; rowfacts(cx, i, c)
        return base(cx, i, False) + [complete(cx, i), merged_upper(cx, i + 1),
            ('identical states passed are merged', z3.ForAll([t_], z3.Implies(z3.And(i < t_, t_ < c, RE(i, t_)), z3.Select(S, t_)), patterns=[RE(i, t_)])),
            ('if this state is itself merged, so are all identical ones', z3.Implies(z3.Select(S, i), z3.ForAll([t_], z3.Implies(z3.And(i < t_, t_ < n, RE(i, t_)), z3.Select(S, t_)), patterns=[RE(i, t_)]))),
            ('cursor', z3.And(i < c, c <= n, i < n, Z(cx.v('first_').idx) == ROW(i), Z(cx.v('second_').idx) == ROW(c), Z(cx.v('end_').idx) == ROW(n))), ('table untouched', unchanged(cx)), ('bol', Z(cx.v('bol_index_')) == z3.Select(d['D'], 0)), ('variant', n - c)]
    def unchanged(cx):
        v = cx.load(cx.data['dl']); return z3.And(Z(v.len) == ROW(cx.data['n']), v.arr == cx.data['D'])
    def newrow(cx, D2, x, upto=None):
        """the new row of kept state x, columns below `upto` written"""
        d = cx.data; D, A = d['D'], d['A']; S, sz, P, pl, n = st(cx)
        o, r = ROW(x), ROW(rank(S, x)); g = lambda c: z3.Select(D, o + c); h = lambda c: z3.Select(D2, r + c)
        up = A if upto is None else upto
        return z3.And(*[h(c) == g(c) for c in range(5)], h(5) == z3.Select(P, g(5)), z3.Implies(z3.And(7 <= Y, Y < up), h(Y) == z3.Select(P, g(Y))))
    def L_build(cx, inner=False):
        d = cx.data; D, A = d['D'], d['A']; S, sz, P, pl, n = st(cx); i = Z(cx.v('index_')); nd = cx.v('new_dfa_'); D2 = nd.arr
        c = rank(S, i); step(cx, S, i, Q, X); rowfacts(cx, i, c, rank(S, Q), Q, n - sz)
        p = lambda x: z3.Select(P, x)
        b = z3.Select(D, 0)
        out = [('sizes', z3.And(Z(pl) == n, n >= 1, 1 <= i, i <= n, Z(nd.len) == ROW(n - sz), n - sz >= 1, sz >= 1, n - sz == rank(S, n), Z(cx.v('size_')) == n)),
               ('merged states are states after the start state', z3.ForAll([k], z3.Implies(z3.Select(S, k), z3.And(2 <= k, k < n)), patterns=[z3.Select(S, k)])),
               ('dead state keeps number 0', p(z3.IntVal(0)) == 0),
               ('numbers are states of the new table', z3.ForAll([k], z3.Implies(z3.And(0 < k, k < n), z3.And(1 <= p(k), p(k) < n - sz)), patterns=[p(k)])),
               ('kept states are numbered in order', z3.Implies(z3.And(1 <= Q, Q < n, z3.Not(z3.Select(S, Q))), p(Q) == rank(S, Q))),
               ('a merged state has the number of an identical kept state', z3.Implies(z3.Select(S, X), z3.Exists([k], z3.And(1 <= k, k < X, z3.Not(z3.Select(S, k)), p(X) == rank(S, k), d['RE'](k, X)), patterns=[d['RE'](k, X)]))),
               ('row of the dead state', z3.And(z3.Select(D2, 0) == z3.If(b == 0, 0, p(b)), z3.Implies(z3.And(1 <= Y, Y < A), z3.Select(D2, Y) == z3.Select(D, Y)))),
               ('column 6 is empty', z3.Implies(z3.And(1 <= Q, Q < n, z3.Not(z3.Select(S, Q))), z3.Select(D2, ROW(rank(S, Q)) + 6) == 0)),
               ('rows built so far', z3.Implies(z3.And(1 <= Q, Q < i, z3.Not(z3.Select(S, Q))), newrow(cx, D2, Q))),
               ('table untouched', unchanged(cx))]
        if not inner: out += [('cursors', z3.And(Z(cx.v('ptr_').idx) == ROW(i), Z(cx.v('new_ptr_').idx) == ROW(c))), ('variant', n - i)]
        return out
    def L_cols(cx):
        d = cx.data; A = d['A']; S, sz, P, pl, n = st(cx); i = Z(cx.v('index_')); c = rank(S, i); j = Z(cx.v('i_')); D2 = cx.v('new_dfa_').arr
        cx.assume(z3.Implies(z3.And(1 <= i, i < n, 7 <= j, j < A), z3.And(0 <= z3.Select(d['D'], ROW(i) + j), z3.Select(d['D'], ROW(i) + j) < n)))    # instance of the precondition
        return L_build(cx, True) + [('row being built', z3.And(i < n, z3.Not(z3.Select(S, i)), 7 <= j, j <= A, Z(cx.v('ptr_').idx) == ROW(i) + j, Z(cx.v('new_ptr_').idx) == ROW(c) + j, newrow(cx, D2, i, j))), ('variant', A - j)]
    def memcmp(cx, p, q, n, e):
        ex = cx.ex; d = cx.data; A = d['A']; v = ex.load(p.base)
        bytes_ = W // 8
        ex.check('memcmp compares one whole row', Z(n) == bytes_ * A if bytes_ > 1 else Z(n) == A)
        for x in (p, q): ex.check('memcmp stays inside the table', z3.And(Z(x.idx) >= 0, Z(x.idx) + A <= Z(v.len)))
        r = z3.Int(ex.fresh_name('memcmp')); a, b = INV(Z(p.idx)), INV(Z(q.idx))
        ex.check('memcmp compares two rows', z3.And(ROW(a) == Z(p.idx), ROW(b) == Z(q.idx), v.arr == d['D']))
        cx.assume((r == 0) == d['RE'](a, b)); ex.trust('std: memcmp(a, b, n) == 0 iff the n bytes are equal')
        return r
    # the postcondition talks about the numbering, a local: capture it when the table is swapped
    def final(cx, ret):
        d = cx.data; v = cx.load(d['dl']); n, A, D = d['n'], d['A'], d['D']; D2 = v.arr
        cap = d.get('cap')
        if cap is None:
            cx.oblige('without identical states the table is unchanged', z3.And(Z(v.len) == ROW(n), D2 == D)); return
        S, sz, P = cap; p = lambda x: z3.Select(P, x); m = n - sz; step(cx, S, X, Q, z3.IntVal(0), z3.IntVal(1), z3.IntVal(2)); rowfacts(cx, rank(S, Q), m)
        b = z3.Select(D, 0)
        cx.oblige('the table shrinks', z3.And(Z(v.len) == ROW(m), m < n, m >= 1))
        cx.oblige('the dead state stays state 0', z3.And(p(z3.IntVal(0)) == 0, z3.Implies(z3.And(1 <= Y, Y < A), z3.Select(D2, Y) == z3.Select(D, Y))))
        cx.oblige('only the dead state becomes the dead state', z3.Implies(z3.And(0 < X, X < n), z3.And(1 <= p(X), p(X) < m)))
        cx.oblige('the start state stays state 1', z3.Implies(n >= 2, z3.And(z3.Not(z3.Select(S, z3.IntVal(1))), z3.Implies(Q == 1, p(Q) == 1))))
        cx.oblige('the beginning-of-line start is renumbered', z3.Select(D2, 0) == z3.If(b == 0, 0, p(b)))
        r = ROW(p(Q)); o = ROW(Q)
        kept = z3.And(1 <= Q, Q < n, z3.Not(z3.Select(S, Q)))
        for c, nm in enumerate(('end state', 'id', 'user id', 'push', 'next state')): cx.oblige('a kept state keeps its ' + nm, z3.Implies(kept, z3.Select(D2, r + c) == z3.Select(D, o + c)))
        cx.oblige('the end-of-line link of a kept state is renumbered', z3.Implies(kept, z3.Select(D2, r + 5) == p(z3.Select(D, o + 5))))
        cx.oblige('every transition of a kept state is renumbered', z3.Implies(z3.And(kept, 7 <= Y, Y < A), z3.Select(D2, r + Y) == p(z3.Select(D, o + Y))))
        cx.oblige('characters outside the alphabet stay dead', z3.Implies(kept, z3.Select(D2, r + 6) == 0))
        cx.oblige('a state is only merged into a kept state with an identical row', z3.Implies(z3.Select(S, X), z3.Exists([k], z3.And(1 <= k, k < X, z3.Not(z3.Select(S, k)), p(X) == rank(S, k), d['RE'](k, X)), patterns=[d['RE'](k, X)])))
    func = finder(REC + '::minimise_dfa', 3)
    class E(MinExec):
        def m_V_swap(self, lv, a, e):
            # the numbering the rebuilt table was made with, for the postcondition
            cx = self.cx
            try:
                s = cx.v('index_set_'); cx.data['cap'] = (s.f['mem'], Z(s.f['size']), cx.v('lookup_').arr)
            except ExtractError: pass
            return super().m_V_swap(lv, a, e)
    out = [Contract(sfx + '::minimise_dfa', func=func, setup=setup, ensures=final, loops=[L_outer, L_inner, L_build, L_cols], memcmp=memcmp, exec_class=E, merge=True, timeout=60)]
    # ------------------------------------------------ minimise(): every table, until nothing changes
    SIM = z3.Function('SIMULATED_BY', ARR, I, ARR, I, I, Bo)      # see the lemmas: a homomorphism of tables
    WF = z3.Function('WELL_FORMED', ARR, I, I, Bo)
    def s_min(cx):
        ex = cx.ex; d = cx.data; sm = cx.fresh(Ty('rec', [], ex.find_record(REC)), 'sm'); lv = cx.cell(sm, 'this')
        it = sm.f['_internals']; dfa, al = it.f['_dfa'], it.f['_dfa_alphabet']; n = dfa.len
        J = z3.Int('J'); d.update(lv=lv, J=J, n=n, AL=al.arr)
        cx.assume(z3.And(al.len == n, n <= NP, 0 <= J, J < n))
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Or(z3.Select(al.arr, k) == 0, z3.Select(al.arr, k) >= 7), z3.Select(al.arr, k) >= 0, z3.Select(al.arr, k) <= NP, z3.Select(dfa.arr.len, k) >= 0, z3.Select(dfa.arr.len, k) < (1 << 62))), patterns=[z3.Select(al.arr, k), z3.Select(dfa.arr.len, k)]))
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.Select(al.arr, k) != 0), WF(z3.Select(dfa.arr.arr, k), z3.Select(dfa.arr.len, k), z3.Select(al.arr, k))), patterns=[z3.Select(dfa.arr.arr, k)]))
        a1, a2, a3 = (z3.Const('a%d?' % q, ARR) for q in range(3)); n1, n2, n3, A_ = z3.Ints('n1? n2? n3? A?')
        # reflexive and transitive (lemmas)
        cx.assume(z3.ForAll([a1, n1, A_], SIM(a1, n1, a1, n1, A_), patterns=[WF(a1, n1, A_)]))
        cx.assume(z3.ForAll([a1, n1, a2, n2, a3, n3, A_], z3.Implies(z3.And(SIM(a1, n1, a2, n2, A_), SIM(a2, n2, a3, n3, A_)), SIM(a1, n1, a3, n3, A_)), patterns=[z3.MultiPattern(SIM(a1, n1, a2, n2, A_), SIM(a2, n2, a3, n3, A_))]))
        return lv, []
    def cur(cx, i, snap=None):
        v = cx.load(cx.data['lv'].f('_internals').f('_dfa'), snap); return z3.Select(v.arr.arr, i), z3.Select(v.arr.len, i)
    def done(cx, i, doneto):
        """table i against the one at entry"""
        a0, n0 = cur(cx, i, 'old'); a1, n1 = cur(cx, i); A_ = z3.Select(cx.data['AL'], i)
        return z3.And(z3.Implies(A_ != 0, z3.And(SIM(a0, n0, a1, n1, A_), WF(a1, n1, A_), n1 <= n0, n1 >= 0, n1 < (1 << 62))), z3.Implies(z3.Or(A_ == 0, z3.Not(doneto)), z3.And(a1 == a0, n1 == n0)))
    def frame_(cx):
        o, v = cx.load(cx.data['lv'].f('_internals'), 'old'), cx.load(cx.data['lv'].f('_internals'))
        return ('nothing else changes', z3.And(*[same_tree(o.f[x], v.f[x]) for x in ('_eoi', '_lookup', '_dfa_alphabet', '_features')], Z(o.f['_dfa'].len) == Z(v.f['_dfa'].len)))
    def L_tables(cx):
        d = cx.data; i = Z(cx.v('i_'))
        return [('cursor', z3.And(0 <= i, i <= d['n'], Z(cx.v('dfas_')) == d['n'])), ('tables', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n']), done(cx, k, k < i)), patterns=[z3.Select(cx.load(d['lv'].f('_internals').f('_dfa')).arr.arr, k)])), frame_(cx), ('variant', d['n'] - i)]
    def L_fix(cx):
        d = cx.data; i = Z(cx.v('i_')); A_ = z3.Select(d['AL'], i); a1, n1 = cur(cx, i)
        return [('cursor', z3.And(0 <= i, i < d['n'], Z(cx.v('dfas_')) == d['n'], A_ != 0, A_ == Z(cx.v('dfa_alphabet_')))), ('tables', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n']), done(cx, k, k < i + 1)), patterns=[z3.Select(cx.load(d['lv'].f('_internals').f('_dfa')).arr.arr, k)])), frame_(cx), ('variant', n1)]
    def h_min(cx, f, this, args, site):
        """contract of minimise_dfa, proved above and turned into this form by the lemmas"""
        ex = cx.ex; A_, dl, sz = Z(args[0]), args[1], Z(args[2]); v = ex.load(dl)
        cx.oblige('minimise_dfa gets the whole table', sz == Z(v.len)); cx.oblige('minimise_dfa gets a well-formed table', z3.And(A_ >= 7, WF(v.arr, Z(v.len), A_)))
        n2, a2 = z3.Int(ex.fresh_name('min.len')), z3.Const(ex.fresh_name('min'), ARR)
        cx.assume(z3.And(SIM(v.arr, Z(v.len), a2, n2, A_), WF(a2, n2, A_), n2 >= 0, z3.Or(n2 < Z(v.len), z3.And(n2 == Z(v.len), a2 == v.arr))))
        ex.storev(dl, V(v.ety, n2, a2))
    def e_min(cx, ret):
        d = cx.data; J = d['J']; a0, n0 = cur(cx, J, 'old'); a1, n1 = cur(cx, J); A_ = z3.Select(d['AL'], J)
        cx.oblige('every table is simulated by its minimised form', z3.Implies(A_ != 0, z3.And(SIM(a0, n0, a1, n1, A_), WF(a1, n1, A_))))
        cx.oblige('no table grows', n1 <= n0); cx.oblige('unused tables are unchanged', z3.Implies(A_ == 0, z3.And(a1 == a0, n1 == n0)))
        cx.oblige(*frame_(cx))
    out.append(Contract(sfx + '::minimise', func=finder(REC + '::minimise', 0), setup=s_min, ensures=e_min, loops=[L_tables, L_fix], summaries=[('minimise_dfa', h_min)]))
    return out
ARR = z3.ArraySort(I, I)
def same_tree(a, b):
    if isinstance(a, S): return z3.And(*[same_tree(a.f[x], b.f[x]) for x in a.f])
    if isinstance(a, V): return z3.And(Z(a.len) == Z(b.len), same_tree(a.arr, b.arr))
    return Z(a) == Z(b)
def lemmas():
    """facts the contracts use, proved from the definitions"""
    def run(cx):
        A, n, m, a, b = z3.Ints('A n m a b'); D, D1, D2 = (z3.Const(x, ARR) for x in ('D', 'D1', 'D2')); X, Y, LKB = z3.Ints('X Y L')
        sel = z3.Select
        cx.oblige('row offsets do not overlap (ROW(x) = A * x)', z3.Implies(z3.And(A > 0, 0 <= a, a < b), A * a + A <= A * b))
        cx.oblige('row offsets are non-negative', z3.Implies(z3.And(A > 0, 0 <= a), A * a >= 0)); cx.oblige('a difference of row offsets is a row offset', A * a - A * b == A * (a - b))
        def re(D, s, t): return z3.ForAll([c_], z3.Implies(z3.And(0 <= c_, c_ < A), sel(D, ROW(s) + c_) == sel(D, ROW(t) + c_)))
        x, y, z = z3.Ints('x y z')
        cx.oblige('identical rows: transitive', z3.Implies(z3.And(re(D, x, y), re(D, y, z)), re(D, x, z))); cx.oblige('identical rows: symmetric', z3.Implies(re(D, x, y), re(D, y, x)))
        # homomorphism of tables: phi renumbers the states of one table (n states) into those of the other (m states)
        def at_state(D, phi, D2, n, m, x):
            o, r = ROW(x), ROW(phi(x))
            return z3.And(*[sel(D2, r + c) == sel(D, o + c) for c in range(5)], sel(D2, r + 5) == phi(sel(D, o + 5)), sel(D2, r + 6) == phi(sel(D, o + 6)), z3.ForAll([c_], z3.Implies(z3.And(7 <= c_, c_ < A), sel(D2, r + c_) == phi(sel(D, o + c_)))))
        def wf(D, n): return z3.And(ROW(0) == 0, sel(D, 0) >= 0, sel(D, 0) < n, n >= 1, z3.ForAll([s_, c_], z3.Implies(z3.And(1 <= s_, s_ < n, z3.Or(c_ == 5, z3.And(7 <= c_, c_ < A))), z3.And(0 <= sel(D, ROW(s_) + c_), sel(D, ROW(s_) + c_) < n)), patterns=[sel(D, ROW(s_) + c_)]), z3.ForAll([s_], z3.Implies(z3.And(1 <= s_, s_ < n), sel(D, ROW(s_) + 6) == 0), patterns=[ROW(s_)]))
        def ren(phi, n, m): return z3.And(phi(z3.IntVal(0)) == 0, z3.ForAll([s_], z3.Implies(z3.And(0 < s_, s_ < n), z3.And(0 < phi(s_), phi(s_) < m)), patterns=[phi(s_)]), m >= 1)
        def hom_h(D, phi, D2, n, m, *xs):
            return z3.And(ren(phi, n, m), sel(D2, 0) == z3.If(sel(D, 0) == 0, 0, phi(sel(D, 0))), z3.Implies(n >= 2, phi(z3.IntVal(1)) == 1), *[z3.Implies(z3.And(1 <= x, x < n), at_state(D, phi, D2, n, m, x)) for x in xs])
        p, p2 = z3.Function('phi', I, I), z3.Function('phi2', I, I)
        # (c) from kept states to all states: a merged state inherits from the identical kept one
        K = z3.Int('K'); rows = z3.ForAll([c_], z3.Implies(z3.And(0 <= c_, c_ < A), sel(D, ROW(K) + c_) == sel(D, ROW(X) + c_)))
        cx.oblige('a merged state is represented by the row of the kept one', z3.Implies(z3.And(A >= 7, wf(D, n), ren(p, n, m), 1 <= K, K < X, X < n, p(X) == p(K), rows, at_state(D, p, D2, n, m, K)), at_state(D, p, D2, n, m, X)))
        # (d) composition
        p12 = z3.Function('phi12', I, I); g = z3.Int('g')
        comp = z3.ForAll([g], p12(g) == p2(p(g)), patterns=[p12(g), p(g)])
        hy = z3.And(A >= 7, wf(D, n), comp, hom_h(D, p, D1, n, m, X), hom_h(D1, p2, D2, m, b, p(X)))
        cx.oblige('renumberings compose: states', z3.Implies(hy, z3.And(p12(z3.IntVal(0)) == 0, z3.Implies(z3.And(0 < X, X < n), z3.And(0 < p12(X), p12(X) < b)), z3.Implies(n >= 2, z3.Implies(m >= 2, p12(z3.IntVal(1)) == 1)))))
        cx.oblige('renumberings compose: beginning-of-line start', z3.Implies(hy, sel(D2, 0) == z3.If(sel(D, 0) == 0, 0, p12(sel(D, 0)))))
        o, r = ROW(X), ROW(p12(X)); inn = z3.And(hy, 1 <= X, X < n)
        for c in range(5): cx.oblige('renumberings compose: column %d' % c, z3.Implies(inn, sel(D2, r + c) == sel(D, o + c)))
        for c in (5, 6): cx.oblige('renumberings compose: column %d' % c, z3.Implies(inn, sel(D2, r + c) == p12(sel(D, o + c))))
        cx.oblige('renumberings compose: transitions', z3.Implies(z3.And(inn, 7 <= Y, Y < A), sel(D2, r + Y) == p12(sel(D, o + Y))))
        # reflexivity
        idn = z3.ForAll([g], p(g) == g, patterns=[p(g)])
        cx.oblige('the identity renumbers a table into itself', z3.Implies(z3.And(A >= 7, wf(D, n), idn), z3.And(sel(D, 0) == z3.If(sel(D, 0) == 0, 0, p(sel(D, 0))), z3.Implies(z3.And(1 <= X, X < n), at_state(D, p, D, n, n, X)))))
        # (e) what lookup sees: one step from corresponding states leads to corresponding states
        h1 = z3.And(A >= 7, wf(D, n), hom_h(D, p, D2, n, m, X), 1 <= X, X < n, 6 <= LKB, LKB < A)
        t, t2 = sel(D, ROW(X) + LKB), sel(D2, ROW(p(X)) + LKB)
        cx.oblige('a step on any character leads to the corresponding state', z3.Implies(h1, t2 == p(t)))
        cx.oblige('a step dies in one table exactly if it dies in the other', z3.Implies(h1, (t2 == 0) == (t == 0)))
        cx.oblige('the end-of-line step leads to the corresponding state', z3.Implies(h1, z3.And(sel(D2, ROW(p(X)) + 5) == p(sel(D, ROW(X) + 5)), (sel(D2, ROW(p(X)) + 5) == 0) == (sel(D, ROW(X) + 5) == 0))))
        cx.oblige('acceptance, ids, push, pop and next state are equal', z3.Implies(h1, z3.And(*[sel(D2, ROW(p(X)) + c) == sel(D, ROW(X) + c) for c in range(5)])))
        cx.oblige('both start in corresponding states', z3.Implies(z3.And(h1, n >= 2), z3.And(p(z3.IntVal(1)) == 1, (sel(D2, 0) == 0) == (sel(D, 0) == 0), z3.Implies(sel(D, 0) != 0, sel(D2, 0) == p(sel(D, 0))))))
        # the result is well formed again
        pre = z3.And(A >= 7, wf(D, n), hom_h(D, p, D2, n, m, X), 1 <= X, X < n, p(X) == K)
        cx.oblige('the new table is well formed: links', z3.Implies(z3.And(pre, z3.Or(Y == 5, z3.And(7 <= Y, Y < A))), z3.And(0 <= sel(D2, ROW(K) + Y), sel(D2, ROW(K) + Y) < m)))
        cx.oblige('the new table is well formed: column 6 and bol', z3.Implies(pre, z3.And(sel(D2, ROW(K) + 6) == 0, 0 <= sel(D2, 0), sel(D2, 0) < m)))
    return Contract('lemmas: a consistent renumbering is a simulation, and simulations compose', run_custom=run)
cs = contracts('char', 'unsigned short', 'state_machine') + contracts('char32_t', 'unsigned short', 'u32state_machine') + contracts('char', 'unsigned char', 'state_machine<uint8_t>') + contracts('char', 'unsigned int', 'state_machine<uint32_t>') + [lemmas()]
GROUPS = [dict(driver=DRIVER, contracts=cs)]
LEVEL = 'proof'
SEARCH = ['L10.cpp']
RULE = 'random tables (1-3 start states, up to 40 states, identical rows planted, also via chains) minimised and compared with the original: identical lookups on random inputs from every start state, row 0 dead, start state 1, size not larger; non-trivial: at least one row was merged'
ASSUMPTIONS = ['the table is well formed before minimising (links inside the table, column 6 empty, row 0 only holds the bol start, at most npos states): the postcondition of building',
               'ROW(x) = row size * x is an uninterpreted injective row offset; the axioms used are proved from multiplication in the lemma contract',
               'finite-set facts about the number of members below a bound (monotone, one more per member, unchanged by inserting above, equal to size() when all members are below) are assumed of std::set',
               'that corresponding states give the same lookup result is the induction over the input whose step is proved in the lemmas; lookup itself is L01-L04']
