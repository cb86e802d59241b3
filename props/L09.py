"""Syntax tree nodes: nullable, firstpos, lastpos, followpos exactly as in the textbook; copy() is an equal, fresh tree."""
from .common import *
DRIVER = r'''
#include <cstdint>
#include <lexertl/parser/tree/leaf_node.hpp>
#include <lexertl/parser/tree/end_node.hpp>
#include <lexertl/parser/tree/selection_node.hpp>
#include <lexertl/parser/tree/sequence_node.hpp>
#include <lexertl/parser/tree/iteration_node.hpp>
template class lexertl::detail::basic_node<std::uint16_t>;
template class lexertl::detail::basic_leaf_node<std::uint16_t>;
template class lexertl::detail::basic_end_node<std::uint16_t>;
template class lexertl::detail::basic_selection_node<std::uint16_t>;
template class lexertl::detail::basic_sequence_node<std::uint16_t>;
template class lexertl::detail::basic_iteration_node<std::uint16_t>;
'''
I, Bo = z3.IntSort(), z3.BoolSort(); AII = z3.ArraySort(I, I)
LEAF, SEQ, SEL, ITER, END = range(5)
HARD = 2
NS = 'lexertl::detail::basic_'
def N(x): return NS + x + '_node<unsigned short>'
MEM = z3.Function('MEM', AII, I, I, Bo)        # value occurs among the first n entries
IDX = z3.Function('INDEX_OF', AII, I, I, I)
a_, b_ = z3.Consts('a? b?', AII); n_, m_, x_ = z3.Ints('n? m? x?')
def mem(v, x): return MEM(v.arr, Z(v.len), x)
P, Q = z3.Ints('P Q')
TYS = dict(_nullable='bool', _firstpos='V', _lastpos='V', _followpos='V', _token='unsigned short', _greedy='int', _id='unsigned short', _user_id='unsigned short',
           _unique_id='unsigned short', _next_dfa='unsigned short', _push_dfa='unsigned short', _pop_dfa='bool', _left='int', _right='int', _next='int', kind='int')
H = 'heap:_node'
def heap(cx):
    ex = cx.ex; f = {}
    for n, t in TYS.items():
        f[n] = V(Ty('int', (64, True)), z3.Const('h.%s.len' % n, AII), z3.Const('h.' + n, z3.ArraySort(I, AII))) if t == 'V' else z3.Const('h.' + n, z3.ArraySort(I, Bo if t == 'bool' else I))
    ex.store[H] = S('heap', {'#elems': S('node', f)})
    # MEM: definition (by an index) for whole vectors
    cx.assume(z3.ForAll([a_, n_, x_], z3.Implies(MEM(a_, n_, x_), z3.And(0 <= IDX(a_, n_, x_), IDX(a_, n_, x_) < n_, z3.Select(a_, IDX(a_, n_, x_)) == x_)), patterns=[MEM(a_, n_, x_)]))
    for f in ('_firstpos', '_lastpos', '_followpos'): cx.assume(z3.Select(z3.Const('h.%s.len' % f, AII), P) >= 0)
    cx.data['alloc'] = cx.cell(z3.Int('allocated'), 'allocated'); cx.assume(z3.Int('allocated') > 0)
def node(cx, nm):
    """an existing node"""
    a = z3.Int(nm); al = cx.load(cx.data['alloc']); cx.assume(z3.And(0 < a, a < al)); well(cx, a)
    return a
def fld(cx, a, f, snap=None): return cx.load(LV(H, (('i', Z(a)), f)), snap)
def well(cx, a):
    """invariant of an existing node: positions are existing leaves or the end marker"""
    for f in ('_firstpos', '_lastpos', '_followpos'):
        v = fld(cx, a, f); cx.assume(z3.And(v.len >= 0, v.len < (1 << 40)))
        al = cx.load(cx.data['alloc']); K = kinds(cx)
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), z3.And(0 < z3.Select(v.arr, k), z3.Select(v.arr, k) < al, z3.Or(z3.Select(K, z3.Select(v.arr, k)) == LEAF, z3.Select(K, z3.Select(v.arr, k)) == END))), patterns=[z3.Select(v.arr, k)]))
    kd = fld(cx, a, 'kind'); cx.assume(z3.And(0 <= kd, kd <= 4, 0 <= fld(cx, a, '_greedy'), fld(cx, a, '_greedy') <= 2))
def kinds(cx): return cx.ex.store[H].f['#elems'].f['kind']
def leaves_only(cx, v):
    K = kinds(cx); return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(v.len)), z3.Select(K, z3.Select(v.arr, k)) == LEAF), patterns=[z3.Select(v.arr, k)])
def newthis(cx, kind):
    """storage of the node under construction: fresh, members default constructed"""
    al = cx.load(cx.data['alloc']); a = z3.Int('self'); cx.assume(a == al); this = LV(H, (('i', a),)); cx.ex.storev(cx.data['alloc'], al + 1)
    for f in ('_firstpos', '_lastpos', '_followpos'):
        v = fld(cx, a, f); cx.ex.storev(this.f(f), V(v.ety, z3.IntVal(0), v.arr))
    cx.ex.storev(this.f('kind'), z3.IntVal(kind))
    return a, this
def frame(cx, a, but=()):
    """every other node P keeps every field not in `but`"""
    for f, t in TYS.items():
        if f in but or f == 'kind': continue
        o, n = fld(cx, P, f, 'old'), fld(cx, P, f)
        eq = z3.And(o.len == n.len, o.arr == n.arr) if t == 'V' else Z(o) == Z(n)
        cx.oblige('no other node changes its ' + f, z3.Implies(P != a, eq))
# ---- contracts of the virtual members, applied at call sites
def addr(lv): return lv.path[0][1]
def memstep(cx, arr, i): 
    """one more entry (lemma)"""
    for x in (P, Q): cx.assume(MEM(arr, i + 1, x) == z3.Or(MEM(arr, i, x), z3.Select(arr, i) == x))
def h_append_followpos(cx, f, this, args, site):
    ex = cx.ex; a = addr(this); cx.oblige('append_followpos is only called on leaves', z3.Select(kinds(cx), a) == LEAF)
    src = cx.load(args[0]); old = fld(cx, a, '_followpos'); nv = V(old.ety, z3.Int(ex.fresh_name('fol.len')), z3.Const(ex.fresh_name('fol'), AII))
    for x in (P, Q): cx.assume(mem(nv, x) == z3.Or(mem(old, x), mem(src, x)))
    cx.assume(nv.len >= 0)
    ex.storev(this.f('_followpos'), nv)
def h_greedy(cx, f, this, args, site):
    if len(args) == 0: return NotImplemented
    ex = cx.ex; a = addr(this); cx.oblige('greedy() is only set on leaves', z3.Select(kinds(cx), a) == LEAF)
    g = fld(cx, a, '_greedy'); ex.storev(this.f('_greedy'), z3.If(g == HARD, g, Z(args[0])))
def h_what(cx, f, this, args, site): return z3.Select(kinds(cx), addr(this))
SUM = [('append_followpos', h_append_followpos), ('greedy', h_greedy), ('what_type', h_what)]
def CT(name, fn, **kw):
    kw.setdefault('summaries', SUM); kw.setdefault('heap', ('_node',)); return Contract(name, func=fn, **kw)
out = []
def ctor(cls, npar): return finder(N(cls) + '::basic_%s_node' % cls, npar)
# ---- leaf
def s_leaf(cx):
    heap(cx); a, this = newthis(cx, LEAF); cx.data['a'] = a; t = cx.fresh('unsigned short', 'token'); g = cx.fresh('int', 'greedy'); cx.data.update(t=t, g=g); return this, [t, g]
def e_leaf(cx, r):
    a, t, g = cx.data['a'], cx.data['t'], cx.data['g']; null = t == 0xffff
    fp, lp, fo = fld(cx, a, '_firstpos'), fld(cx, a, '_lastpos'), fld(cx, a, '_followpos')
    cx.oblige('nullable exactly for the empty string', B(cx, fld(cx, a, '_nullable')) == null)
    for v, nm in ((fp, 'first'), (lp, 'last')): cx.oblige('%s position is the leaf itself, none for the empty string' % nm, z3.And(Z(v.len) == z3.If(null, 0, 1), z3.Implies(z3.Not(null), z3.Select(v.arr, 0) == a)))
    cx.oblige('no follow positions yet', Z(fo.len) == 0); cx.oblige('token and greedy stored', z3.And(Z(fld(cx, a, '_token')) == t, Z(fld(cx, a, '_greedy')) == g)); frame(cx, a)
out.append(CT('leaf_node::leaf_node', ctor('leaf', 2), setup=s_leaf, ensures=e_leaf))
def s_end(cx):
    heap(cx); a, this = newthis(cx, END); cx.data['a'] = a; xs = [cx.fresh('unsigned short', n) for n in ('id', 'uid', 'unq', 'next', 'push')]; p = cx.fresh('bool', 'pop'); g = cx.fresh('int', 'greedy'); cx.data.update(xs=xs, p=p, g=g)
    return this, xs + [p, g]
def e_end(cx, r):
    a = cx.data['a']; cx.oblige('not nullable', z3.Not(B(cx, fld(cx, a, '_nullable'))))
    for f, x in zip(('_id', '_user_id', '_unique_id', '_next_dfa', '_push_dfa'), cx.data['xs']): cx.oblige('stores ' + f, Z(fld(cx, a, f)) == x)
    cx.oblige('stores pop and greedy', z3.And(B(cx, fld(cx, a, '_pop_dfa')) == cx.data['p'], Z(fld(cx, a, '_greedy')) == cx.data['g']))
    for f in ('_firstpos', '_lastpos'): v = fld(cx, a, f); cx.oblige('end marker is its own position ' + f, z3.And(Z(v.len) == 1, z3.Select(v.arr, 0) == a))
    cx.oblige('nothing follows', Z(fld(cx, a, '_followpos').len) == 0); frame(cx, a)
out.append(CT('end_node::end_node', ctor('end', 7), setup=s_end, ensures=e_end))
# getters of leaf and end nodes
def getter(cls, m, f, kind, const=True):
    def s(cx): heap(cx); a = node(cx, 'self'); cx.assume(z3.Select(kinds(cx), a) == kind); cx.data['a'] = a; return LV(H, (('i', a),)), []
    def e(cx, r):
        a = cx.data['a']
        if f in ('_followpos', '_firstpos', '_lastpos'): cx.oblige('returns the member', isinstance(r, LV) and str(r) == str(LV(H, (('i', a), f))))
        elif isinstance(f, str): cx.oblige('returns the member', Z(cx.ex.toint(r)) == Z(cx.ex.toint(fld(cx, a, f))))
        else: cx.oblige('returns the kind', Z(cx.ex.toint(r)) == f)
        frame(cx, z3.IntVal(-1))
    out.append(CT('%s_node::%s%s' % (cls, m, '' if const else ' (non-const)'), finder(N(cls) + '::' + m, 0, (lambda n: 'const' in n['type']['qualType'].split(')')[-1]) if const else (lambda n: 'const' not in n['type']['qualType'].split(')')[-1])), setup=s, ensures=e))
for m, f in (('nullable', '_nullable'),): pass
for m, f in (('token', '_token'), ('greedy', '_greedy'), ('followpos', '_followpos')): getter('leaf', m, f, LEAF)
getter('leaf', 'followpos', '_followpos', LEAF, False); getter('leaf', 'what_type', LEAF, LEAF)
for m, f in (('id', '_id'), ('user_id', '_user_id'), ('unique_id', '_unique_id'), ('next_dfa', '_next_dfa'), ('push_dfa', '_push_dfa'), ('pop_dfa', '_pop_dfa'), ('greedy', '_greedy'), ('followpos', '_followpos'), ('end_state', 1), ('what_type', END)): getter('end', m, f, END)
for c, kd in (('selection', SEL), ('sequence', SEQ), ('iteration', ITER)): getter(c, 'what_type', kd, kd)
# ---- leaf: append_followpos, greedy
def s_af(cx):
    heap(cx); a = node(cx, 'self'); b = node(cx, 'other'); cx.assume(z3.Select(kinds(cx), a) == LEAF); cx.data.update(a=a, b=b)
    src = cx.fresh(Ty('vec', [Ty('int', (64, True))]), 'positions'); return LV(H, (('i', a),)), [cx.cell(src, 'followpos_')]
def e_af(cx, r):
    a = cx.data['a']; o, v = fld(cx, a, '_followpos', 'old'), fld(cx, a, '_followpos'); src = cx.load(cx.lv('followpos_') if 0 else cx.names['followpos_'], 'old')
    i = z3.Int('i'); no, ns, nv = Z(o.len), Z(src.len), Z(v.len)
    # set of positions: exactly the old and the new ones (index witnesses, so no search is needed)
    cx.oblige('old follow positions are kept', z3.Implies(z3.And(0 <= i, i < no), z3.Exists([k], z3.And(0 <= k, k < nv, z3.Select(v.arr, k) == z3.Select(o.arr, i)), patterns=[z3.Select(v.arr, k)])))
    cx.oblige('every given position is added', z3.Implies(z3.And(0 <= i, i < ns), occurs(v, z3.Select(src.arr, i), i, no + i)))
    x = z3.Select(v.arr, i)
    cx.oblige('nothing else is added', z3.Implies(z3.And(0 <= i, i < nv), z3.Or(z3.Exists([k], z3.And(0 <= k, k < no, z3.Select(o.arr, k) == x), patterns=[z3.Select(o.arr, k)]), z3.Exists([k], z3.And(0 <= k, k < ns, z3.Select(src.arr, k) == x), patterns=[z3.Select(src.arr, k)]))))
    frame(cx, a); cx.oblige('nothing else changes in the leaf', z3.And(*[Z(fld(cx, a, f, 'old')) == Z(fld(cx, a, f)) for f in ('_token', '_greedy')]))
out.append(CT('leaf_node::append_followpos', finder(N('leaf') + '::append_followpos', 1), setup=s_af, ensures=e_af, summaries=[]))
def s_gr(cx):
    heap(cx); a = node(cx, 'self'); cx.assume(z3.Select(kinds(cx), a) == LEAF); g = cx.fresh('int', 'g'); cx.assume(z3.And(0 <= g, g <= 2)); cx.data.update(a=a, g=g); return LV(H, (('i', a),)), [g]
def e_gr(cx, r):
    a = cx.data['a']; o = Z(fld(cx, a, '_greedy', 'old')); cx.oblige('hard greediness is kept, anything else replaced', Z(fld(cx, a, '_greedy')) == z3.If(o == HARD, o, cx.data['g'])); frame(cx, a)
out.append(CT('leaf_node::greedy(set)', finder(N('leaf') + '::greedy', 1), setup=s_gr, ensures=e_gr, summaries=[]))
# ---- inner nodes
def s_bin(kind):
    def s(cx):
        heap(cx); l, r = node(cx, 'left'), node(cx, 'right'); cx.assume(leaves_only(cx, fld(cx, l, '_lastpos'))); cx.assume(leaves_only(cx, fld(cx, l, '_firstpos')))
        a, this = newthis(cx, kind); cx.data.update(a=a, l=l, r=r)
        return this, [l, r]
    return s
def concat(cx, name, v, x, y):
    """v lists x's entries then y's: as sets, for an arbitrary member (existential over indices)"""
    i = z3.Int('i'); V_, nx, ny = v.arr, Z(x.len), Z(y.len)
    cx.oblige(name + ': exactly as many', Z(v.len) == nx + ny)
    cx.oblige(name + ': first operand', z3.Implies(z3.And(0 <= i, i < nx), occurs(v, z3.Select(x.arr, i), i, ny + i)))
    cx.oblige(name + ': second operand', z3.Implies(z3.And(0 <= i, i < ny), occurs(v, z3.Select(y.arr, i), i, nx + i)))
    t = z3.Select(V_, i)
    cx.oblige(name + ': nothing else', z3.Implies(z3.And(0 <= i, i < Z(v.len)), z3.Or(z3.Exists([k], z3.And(0 <= k, k < nx, z3.Select(x.arr, k) == t), patterns=[z3.Select(x.arr, k)]), z3.Exists([k], z3.And(0 <= k, k < ny, z3.Select(y.arr, k) == t), patterns=[z3.Select(y.arr, k)]))))
def occurs(v, x, *hints):
    """x is an entry of v; the hinted indices are tried first"""
    return z3.Or(*[z3.And(0 <= h, h < Z(v.len), z3.Select(v.arr, h) == x) for h in hints], z3.Exists([k], z3.And(0 <= k, k < Z(v.len), z3.Select(v.arr, k) == x), patterns=[z3.Select(v.arr, k)]))
def cut(v, cond): return V(v.ety, z3.If(cond, Z(v.len), 0), v.arr)
def nul(cx, a, snap=None): return B(cx, fld(cx, a, '_nullable', snap))
def e_sel(cx, ret):
    d = cx.data; a, l, r = d['a'], d['l'], d['r']; cx.oblige('nullable iff one alternative is', nul(cx, a) == z3.Or(nul(cx, l), nul(cx, r)))
    for f in ('_firstpos', '_lastpos'): concat(cx, f, fld(cx, a, f), fld(cx, l, f), fld(cx, r, f))
    frame(cx, a); cx.oblige('children', z3.And(Z(fld(cx, a, '_left')) == l, Z(fld(cx, a, '_right')) == r))
out.append(CT('selection_node::selection_node', ctor('selection', 2), setup=s_bin(SEL), ensures=e_sel))
def folinv(cx, lastv, firstv, i):
    d = cx.data; o, n = fld(cx, P, '_followpos', 'old'), fld(cx, P, '_followpos'); memstep(cx, lastv.arr, i)
    cx.assume(z3.Not(MEM(lastv.arr, z3.IntVal(0), P)))      # lemma: nothing occurs among no entries
    return [('follow positions added so far', z3.Implies(P != d['a'], mem(n, Q) == z3.Or(mem(o, Q), z3.And(MEM(lastv.arr, i, P), mem(firstv, Q))))), ('follow lists have a length', z3.And(Z(n.len) >= 0)),
            ('the new node has no follow positions', Z(fld(cx, d['a'], '_followpos').len) == 0)]
def range_it(cx):
    for fr in reversed(cx.ex.frames):
        for nm in reversed(fr.order):
            if nm.startswith('__begin'): return cx.load(fr.names[nm])
    raise Mismatch('loop is not a range-for')
def range_end(cx):
    for fr in reversed(cx.ex.frames):
        for nm in reversed(fr.order):
            if nm.startswith('__end'): return cx.load(fr.names[nm])
def L_seq(cx):
    d = cx.data; it = range_it(cx); v = fld(cx, d['l'], '_lastpos'); i = Z(it.idx)
    cx.oblige('the loop runs over the last positions of the left operand', str(it.base) == str(LV(H, (('i', d['l']), '_lastpos'))))
    return folinv(cx, v, fld(cx, d['r'], '_firstpos'), i) + [('cursor', z3.And(0 <= i, i <= Z(v.len), Z(range_end(cx).idx) == Z(v.len))), ('variant', Z(v.len) - i)]
def follow_post(cx, lastv, firstv):
    o, n = fld(cx, P, '_followpos', 'old'), fld(cx, P, '_followpos')
    cx.oblige('followpos gains exactly first positions at last positions', z3.Implies(P != cx.data['a'], mem(n, Q) == z3.Or(mem(o, Q), z3.And(mem(lastv, P), mem(firstv, Q)))))
def e_seq(cx, ret):
    d = cx.data; a, l, r = d['a'], d['l'], d['r']; cx.oblige('nullable iff both are', nul(cx, a) == z3.And(nul(cx, l), nul(cx, r)))
    concat(cx, 'first positions', fld(cx, a, '_firstpos'), fld(cx, l, '_firstpos', 'old'), cut(fld(cx, r, '_firstpos', 'old'), nul(cx, l)))
    concat(cx, 'last positions', fld(cx, a, '_lastpos'), fld(cx, r, '_lastpos', 'old'), cut(fld(cx, l, '_lastpos', 'old'), nul(cx, r)))
    follow_post(cx, fld(cx, l, '_lastpos', 'old'), fld(cx, r, '_firstpos', 'old'))
    frame(cx, a, ('_followpos',)); cx.oblige('children', z3.And(Z(fld(cx, a, '_left')) == l, Z(fld(cx, a, '_right')) == r))
out.append(CT('sequence_node::sequence_node', ctor('sequence', 2), setup=s_bin(SEQ), ensures=e_seq, loops=[L_seq]))
def s_iter(cx):
    heap(cx); l = node(cx, 'next'); cx.assume(leaves_only(cx, fld(cx, l, '_lastpos'))); cx.assume(leaves_only(cx, fld(cx, l, '_firstpos'))); g = cx.fresh('int', 'greedy'); cx.assume(z3.And(0 <= g, g <= 2))
    a, this = newthis(cx, ITER); cx.data.update(a=a, l=l, g=g); return this, [l, g]
def same_list(v, w): return z3.And(Z(v.len) == Z(w.len), fall(0, Z(w.len), lambda q: z3.Select(v.arr, q) == z3.Select(w.arr, q), lambda q: [z3.Select(v.arr, q)]))
def lists(cx):
    """the new node lists exactly the positions of its operand; MEM of a list equal entry by entry (lemma)"""
    d = cx.data; o = {}
    for f in ('_firstpos', '_lastpos'):
        v, w = fld(cx, d['a'], f), fld(cx, d['l'], f, 'old')
        for i in (Z(w.len),):
            for x in (P, Q): cx.assume(z3.Implies(same_list(v, w), MEM(v.arr, i, x) == MEM(w.arr, i, x)))
        o[f] = (v, w)
    return o
def L_it1(cx):
    d = cx.data; it = range_it(cx); o = lists(cx); v, w = o['_lastpos']; i = Z(it.idx)
    cx.oblige('the loop runs over the last positions', str(it.base) in (str(LV(H, (('i', d['a']), '_lastpos'))), str(LV(H, (('i', d['l']), '_lastpos')))))
    return folinv(cx, v, o['_firstpos'][0], i) + [('positions of the operand', z3.And(same_list(v, w), same_list(*o['_firstpos']))), ('cursor', z3.And(0 <= i, i <= Z(w.len), Z(range_end(cx).idx) == Z(w.len))), ('variant', Z(w.len) - i)]
def L_it2(cx):
    d = cx.data; it = range_it(cx); o = lists(cx); v, w = o['_firstpos']; i = Z(it.idx); memstep(cx, v.arr, i); cx.assume(z3.Not(MEM(v.arr, z3.IntVal(0), P)))
    cx.oblige('the loop runs over the first positions', str(it.base) in (str(LV(H, (('i', d['a']), '_firstpos'))), str(LV(H, (('i', d['l']), '_firstpos')))))
    og = Z(fld(cx, P, '_greedy', 'old')); fo, fn = fld(cx, P, '_followpos', 'old'), fld(cx, P, '_followpos')
    return [('own greediness', Z(fld(cx, d['a'], '_greedy')) == d['g']), ('greediness set so far', z3.Implies(P != d['a'], Z(fld(cx, P, '_greedy')) == z3.If(z3.And(MEM(v.arr, i, P), og != HARD), d['g'], og))), ('positions of the operand', z3.And(same_list(v, w), same_list(*o['_lastpos']))), 
            ('cursor', z3.And(0 <= i, i <= Z(w.len), Z(range_end(cx).idx) == Z(w.len))), ('variant', Z(w.len) - i)]
def e_iter(cx, ret):
    d = cx.data; a, l = d['a'], d['l']; cx.oblige('nullable', nul(cx, a)); o = lists(cx)
    for f in ('_firstpos', '_lastpos'): cx.oblige('%s of the operand' % f, same_list(*o[f]))
    for f in ('_firstpos', '_lastpos'):
        v, w = o[f]
        for x in (P, Q): cx.assume(z3.Implies(same_list(v, w), MEM(v.arr, Z(w.len), x) == MEM(w.arr, Z(w.len), x)))
    follow_post(cx, o['_lastpos'][1], o['_firstpos'][1])
    og = Z(fld(cx, P, '_greedy', 'old'))
    cx.oblige('first positions take the greediness unless hard', z3.Implies(P != a, Z(fld(cx, P, '_greedy')) == z3.If(z3.And(mem(o['_firstpos'][1], P), og != HARD), d['g'], og)))
    frame(cx, a, ('_followpos', '_greedy')); cx.oblige('child and greediness', z3.And(Z(fld(cx, a, '_next')) == l, Z(fld(cx, a, '_greedy')) == d['g']))
out.append(CT('iteration_node::iteration_node', ctor('iteration', 2), setup=s_iter, ensures=e_iter, loops=[L_it1, L_it2]))
# ---- traverse / copy_node: one step of the iterative post-order copy
def stacks(cx):
    d = cx.data; ns = cx.fresh(Ty('vec', [Ty('int', (64, True))]), 'node_stack'); ps = cx.fresh(Ty('vec', [Ty('bool')]), 'perform'); ws = cx.fresh(Ty('vec', [Ty('int', (64, True))]), 'new_nodes'); ow = cx.fresh(Ty('vec', [Ty('int', (64, True))]), 'owners')
    d.update(N=cx.cell(ns, 'N'), Pf=cx.cell(ps, 'Pf'), W=cx.cell(ws, 'W'), O=cx.cell(ow, 'O'), down=cx.cell(cx.fresh('bool', 'down'), 'down'))
def pushed(v, o, *xs):
    """v is o with xs on top"""
    n = Z(o.len); return z3.And(Z(v.len) == n + len(xs), fall(0, n, lambda q: z3.Select(v.arr, q) == z3.Select(o.arr, q), lambda q: [z3.Select(v.arr, q)]), *[z3.Select(v.arr, n + i) == x for i, x in enumerate(xs)])
def same_stack(v, o, drop=0): return z3.And(Z(v.len) == Z(o.len) - drop, fall(0, Z(o.len) - drop, lambda q: z3.Select(v.arr, q) == z3.Select(o.arr, q), lambda q: [z3.Select(v.arr, q)]))
def composite(kd): return z3.Or(kd == SEQ, kd == SEL, kd == ITER)
def s_tr(kind):
    def s(cx):
        heap(cx); stacks(cx); a = node(cx, 'self'); cx.assume(z3.Select(kinds(cx), a) == kind); cx.data['a'] = a
        for f in ('_left', '_right', '_next'): c = Z(fld(cx, a, f)); cx.assume(z3.And(0 < c, c < cx.load(cx.data['alloc']), 0 <= z3.Select(kinds(cx), c), z3.Select(kinds(cx), c) <= 4))
        return LV(H, (('i', a),)), [cx.data['N'], cx.data['Pf']]
    return s
def e_tr(kind):
    def e(cx, ret):
        d = cx.data; n, no, p, po = cx.load(d['N']), cx.old(d['N']), cx.load(d['Pf']), cx.old(d['Pf']); a = d['a']; r = B(cx, ret)
        if kind in (LEAF, END): cx.oblige('a leaf has nothing below', z3.And(z3.Not(r), same_stack(n, no), same_stack(p, po)))
        elif kind == ITER: cx.oblige('the operand is visited next', z3.And(r, pushed(n, no, Z(fld(cx, a, '_next'))), pushed(p, po, z3.BoolVal(True))))
        else:
            cx.oblige('the left operand is visited first, then the right one', z3.And(r, pushed(n, no, Z(fld(cx, a, '_right')), Z(fld(cx, a, '_left')))))
            c = composite(z3.Select(kinds(cx), Z(fld(cx, a, '_right'))))
            cx.oblige('the node is built after its operands', z3.If(c, pushed(p, po, z3.BoolVal(True), z3.BoolVal(False)), pushed(p, po, z3.BoolVal(True))))
        frame(cx, z3.IntVal(-1))
    return e
KN = (('leaf', LEAF), ('end', END), ('selection', SEL), ('sequence', SEQ), ('iteration', ITER))
for c, kd in KN: out.append(CT('%s_node::traverse' % c, finder(N(c) + '::traverse', 2), setup=s_tr(kd), ensures=e_tr(kd)))
def mk(cx, el, a, e):
    """make_unique of a node: fresh storage, then the constructor by its contract"""
    ex = cx.ex; kd = [i for n, i in KN if ('basic_%s_node' % n) in el.name]
    if not kd: raise Mismatch('make_unique of ' + el.name)
    args = [Z(ex.rv(x)) for x in a]; al = cx.load(cx.data['alloc']); ex.storev(cx.data['alloc'], al + 1); lv = LV(H, (('i', al),)); kd = kd[0]
    for f, t in TYS.items(): ex.storev(lv.f(f), cx.fresh(Ty('vec', [Ty('int', (64, True))]) if t == 'V' else t, 'new.' + f))
    ex.storev(lv.f('kind'), z3.IntVal(kd))
    if kd == LEAF: ex.storev(lv.f('_token'), args[0]); ex.storev(lv.f('_greedy'), args[1])
    elif kd == ITER: ex.storev(lv.f('_next'), args[0]); ex.storev(lv.f('_greedy'), args[1])
    else: ex.storev(lv.f('_left'), args[0]); ex.storev(lv.f('_right'), args[1])
    cx.data['made'] = cx.data.get('made', []) + [al]
    if kd in (SEQ, ITER):      # followpos / greedy of the positions below may change, by contract
        el_ = ex.store[H].f['#elems']; f = dict(el_.f); f['_followpos'] = V(f['_followpos'].ety, z3.Const(ex.fresh_name('fl'), AII), z3.Const(ex.fresh_name('fa'), z3.ArraySort(I, AII)))
        if kd == ITER:
            g = f['_greedy']; f['_greedy'] = z3.Const(ex.fresh_name('gr'), AII); cx.assume(z3.Select(f['_greedy'], al) == args[1])
        ex.store[H] = S('heap', {'#elems': S('node', f)})
    return al
def s_cp(kind):
    def s(cx):
        heap(cx); stacks(cx); d = cx.data; a = node(cx, 'self'); cx.assume(z3.Select(kinds(cx), a) == kind); d['a'] = a; w, p = cx.load(d['W']), cx.load(d['Pf']); d['made'] = []
        if kind in (SEL, SEQ, ITER):
            cx.assume(Z(p.len) >= 1); top = z3.Select(p.arr, Z(p.len) - 1); need = 1 if kind == ITER else 2; cx.assume(z3.Implies(top, Z(w.len) >= need)); cx.assume(z3.Not(B(cx, cx.load(d['down']))))
        return LV(H, (('i', a),)), [d['O'], d['W'], d['Pf'], d['down']]
    return s
def e_cp(kind):
    def e(cx, ret):
        d = cx.data; a = d['a']; w, wo, p, po, o, oo = cx.load(d['W']), cx.old(d['W']), cx.load(d['Pf']), cx.old(d['Pf']), cx.load(d['O']), cx.old(d['O']); dn, dno = B(cx, cx.load(d['down'])), B(cx, cx.old(d['down']))
        al0 = cx.old(d['alloc'])
        if kind == END: cx.oblige('an end marker is not copied', z3.And(same_stack(w, wo), same_stack(p, po), same_stack(o, oo), dn == dno))
        elif kind == LEAF:
            cx.oblige('one fresh leaf is pushed and owned', z3.And(len(d['made']) == 1, pushed(w, wo, al0), pushed(o, oo, al0), same_stack(p, po), dn == dno))
            cx.oblige('the new leaf is equal', z3.And(z3.Select(kinds(cx), al0) == LEAF, Z(fld(cx, al0, '_token')) == Z(fld(cx, a, '_token', 'old')), Z(fld(cx, al0, '_greedy')) == Z(fld(cx, a, '_greedy', 'old'))))
        else:
            top = z3.Select(po.arr, Z(po.len) - 1); n = Z(wo.len); k_ = 1 if kind == ITER else 2
            cx.oblige('one marker is consumed', same_stack(p, po, 1))
            cx.oblige('without its operands only the direction changes', z3.Implies(z3.Not(top), z3.And(dn, same_stack(w, wo), same_stack(o, oo), len(d['made']) == 0)))
            cx.oblige('with its operands one fresh node replaces them', z3.Implies(top, z3.And(z3.Not(dn), len(d['made']) == 1, Z(w.len) == n - k_ + 1, z3.Select(w.arr, n - k_) == al0, fall(0, n - k_, lambda q: z3.Select(w.arr, q) == z3.Select(wo.arr, q), lambda q: [z3.Select(w.arr, q)]), pushed(o, oo, al0))))
            if kind == ITER: kids_ = z3.And(Z(fld(cx, al0, '_next')) == z3.Select(wo.arr, n - 1), Z(fld(cx, al0, '_greedy')) == Z(fld(cx, a, '_greedy', 'old')))
            else: kids_ = z3.And(Z(fld(cx, al0, '_left')) == z3.Select(wo.arr, n - 2), Z(fld(cx, al0, '_right')) == z3.Select(wo.arr, n - 1))
            cx.oblige('the new node has the same kind over the copied operands', z3.Implies(top, z3.And(z3.Select(kinds(cx), al0) == kind, kids_)))
        for f in ('_left', '_right', '_next', '_token', 'kind', '_nullable'): cx.oblige('existing nodes keep ' + f, z3.Implies(P < al0, Z(cx.ex.toint(fld(cx, P, f, 'old'))) == Z(cx.ex.toint(fld(cx, P, f)))))
    return e
for c, kd in KN: out.append(CT('%s_node::copy_node' % c, finder(N(c) + '::copy_node', 4), setup=s_cp(kd), ensures=e_cp(kd), make_unique=mk))
def lem():
    def run(cx):
        A1, A2 = z3.Consts('A1 A2', AII); n, x = z3.Ints('n x'); ex = lambda A, n: z3.Exists([k], z3.And(0 <= k, k < n, z3.Select(A, k) == x))
        cx.oblige('occurrence among one more entry', z3.Implies(n >= 0, ex(A1, n + 1) == z3.Or(ex(A1, n), z3.Select(A1, n) == x)))
        cx.oblige('nothing occurs among no entries', z3.Not(ex(A1, z3.IntVal(0))))
        cx.oblige('lists equal entry by entry have the same members', z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(A1, k) == z3.Select(A2, k))), ex(A1, n) == ex(A2, n)))
    return Contract('lemmas about occurrence', run_custom=run)
out.append(lem())

# ---- copy(): the explicit-stack traversal is a tail recursion RUN over (node stack, direction, marker stack, results);
# lists and trees are abstract codes, LST/LSTT are the lists held by a stack
F = lambda n, *a: z3.Function(n, *a)
CONS, LST, LSTT, TREE, KIND, LFT, RGT, NXT, TOK, GRD = F('CONS', I, I, I), F('LIST', AII, I, I), F('TREES', AII, I, I), F('TREE', I, I), F('KIND', I, I), F('LEFT', I, I), F('RIGHT', I, I), F('NEXT', I, I), F('TOKEN', I, I), F('GREEDY', I, I)
LSTB = F('MARKS', z3.ArraySort(I, Bo), I, I)
TL, TI, TB, OKT, RUN, OUT = F('T_leaf', I, I), F('T_iter', I, I, I), F('T_bin', I, I, I, I), F('TREE_OK', I, Bo), F('RUN', I, Bo, I, I, I), F('RESULT', I, I)
NIL, ERR = z3.IntVal(0), z3.IntVal(-1); T1, T0 = z3.IntVal(1), z3.IntVal(0)
def bm(b): return z3.If(b, T1, T0)
def isbin(t): return z3.Or(KIND(t) == SEQ, KIND(t) == SEL)
def tree_def(t):
    return z3.And(TREE(t) >= 0, z3.Implies(OKT(t), z3.And(t != 0, 0 <= KIND(t), KIND(t) <= 3, z3.Implies(KIND(t) == LEAF, TREE(t) == TL(TOK(t))),
        z3.Implies(KIND(t) == ITER, z3.And(OKT(NXT(t)), TREE(t) == TI(TREE(NXT(t)), GRD(t)))), z3.Implies(isbin(t), z3.And(OKT(LFT(t)), OKT(RGT(t)), TREE(t) == TB(KIND(t), TREE(LFT(t)), TREE(RGT(t))))))))
def down_step(t, nl, p, w):
    """nl = CONS(t, below)"""
    r = RUN(nl, True, p, w); comp = z3.Or(KIND(RGT(t)) == ITER, isbin(RGT(t)))
    return z3.And(z3.Implies(KIND(t) == LEAF, r == RUN(nl, False, p, w)), z3.Implies(KIND(t) == ITER, r == RUN(CONS(NXT(t), nl), True, CONS(T1, p), w)),
                  z3.Implies(isbin(t), r == RUN(CONS(LFT(t), CONS(RGT(t), nl)), True, z3.If(comp, CONS(T0, CONS(T1, p)), CONS(T1, p)), w)))
def up_leaf(t, nl, below, p, w): return z3.Implies(KIND(t) == LEAF, RUN(nl, False, p, w) == RUN(below, False, p, CONS(TL(TOK(t)), w)))
def up_wait(t, nl, p, p2, w): return z3.Implies(z3.And(KIND(t) != LEAF, p == CONS(T0, p2)), RUN(nl, False, p, w) == RUN(nl, True, p2, w))
def up_iter(t, nl, below, p, p2, w, x, w2): return z3.Implies(z3.And(KIND(t) == ITER, p == CONS(T1, p2), w == CONS(x, w2)), RUN(nl, False, p, w) == RUN(below, False, p2, CONS(TI(x, GRD(t)), w2)))
def up_bin(t, nl, below, p, p2, w, y, x, w2): return z3.Implies(z3.And(isbin(t), p == CONS(T1, p2), w == CONS(y, CONS(x, w2))), RUN(nl, False, p, w) == RUN(below, False, p2, CONS(TB(KIND(t), x, y), w2)))
def lem_copy():
    def run(cx):
        t, n, p, w = z3.Ints('t N P W'); nl = CONS(t, n)
        for x in (t, LFT(t), RGT(t), NXT(t)): cx.assume(tree_def(x))
        cx.assume(OKT(t))
        def claim(t, n, p, w): return z3.Implies(OKT(t), RUN(CONS(t, n), True, p, w) == RUN(n, False, p, CONS(TREE(t), w)))
        cx.assume(down_step(t, nl, p, w))
        cx.assume(up_leaf(t, nl, n, p, w)); cx.oblige('copying a leaf', z3.Implies(KIND(t) == LEAF, claim(t, n, p, w)))
        c = NXT(t); cx.assume(claim(c, nl, CONS(T1, p), w)); cx.assume(up_iter(t, nl, n, CONS(T1, p), p, CONS(TREE(c), w), TREE(c), w)); cx.oblige('copying a repetition, given its operand', z3.Implies(KIND(t) == ITER, claim(t, n, p, w)))
        l, r = LFT(t), RGT(t); rl = CONS(r, nl)
        for q in (CONS(T1, p), CONS(T0, CONS(T1, p))): cx.assume(claim(l, rl, q, w))
        wl = CONS(TREE(l), w); cx.assume(up_leaf(r, rl, nl, CONS(T1, p), wl)); cx.assume(up_wait(r, rl, CONS(T0, CONS(T1, p)), CONS(T1, p), wl)); cx.assume(claim(r, nl, CONS(T1, p), wl))
        cx.assume(up_bin(t, nl, n, CONS(T1, p), p, CONS(TREE(r), wl), TREE(r), TREE(l), w)); cx.oblige('copying a sequence or selection, given its operands', z3.Implies(isbin(t), claim(t, n, p, w)))
    return Contract('lemma: running the copy loop on a tree leaves exactly its copy (induction over the tree)', run_custom=run)
def s_copy(cx):
    heap(cx); d = cx.data; t = z3.Int('self'); cx.assume(OKT(t)); cx.assume(tree_def(t)); d.update(t=t, W0=cx.fresh(Ty('vec', [Ty('int', (64, True))]), 'owners')); d['O'] = cx.cell(d['W0'], 'owners')
    cx.assume(RUN(CONS(t, NIL), z3.BoolVal(True), NIL, NIL) == RUN(NIL, z3.BoolVal(False), NIL, CONS(TREE(t), NIL)))     # the lemma
    cx.assume(RUN(NIL, z3.BoolVal(False), NIL, CONS(TREE(t), NIL)) == TREE(t))
    a, b, m = z3.Const('A?', AII), z3.Const('B?', z3.ArraySort(I, Bo)), z3.Int('m?'); x, v = z3.Int('x?'), z3.Bool('v?'); n = z3.Int('n?')
    for L, arr, y in ((LST, a, x), (LSTT, a, x), (LSTB, b, v)):
        cx.assume(z3.ForAll([arr], L(arr, T0) == NIL, patterns=[L(arr, T0)]))
        cx.assume(z3.ForAll([arr, n, y, m], z3.Implies(m <= n, L(z3.Store(arr, n, y), m) == L(arr, m)), patterns=[L(z3.Store(arr, n, y), m)]))
    return LV(H, (('i', t),)), [d['O']]
def cfg(cx):
    return cx.v('node_stack_'), B(cx, cx.v('down_')), cx.v('perform_op_stack_'), cx.v('new_node_stack_')
def unroll_list(L, v, top, depth=2):
    n = Z(v.len); return z3.And(*[z3.Implies(n >= i + 1, L(v.arr, z3.simplify(n - i)) == CONS(top(z3.Select(v.arr, z3.simplify(n - i - 1))), L(v.arr, z3.simplify(n - i - 1)))) for i in range(depth)], z3.Implies(n == 0, L(v.arr, n) == NIL), z3.Implies(n == 1, L(v.arr, z3.simplify(n - 1)) == NIL))
def state(cx):
    N_, dn, p, w = cfg(cx); d = cx.data
    for L, v, top in ((LST, N_, lambda x: x), (LSTB, p, bm), (LSTT, w, lambda x: TREE(x))): cx.assume(unroll_list(L, v, top))
    return LST(N_.arr, Z(N_.len)), LSTB(p.arr, Z(p.len)), LSTT(w.arr, Z(w.len)), N_, dn, p, w
def run_inv(cx):
    nl, pl, wl, N_, dn, p, w = state(cx); d = cx.data; n = Z(N_.len); t = z3.Select(N_.arr, z3.simplify(n - 1))
    for x in (t, LFT(t), RGT(t), NXT(t)): cx.assume(tree_def(x))
    below = LST(N_.arr, z3.simplify(n - 1)); p2 = LSTB(p.arr, z3.simplify(Z(p.len) - 1)); nw = Z(w.len); x, y = TREE(z3.Select(w.arr, z3.simplify(nw - 1))), TREE(z3.Select(w.arr, z3.simplify(nw - 2)))
    w1, w2 = LSTT(w.arr, z3.simplify(nw - 1)), LSTT(w.arr, z3.simplify(nw - 2))
    one = z3.Implies(n >= 1, z3.And(down_step(t, nl, pl, wl), up_leaf(t, nl, below, pl, wl), z3.Implies(Z(p.len) >= 1, up_wait(t, nl, pl, p2, wl)),
         z3.Implies(z3.And(Z(p.len) >= 1, nw >= 1), up_iter(t, nl, below, pl, p2, wl, x, w1)), z3.Implies(z3.And(Z(p.len) >= 1, nw >= 2), up_bin(t, nl, below, pl, p2, wl, x, y, w2)),
         # too few markers or operands: an error value no tree has
         z3.Implies(z3.And(z3.Not(dn), KIND(t) != LEAF, Z(p.len) == 0), RUN(nl, False, pl, wl) == ERR), z3.Implies(z3.And(z3.Not(dn), KIND(t) != LEAF, Z(p.len) >= 1, pl == CONS(T1, p2), nw < z3.If(KIND(t) == ITER, 1, 2)), RUN(nl, False, pl, wl) == ERR)))
    fin = z3.Implies(n == 0, z3.And(RUN(nl, dn, pl, wl) == z3.If(nw == 1, x, ERR)))
    cx.assume(z3.And(one, fin))
    return [('the copy in progress ends in the tree', RUN(nl, dn, pl, wl) == TREE(d['t'])), ('pending nodes are sound', fall(0, n, lambda q: OKT(z3.Select(N_.arr, q)), lambda q: [z3.Select(N_.arr, q)])), ('lengths', z3.And(n >= 0, Z(p.len) >= 0, nw >= 0)), ('going down means there is a node', z3.Implies(dn, n >= 1))]
def h_traverse(cx, f, this, args, site):
    ex = cx.ex; t = addr(this); n, p = args[0], args[1]
    if ex.decide(KIND(t) == LEAF): return False
    ex.vpush(p, True)
    if ex.decide(KIND(t) == ITER): ex.vpush(n, NXT(t)); return True
    if ex.decide(z3.Or(KIND(RGT(t)) == ITER, isbin(RGT(t)))): ex.vpush(p, False)
    ex.vpush(n, RGT(t)); ex.vpush(n, LFT(t)); return True
def h_copy_node(cx, f, this, args, site):
    ex = cx.ex; t = addr(this); ow, w, p, dn = args; cx.oblige('copy_node runs on the way up', z3.Not(B(cx, cx.load(dn))))
    al = z3.Int(ex.fresh_name('new_node')); cx.assume(TREE(al) >= 0)
    if ex.decide(KIND(t) == LEAF): cx.assume(TREE(al) == TL(TOK(t))); ex.vpush(w, al); ex.vpush(ow, al); return
    pv = cx.load(p); cx.oblige('a marker is pending', Z(pv.len) >= 1); m = ex.sel(pv.arr, z3.simplify(Z(pv.len) - 1)); ex.storev(p, V(pv.ety, z3.simplify(Z(pv.len) - 1), pv.arr))
    if not ex.decide(m): ex.storev(dn, True); return
    wv = cx.load(w); n = Z(wv.len); it = ex.decide(KIND(t) == ITER); need = 1 if it else 2; cx.oblige('the copied operands are pending', n >= need)
    g = lambda i: z3.Select(wv.arr, z3.simplify(n - i))
    cx.assume(TREE(al) == (TI(TREE(g(1)), GRD(t)) if it else TB(KIND(t), TREE(g(2)), TREE(g(1)))))
    ex.storev(w, V(wv.ety, z3.simplify(n - need), wv.arr)); ex.vpush(w, al); ex.vpush(ow, al)
def e_copy(cx, r): cx.oblige('the result is an equal tree of new nodes', TREE(Z(r)) == TREE(cx.data['t']))
out += [lem_copy(), CT('node::copy', finder(NS + 'node<unsigned short>::copy', 1), setup=s_copy, ensures=e_copy, loops=[run_inv, run_inv, run_inv], summaries=[('traverse', h_traverse), ('copy_node', h_copy_node)])]
GROUPS = [dict(driver=DRIVER, contracts=out)]
LEVEL = 'proof'
SEARCH = ['L09.cpp']
RULE = 'random syntax trees (up to 40 nodes) built with the node classes: nullable, first, last and follow positions against the textbook definition computed on the tree, then the same for a copy; non-trivial: at least one iteration and one sequence'
ASSUMPTIONS = ['first and last positions of operands are leaves (end markers only occur as the right operand of the root)', 'leaves are distinct objects; storage of a new node is fresh', 'copy(): partial correctness (termination of the traversal is not proved); the copied tree is compared by kind, token, operands and repetition kind (greediness marks of leaves are covered by copy_node and the constructors)',
               'basic_node<uint16_t>; other id types share the template text']
