"""the partition of the alphabet and of the followers of a row: its two loops, the intersections they call, and the maps filled from the result"""
from .partition import *
from vc.exec import Contract
X, K, C = z3.Ints('X K C')
def cfind(cls, name, npar, W):
    rx = re.compile(r'lexertl::detail::basic_%s<(%sunsigned %s)>::%s$' % (cls, '(unsigned )?char, ' if cls == 'charset' else '', 'short' if W == 16 else 'char', name))
    def f(u):
        o = [n for q, n in u.funcs if rx.match(spell(q)) and len(params_of(n)) == npar]
        if not o: raise ExtractError('%s::%s not found' % (cls, name))
        return o[0]
    return f
def rec_of(cx, cls, W): rx = re.compile(r'lexertl::detail::basic_%s<(%sunsigned %s)>$' % (cls, '(unsigned )?char, ' if cls == 'charset' else '', 'short' if W == 16 else 'char')); return [q for q in cx.ex.u.records if rx.match(spell(q))][0]
bb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
g = lambda a: a.lv if isinstance(a, Ad) else a
def charset(W):
    u = Ty('int', (W, False)); NP = (1 << W) - 1
    class MX(Std):
        def m_set_begin(self, lv, a, e):
            r = super().m_set_begin(lv, a, e); self.cx.data.setdefault('keyof', {})[r.base.cell] = lv; return r
        def fn_inserter(self, e, a): return Op('inserter', {'lv': self.lvof(a[0])})
        def fn_merge(self, e, a):
            b = [self.rv(x) for x in a[:4]]; ko = self.cx.data['keyof']; d = self.rv(a[4]) if not isinstance(a[4], Op) else a[4]
            if not (isinstance(b[0], It) and isinstance(b[2], It) and isinstance(d, Op) and d.tag == 'inserter'): raise ExtractError('std::merge arguments')
            s1, s2 = self.load(ko[b[0].base.cell]), self.load(ko[b[2].base.cell]); o = self.load(d.d['lv']); self.trust('std::merge of two sets through an inserter')
            m = z3.Const(self.fresh_name('merged'), z3.ArraySort(I, Bo)); self.assume(z3.ForAll([k], SEL(m, k) == z3.Or(SEL(o.f['mem'], k), SEL(s1.f['mem'], k), SEL(s2.f['mem'], k)), patterns=[SEL(m, k)])); n = S('set', {'mem': m, 'size': z3.Int(self.fresh_name('size'))}); self.storev(d.d['lv'], n); self.set_wf(n); return VOID
    tok = lambda cx, nm: (lambda p: S('part', {'x': p.f['x'], 'e': p.f['e']}))(part(cx, nm))
    def t_isect(cx, f, this, args, site):
        """basic_string_token::intersect (L06)"""
        L, R, O = this, g(args[0]), g(args[1]); l, r, o = [cx.load(q).f for q in (L, R, O)]; l2, r2, o2 = tok(cx, 'l'), tok(cx, 'r'), tok(cx, 'o'); x = z3.And(bb(l['x']), bb(r['x']))
        cx.assume(z3.And(o2.f['x'] == z3.Or(bb(o['x']), x), l2.f['x'] == z3.And(bb(l['x']), z3.Not(x)), r2.f['x'] == z3.And(bb(r['x']), z3.Not(x)), z3.Implies(bb(l['e']), l2.f['e']), z3.Implies(bb(r['e']), r2.f['e'])))
        cx.assume(z3.Implies(o2.f['e'], z3.And(l2.f['e'] == bb(l['e']), r2.f['e'] == bb(r['e'])))); [cx.ex.storev(a, b) for a, b in ((L, l2), (R, r2), (O, o2))]
    def t_empty(cx, f, this, args, site): return cx.load(this).f['e']
    def setup(cx):
        d = cx.data; rec = rec_of(cx, 'charset', W)
        def mk(nm):
            s = cx.fresh(Ty('set', [u]), nm); t = tok(cx, nm); return S(rec, {'_token': t, '_index_set': s})
        for nm in ('this', 'rhs_', 'overlap_'): d[nm] = cx.cell(mk(nm), nm)
        o = cx.load(d['overlap_']); cx.assume(z3.And(o.f['_token'].f['e'], Z(o.f['_index_set'].f['size']) == 0, z3.ForAll([k], z3.Not(SEL(o.f['_index_set'].f['mem'], k))))); return d['this'], [d['rhs_'], d['overlap_']]
    def ens(cx, r):
        d = cx.data; t = lambda n, s=None: cx.load(d[n], s).f['_token'].f; m = lambda n, s=None: SEL(cx.load(d[n], s).f['_index_set'].f['mem'], K); l, rr, o = [t(n) for n in ('this', 'rhs_', 'overlap_')]; l0, r0 = t('this', 'old'), t('rhs_', 'old')
        cx.oblige('the overlap holds the characters both have', bb(o['x']) == z3.And(l0['x'], r0['x'])); cx.oblige('left keeps the rest', bb(l['x']) == z3.And(l0['x'], z3.Not(r0['x']))); cx.oblige('right keeps the rest', bb(rr['x']) == z3.And(r0['x'], z3.Not(l0['x'])))
        ne = z3.Not(bb(o['e'])); cx.oblige('the overlap belongs to the sets of both', z3.Implies(ne, m('overlap_') == z3.Or(m('this', 'old'), m('rhs_', 'old')))); cx.oblige('no overlap, no sets', z3.Implies(z3.Not(ne), z3.Not(m('overlap_'))))
        for n, q in (('this', l), ('rhs_', rr)): cx.oblige('%s keeps its sets unless nothing is left' % n, m(n) == z3.And(m(n, 'old'), z3.Not(z3.And(ne, bb(q['e'])))))
    SM = [(lambda q, n: 'string_token' in q and q.endswith('::intersect'), t_isect), (lambda q, n: 'string_token' in q and q.endswith('::empty'), t_empty)]
    def s_em(cx): d = cx.data; c = cx.fresh(Ty('set', [u]), 'sets'); d['s'] = c; d['t'] = tok(cx, 'token'); return cx.cell(S(rec_of(cx, 'charset', W), {'_token': d['t'], '_index_set': c}), 'this'), []
    return [Contract('charset::intersect %d bit ids' % W, func=cfind('charset', 'intersect', 2, W), setup=setup, ensures=ens, loops=[], summaries=SM, exec_class=MX),
            Contract('charset::empty %d bit ids' % W, func=cfind('charset', 'empty', 0, W), setup=s_em, ensures=lambda cx, r: cx.oblige('no characters and no sets', B(cx, r) == z3.And(cx.data['t'].f['e'], Z(cx.data['s'].f['size']) == 0)), loops=[], summaries=SM)]
def sorted_in(cx, v): n = Z(v.len); cx.assume(z3.And(n >= 0, n < 2 ** 32, z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), SEL(v.arr, k) < SEL(v.arr, j)), patterns=[z3.MultiPattern(SEL(v.arr, k), SEL(v.arr, j))])))
def equivset(W):
    u = Ty('int', (W, False)); NP = (1 << W) - 1; u64 = Ty('int', (64, False)); out = []
    # ---- process_greedy: a hard end wins over a lazy left side, otherwise the left side (the earlier rule) decides
    def obj(cx, nm, vec=None, fp=None):
        ex = cx.ex; d = cx.data; gr = z3.Int(nm + '.greedy'); cx.assume(z3.And(gr >= 0, gr <= 2)); d[nm] = cx.cell(S(rec_of(cx, 'equivset', W), {'_index_vector': vec or cx.fresh(Ty('vec', [u]), nm + '.ids'), '_id': cx.fresh(u, nm + '.id'), '_greedy': gr, '_followpos': fp or cx.fresh(Ty('vec', [u64]), nm + '.fp')}), nm); return d[nm]
    def three(cx): return [obj(cx, n) for n in ('this', 'rhs_', 'overlap_')]
    fl = lambda cx, n, f, s=None: cx.load(cx.data[n].f(f), s)
    def s_pg(cx): a, b, c = three(cx); return a, [b, c]
    gspec = lambda l, r: z3.If(z3.And(l == 0, r == 2), 2, l)
    same = lambda cx, n, f: (lambda a, b: z3.And(Z(a.len) == Z(b.len), a.arr == b.arr) if isinstance(a, V) else Z(a) == Z(b))(fl(cx, n, f), fl(cx, n, f, 'old'))
    def e_pg(cx, r): cx.oblige('the overlap is as greedy as the left side, unless that is lazy and the right side is hard', Z(fl(cx, 'overlap_', '_greedy')) == gspec(Z(fl(cx, 'this', '_greedy', 'old')), Z(fl(cx, 'rhs_', '_greedy', 'old')))); cx.oblige('nothing else changes', z3.And([same(cx, n, f) for n in ('this', 'rhs_', 'overlap_') for f in ('_index_vector', '_id', '_followpos')] + [same(cx, 'this', '_greedy'), same(cx, 'rhs_', '_greedy')]))
    out.append(Contract('equivset::process_greedy %d bit ids' % W, func=cfind('equivset', 'process_greedy', 2, W), setup=s_pg, ensures=e_pg, loops=[]))
    # ---- remove: both sorted, every element of source is in dest
    D, Q, J = z3.Function('place_in_dest', I, I), z3.Int('Q'), z3.Int('J')
    def s_rm(cx):
        d = cx.data; s, t = cx.fresh(Ty('vec', [u]), 'source_'), cx.fresh(Ty('vec', [u]), 'dest_'); sorted_in(cx, s); sorted_in(cx, t); m, n = Z(s.len), Z(t.len); d.update(s=s, t=t, m=m, n=n, pos=cx.cell(Q, 'place')); cx.assume(m >= 1)
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= D(k), D(k) < n, SEL(t.arr, D(k)) == SEL(s.arr, k))), patterns=[D(k)]))
        # places are in order because both are sorted
        cx.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < m), D(k) < D(j)), patterns=[z3.MultiPattern(D(k), D(j))]))
        cx.assume(z3.And(0 <= Q, Q < n, 0 <= J, J < m)); cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), D(k) != Q), patterns=[D(k)]))
        d['src'] = cx.cell(s, 'source_'); d['dst'] = cx.cell(t, 'dest_'); return cx.cell(S(rec_of(cx, 'equivset', W), {}), 'this'), [d['src'], d['dst']]
    def at(cx, t, w):
        d = cx.data; p = Z(cx.load(d['pos'])); r = z3.IntVal(-1)
        for c in (Q, w - 1, p): r = z3.If(z3.And(0 <= c, c < w, SEL(t.arr, c) == SEL(d['t'].arr, Q)), c, r)
        cx.ex.storev(d['pos'], r); return r
    def st(cx, r, w, i):
        d = cx.data; t = cx.load(d['dst']); p = at(cx, t, w); cx.assume(z3.And([z3.Implies(z3.And(0 <= x, x < d['m']), z3.And(0 <= D(x), D(x) < d['n'], SEL(d['t'].arr, D(x)) == SEL(d['s'].arr, x))) for x in (z3.IntVal(0), i, J)]))
        return [('what is read next is untouched', z3.ForAll([k], z3.Implies(z3.And(r <= k, k < d['n']), SEL(t.arr, k) == SEL(d['t'].arr, k)), patterns=[SEL(t.arr, k)])),
            ('what is not in source is kept', z3.Implies(Q < r, p >= 0)),
            ('nothing in source is kept', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < w), SEL(t.arr, k) != SEL(d['s'].arr, J)), patterns=[SEL(t.arr, k)])),
            ('what is kept is below what is read next', z3.And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < w, r < d['n']), SEL(t.arr, k) < SEL(d['t'].arr, r)), patterns=[SEL(t.arr, k)]), z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < w), SEL(t.arr, k) < SEL(t.arr, j)), patterns=[z3.MultiPattern(SEL(t.arr, k), SEL(t.arr, j))]))), ('the length stays', Z(t.len) == d['n'])]
    def passed(r, i, m): return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), (k < i) == (D(k) < r)), patterns=[D(k)])
    def L1(cx): d = cx.data; r, w, i = [Z(cx.v(q).idx) for q in ('reader_', 'writer_', 'inter_')]; return [('positions', z3.And(0 <= w, w <= r, r <= d['n'], w == r - i, 0 <= i, i <= d['m'])), ('what of source is passed', passed(r, i, d['m']))] + st(cx, r, w, i) + [('variant', d['n'] - r)]
    def L2(cx): d = cx.data; r, w = [Z(cx.v(q).idx) for q in ('reader_', 'writer_')]; return [('positions', z3.And(0 <= w, w <= r, r <= d['n'], w == r - d['m'])), ('what of source is passed', passed(r, d['m'], d['m']))] + st(cx, r, w, d['m']) + [('variant', d['n'] - r)]
    def e_rm(cx, r):
        d = cx.data; t = cx.load(d['dst']); cx.oblige('as many are left as are not in source', Z(t.len) == d['n'] - d['m']); cx.oblige('what is not in source is kept', at(cx, t, Z(t.len)) >= 0)
        cx.oblige('nothing in source is kept', z3.Implies(z3.And(0 <= X, X < Z(t.len)), SEL(t.arr, X) != SEL(d['s'].arr, J))); cx.oblige('still sorted', z3.Implies(z3.And(0 <= X, X < C, C < Z(t.len)), SEL(t.arr, X) < SEL(t.arr, C))); s2 = cx.load(d['src']); cx.oblige('source is unchanged', s2.arr == d['s'].arr)
    out.append(Contract('equivset::remove %d bit ids' % W, func=cfind('equivset', 'remove', 2, W), setup=s_rm, ensures=e_rm, loops=[L1, L2], timeout=60))
    # ---- intersect_indexes: membership of an arbitrary class number X
    mem = lambda cx, nm: z3.Bool(cx.ex.fresh_name(nm))
    class IX(Std):
        def fn_back_inserter(self, e, a): return Op('back', {'lv': self.lvof(a[0])})
        def fn_set_intersection(self, e, a):
            b = [self.rv(x) for x in a]; o = b[4]
            if not (isinstance(o, Op) and o.tag == 'back' and all(isinstance(x, It) for x in b[:4])): raise ExtractError('set_intersection arguments')
            p, q = b[0].base, b[2].base; self.check('whole vectors are intersected', z3.And(Z(b[0].idx) == 0, Z(b[2].idx) == 0, Z(b[1].idx) == Z(self.load(p).len), Z(b[3].idx) == Z(self.load(q).len))); self.trust('std::set_intersection'); cur = self.load(o.d['lv']); self.check('the overlap is empty', Z(cur.len) == 0)
            x, y = self.load(p), self.load(q); r = self.fresh(Ty('vec', [u]), 'both'); self.assume(z3.And(r.arr.sort() == x.arr.sort())) if False else None
            self.storev(o.d['lv'], r); self.cx.data['cap'] = (p, q, r); m = self.cx.data['MEM']; m[str(o.d['lv'])] = z3.And(m[str(p)], m[str(q)]); self.assume(z3.Implies(Z(r.len) == 0, z3.Not(m[str(o.d['lv'])]))); self.cx.data['sorted'] = True; return VOID
    def h_rm(cx, f, this, args, site):
        m = cx.data['MEM']; s, t = str(g(args[0])), str(g(args[1])); ss, tt = cx.load(g(args[0])), cx.load(g(args[1])); p, q, r = cx.data['cap']; cx.oblige('what is removed was found in both and is not empty', z3.And(Z(ss.len) >= 1, z3.BoolVal(s == str(cx.data['overlap_'].f('_index_vector')) and t in (str(p), str(q)) and t not in cx.data['removed']))); cx.data['removed'].append(t)
        n = cx.fresh(Ty('vec', [u]), 'rest'); m[t] = z3.And(m[t], z3.Not(m[s])); cx.assume(z3.Implies(Z(n.len) == 0, z3.Not(m[t]))); cx.ex.storev(g(args[1]), n)
    def s_ii(cx): a, b, c = three(cx); d = cx.data; d['removed'] = []; cx.assume(Z(fl(cx, 'overlap_', '_index_vector').len) == 0); d['l0'], d['r0'] = z3.Bools('in_left in_right'); d['MEM'] = {str(a.f('_index_vector')): d['l0'], str(b.f('_index_vector')): d['r0']}; return a, [b.f('_index_vector'), c.f('_index_vector')]
    def e_ii(cx, r):
        d = cx.data; m = lambda n: d['MEM'][str(d[n].f('_index_vector'))]; both = z3.And(d['l0'], d['r0'])
        cx.oblige('the overlap holds what both have', m('overlap_') == both); cx.oblige('left keeps the rest', m('this') == z3.And(d['l0'], z3.Not(d['r0']))); cx.oblige('right keeps the rest', m('rhs_') == z3.And(d['r0'], z3.Not(d['l0']))); cx.oblige('nothing else changes', z3.And([same(cx, n, f) for n in ('this', 'rhs_', 'overlap_') for f in ('_greedy', '_id', '_followpos')]))
    out.append(Contract('equivset::intersect_indexes %d bit ids' % W, func=cfind('equivset', 'intersect_indexes', 2, W), setup=s_ii, ensures=e_ii, loops=[], summaries=[(sub('remove'), h_rm)], exec_class=IX))
    # ---- intersect
    IR = z3.Function('in_right_so_far', I, Bo)
    def h_ii(cx, f, this, args, site):
        d = cx.data; L, R, O = d['this'].f('_index_vector'), g(args[0]), g(args[1]); cx.oblige('the class numbers of the two sides are intersected', z3.BoolVal(str(R) == str(d['rhs_'].f('_index_vector')) and str(O) == str(d['overlap_'].f('_index_vector')))); x = [cx.fresh(Ty('vec', [u]), n) for n in 'lro']; [cx.ex.storev(a, b) for a, b in zip((L, R, O), x)]; d['after'] = x; cx.assume(z3.Implies(Z(x[2].len) == 0, z3.And(Z(x[0].len) == Z(fl(cx, 'this', '_index_vector', 'old').len), Z(x[1].len) == Z(fl(cx, 'rhs_', '_index_vector', 'old').len))))
    def h_pg(cx, f, this, args, site): d = cx.data; cx.oblige('both sides are given', z3.BoolVal(str(g(args[0])) == str(d['rhs_']) and str(g(args[1])) == str(d['overlap_']))); cx.ex.storev(d['overlap_'].f('_greedy'), gspec(Z(fl(cx, 'this', '_greedy')), Z(fl(cx, 'rhs_', '_greedy'))))
    def s_in(cx):
        a, b, c = three(cx); d = cx.data; cx.assume(z3.And(Z(fl(cx, 'overlap_', '_index_vector').len) == 0, Z(fl(cx, 'overlap_', '_followpos').len) == 0)); lf, rf = fl(cx, 'this', '_followpos'), fl(cx, 'rhs_', '_followpos'); PL = z3.Int('place_in_left'); d['INL'] = z3.And(0 <= PL, PL < Z(lf.len), SEL(lf.arr, PL) == K); cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(lf.len), SEL(lf.arr, k) == K), d['INL']), patterns=[SEL(lf.arr, k)])); d['PL'] = PL; cx.assume(z3.Not(IR(0)))
        cx.assume(z3.ForAll([k], z3.Implies(k >= 0, IR(k + 1) == z3.Or(IR(k), SEL(rf.arr, k) == K)), patterns=[IR(k + 1)])); d['lf'], d['rf'] = lf, rf; d['pos'] = cx.cell(PL, 'place'); cx.assume(z3.And(Z(lf.len) < 2 ** 32, Z(rf.len) < 2 ** 32)); return a, [b, c]
    def has(cx, o):
        n = Z(o.len); p = Z(cx.load(cx.data['pos'])); r = z3.IntVal(-1)
        for c in (n - 1, p): r = z3.If(z3.And(0 <= c, c < n, SEL(o.arr, c) == K), c, r)
        cx.ex.storev(cx.data['pos'], r); return r
    def L_in(cx):
        d = cx.data; o = fl(cx, 'overlap_', '_followpos'); i = Z(cx.v('__begin').idx); b, e = cx.v('overlap_begin_'), cx.v('overlap_end_'); p = has(cx, o); IR_ = IR(i); cx.assume(IR(i + 1) == z3.Or(IR(i), SEL(d['rf'].arr, i) == K)); return [('position', z3.And(0 <= i, i <= Z(d['rf'].len), Z(cx.v('__end').idx) == Z(d['rf'].len), Z(b.idx) == 0, Z(e.idx) == Z(o.len), Z(o.len) >= Z(d['lf'].len))), ('the overlap follows what either side follows so far', z3.Implies(z3.Or(d['INL'], IR_), p >= 0)), ('and nothing else', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(o.len), SEL(o.arr, k) == K), z3.Or(d['INL'], IR_)), patterns=[SEL(o.arr, k)])), ('variant', Z(d['rf'].len) - i)]
    def e_in(cx, r):
        d = cx.data; o = fl(cx, 'overlap_', '_followpos'); x = d['after']; ne = Z(x[2].len) > 0; p = has(cx, o); IN = IR(Z(d['rf'].len)); cx.oblige('the overlap follows what either side follows', z3.Implies(ne, (p >= 0) == z3.Or(d['INL'], IN))); cx.oblige('and nothing else', z3.Implies(z3.And(ne, 0 <= X, X < Z(o.len), SEL(o.arr, X) == K), z3.Or(d['INL'], IN)))
        cx.oblige('the overlap has the token number of the left side', z3.Implies(ne, Z(fl(cx, 'overlap_', '_id')) == Z(fl(cx, 'this', '_id', 'old')))); cx.oblige('the overlap has its greediness', z3.Implies(ne, Z(fl(cx, 'overlap_', '_greedy')) == gspec(Z(fl(cx, 'this', '_greedy', 'old')), Z(fl(cx, 'rhs_', '_greedy', 'old')))))
        for n, q in (('this', 0), ('rhs_', 1)): a, a0 = fl(cx, n, '_followpos'), fl(cx, n, '_followpos', 'old'); cx.oblige('%s keeps its followers unless no class is left' % n, z3.If(z3.And(ne, Z(x[q].len) == 0), Z(a.len) == 0, z3.And(Z(a.len) == Z(a0.len), a.arr == a0.arr)))
        cx.oblige('no overlap, no followers', z3.Implies(z3.Not(ne), Z(o.len) == 0)); cx.oblige('classes as intersected', z3.And([fl(cx, n, '_index_vector').arr == x[q].arr for n, q in (('this', 0), ('rhs_', 1), ('overlap_', 2))]))
    out.append(Contract('equivset::intersect %d bit ids' % W, func=cfind('equivset', 'intersect', 2, W), setup=s_in, ensures=e_in, loops=[L_in], summaries=[(sub('intersect_indexes'), h_ii), (sub('process_greedy'), h_pg)]))
    return out
CS = [c for i in INST if i != 'character machine' for c in (partition(i, 'partition_charsets', 3, 'charset'), partition(i, 'build_equiv_list', 4, 'equivset'))] + charset(16) + charset(8) + equivset(16) + equivset(8)
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'exploration'
SEARCH = ['L07.cpp']
RULE = 'x'
