"""closure_ex, closure and set_transitions: the subset construction gives each set of positions one row, marked with the first rule that ends there"""
from .gen_common import *
H = 'heap:_node'
AB = z3.ArraySort(I, Bo)
G = {n: z3.Function('NODE_' + n, I, I) for n in ('id', 'user_id', 'next_dfa', 'push_dfa', 'greedy', 'unique_id', 'token')}      # the getters of a node (L09)
END, POP = z3.Function('NODE_end_state', I, Bo), z3.Function('NODE_pop_dfa', I, Bo)
w = z3.Int('w')                          # an arbitrary position
x_, y_ = z3.Ints('x? y?')
def getters(np):
    """virtual getters of basic_node: they only read the node (L09)"""
    def g(n):
        def h(cx, f, this, args, site):
            a = Z(cx.ex.load_addr(this) if hasattr(cx.ex, 'load_addr') else this.path[0][1])
            if n == 'end_state': return END(a)
            if n == 'pop_dfa': return POP(a)
            t = G[n](a); hi = 2 if n == 'greedy' else np; cx.assume(z3.And(t >= 0, t <= hi)); return t
        return h
    return [(sub(n), g(n)) for n in ('id', 'user_id', 'next_dfa', 'push_dfa', 'greedy', 'unique_id', 'token', 'end_state', 'pop_dfa')]
def data_of(e): return [G['id'](e), G['user_id'](e), G['next_dfa'](e), G['push_dfa'](e), POP(e), G['greedy'](e)]
OUT = ('id_', 'user_id_', 'next_dfa_', 'push_dfa_', 'pop_dfa_', 'greedy_')
def ints(cx, np, *t): [cx.assume(z3.And(x >= 0, x <= np)) for x in t]
def cex_after(st, a, skip):
    """state of the outputs after closure_ex(a): st = dict(end, OUT.., mem, uses)"""
    take = z3.And(END(a), z3.Not(st['end'])); o = dict(st); o['end'] = z3.Or(st['end'], END(a))
    for n, d in zip(OUT, data_of(a)): o[n] = z3.If(take, d, st[n])
    o['mem'] = z3.Store(st['mem'], a, True); o['new'] = z3.Not(SEL(st['mem'], a)); return o
def heap(cx): cx.ex.store[H] = S('heap', {'#elems': S('node', {'kind': z3.Const('h.kind', ARR)})})
def rein(cx, *a): t = z3.Int(cx.ex.fresh_name('address')); cx.assume(z3.And(t >= 0, t < 2 ** 64)); return t
def closure_ex(inst):
    W = INST[inst][2]; NP = (1 << W) - 1; u = Ty('int', (W, False)); u64 = Ty('int', (64, False))
    def setup(cx):
        heap(cx); ex = cx.ex; d = cx.data; a = z3.Int('node_'); cx.assume(a > 0); d['a'] = a
        c = lambda n, v: d.setdefault(n, cx.cell(v, n))
        c('end', z3.Bool('end_state_'))
        for n in OUT: c(n, z3.Bool(n) if n == 'pop_dfa_' else cx.fresh(u if n != 'greedy_' else Ty('int', (32, True)), n))
        c('set', cx.fresh(Ty('set', [u64]), 'set_ptr_')); vv = cx.fresh(Ty('vec', [u64]), 'vector_ptr_'); cx.assume(Z(vv.len) < 2 ** 40); c('vec', vv); c('hash', cx.fresh(u64, 'hash_')); c('used', cx.fresh(Ty('set', [u]), 'used_ids_')); fl = cx.fresh(u64, 'flags_'); d['fl'] = fl
        return None, [a, d['end'], d['id_'], d['user_id_'], d['next_dfa_'], d['push_dfa_'], d['pop_dfa_'], d['set'], d['vec'], d['hash'], d['greedy_'], fl, d['used']]
    def ens(cx, r):
        d = cx.data; a = d['a']; ld = lambda n, s=None: cx.load(d[n], s); bb = lambda n, s=None: B(cx, ld(n, s)) if n in ('end', 'pop_dfa_') else Z(ld(n, s))
        st = {n: bb(n, 'old') for n in OUT}; st['end'] = bb('end', 'old'); st['mem'] = ld('set', 'old').f['mem']; o = cex_after(st, a, None)
        cx.oblige('an end state is remembered', bb('end') == o['end'])
        for n in OUT: cx.oblige('%s is that of the first end node' % n.rstrip('_'), bb(n) == o[n])
        cx.oblige('the position joins the set', SEL(ld('set').f['mem'], w) == SEL(o['mem'], w))
        v, v0 = ld('vec'), ld('vec', 'old'); cx.oblige('a new position is appended', z3.If(o['new'], z3.And(Z(v.len) == Z(v0.len) + 1, SEL(v.arr, Z(v0.len)) == a), Z(v.len) == Z(v0.len))); cx.oblige('earlier positions stay', z3.Implies(z3.And(0 <= w, w < Z(v0.len)), SEL(v.arr, w) == SEL(v0.arr, w)))
        us, us0 = ld('used').f['mem'], ld('used', 'old').f['mem']; take = z3.And(END(a), z3.Not(st['end'])); sup = (d['fl'] / FLAG) % 2 == 1
        cx.oblige('the rule that ends here is used', SEL(us, w) == z3.Or(SEL(us0, w), z3.And(take, z3.Not(sup), w == G['unique_id'](a))))
    FLAG = 32
    return Contract('closure_ex<%s>' % inst, func=gfind(inst, 'closure_ex', 13), setup=setup, ensures=ens, loops=[], summaries=getters(NP), heap=('_node',), reinterpret=rein, merge=True)
ROWEND = z3.Const('row_end', ARR)        # per row: the end node whose data it carries (0: none)
RULE = G['unique_id']
def sorted_(v, n):
    """end nodes stand in rule order (rules are pushed in order; the left operand of an intersection goes first)"""
    return z3.ForAll([x_, y_], z3.Implies(z3.And(0 <= x_, x_ < y_, y_ < n, END(SEL(v, x_)), END(SEL(v, y_))), RULE(SEL(v, x_)) <= RULE(SEL(v, y_))), patterns=[z3.MultiPattern(SEL(v, x_), SEL(v, y_))])
def one_end(cx):
    """each rule has one end node"""
    cx.assume(z3.ForAll([x_, y_], z3.Implies(z3.And(END(x_), END(y_), RULE(x_) == RULE(y_)), x_ == y_), patterns=[z3.MultiPattern(END(x_), END(y_))]))
def first_end(e, mem):
    """e is the end node of the first rule that ends in the set (0: none does)"""
    return z3.And(z3.Implies(e == 0, z3.ForAll([x_], z3.Implies(SEL(mem, x_), z3.Not(END(x_))), patterns=[SEL(mem, x_)])),
                  z3.Implies(e != 0, z3.And(END(e), SEL(mem, e), z3.ForAll([x_], z3.Implies(z3.And(SEL(mem, x_), END(x_)), RULE(e) <= RULE(x_)), patterns=[SEL(mem, x_)]))))
def row_is(D, o, e):
    """columns 0 to 4 of the row at offset o say that the rule of end node e ends here"""
    g = lambda c: SEL(D, o + c); dt = data_of(e)
    return z3.If(e == 0, z3.And([g(c) == 0 for c in range(5)]), z3.And(g(0) == 1 + z3.If(dt[5] != 0, 2, 0) + z3.If(dt[4], 4, 0), g(1) == dt[0], g(2) == dt[1], g(3) == dt[3], g(4) == dt[2]))
def closure(inst, big=False):
    """big: any number of rows, also more than the id type can number (then build throws at the end)"""
    W = INST[inst][2]; NP = (1 << W) - 1; u = Ty('int', (W, False)); u64 = Ty('int', (64, False)); T = z3.Int('T'); S_ = z3.Int('s?')
    ROW = z3.Function('ROW', I, I)
    def setup(cx):
        heap(cx); ex = cx.ex; d = cx.data; one_end(cx); A = cx.fresh(u, 'size_'); cx.assume(A >= 7); d['A'] = A
        c = lambda n, v: d.setdefault(n, cx.cell(v, n)); f = cx.fresh(Ty('vec', [u64]), 'followpos_'); cx.assume(Z(f.len) < 2 ** 40); c('f', f); d['fv'] = f
        cx.assume(z3.ForAll([k], SEL(f.arr, k) > 0, patterns=[SEL(f.arr, k)])); cx.assume(sorted_(f.arr, Z(f.len)))
        n = z3.Int('n_rows'); d['n'] = n; cx.assume(z3.And(n >= 0, n < (2 ** 40 if big else NP))); M = z3.Const('seen.mem', z3.ArraySort(I, AB)); SZ = z3.Const('seen.size', ARR); d['M'] = M
        st = Ty('set', [u64]); c('sets', V(Ty('opt', [st]), n, S('opt', {'some': z3.K(I, z3.BoolVal(True)), 'val': S('set', {'mem': M, 'size': SZ})}))); vt = Ty('vec', [u64])
        c('vecs', V(Ty('opt', [vt]), n, S('opt', {'some': z3.K(I, z3.BoolVal(True)), 'val': V(u64, z3.Const('seenv.len', ARR), z3.Const('seenv.arr', z3.ArraySort(I, ARR)))})))
        hv = cx.fresh(Ty('vec', [u64]), 'hash'); cx.assume(Z(hv.len) == n); c('hash', hv)
        dfa = cx.fresh(Ty('vec', [u]), 'dfa'); c('dfa', dfa); d['D'] = dfa.arr
        # one row for the dead state and one per set seen; rows do not overlap
        cx.assume(z3.And(ROW(0) == 0, Z(dfa.len) == ROW(n + 1), ROW(n + 1) < 2 ** 60, ROW(n + 1) >= 0, ROW(n + 2) == ROW(n + 1) + A, ROW(T + 1) + A <= z3.If(T < n, ROW(n + 1), ROW(T + 1) + A), ROW(T + 1) >= 0))
        e = SEL(ROWEND, T + 1); d['pre'] = z3.And(first_end(e, SEL(M, T)), row_is(dfa.arr, ROW(T + 1), e)); cx.assume(z3.Implies(z3.And(0 <= T, T < n), d['pre']))
        c('used', cx.fresh(Ty('set', [u]), 'used_ids_')); fl = cx.fresh(u64, 'flags_')
        d['first'] = cx.cell(z3.IntVal(0), 'first'); d['widx'] = cx.cell(z3.IntVal(-1), 'widx')      # ghosts
        return None, [d['f'], d['sets'], d['vecs'], d['hash'], A, d['dfa'], fl, d['used']]
    def h_cex(cx, f, this, args, site):
        """closure_ex (proved above)"""
        ex = cx.ex; d = cx.data; a = Z(args[0]); lv = dict(zip(('end',) + OUT[:5], args[1:7])); lv['greedy_'] = args[10]; bb = lambda n: B(cx, cx.load(lv[n])) if n in ('end', 'pop_dfa_') else Z(cx.load(lv[n]))
        st = {n: bb(n) for n in lv}; sv = ex.load(args[7]); st['mem'] = sv.f['mem']; o = cex_after(st, a, None); ints(cx, NP, *[g for g in data_of(a)[:4]]); cx.assume(z3.And(data_of(a)[5] >= 0, data_of(a)[5] <= 2))
        fst = cx.load(d['first']); ex.storev(d['first'], z3.If(z3.And(END(a), fst == 0), a, fst))
        for n in lv: ex.storev(lv[n], o[n])
        ex.storev(args[7], S('set', {'mem': o['mem'], 'size': z3.If(o['new'], Z(sv.f['size']) + 1, Z(sv.f['size']))})); v = ex.load(args[8])
        ex.storev(d['widx'], z3.If(z3.And(o['new'], a == w), Z(v.len), cx.load(d['widx'])))
        ex.storev(args[8], V(v.ety, z3.If(o['new'], Z(v.len) + 1, Z(v.len)), z3.If(o['new'], z3.Store(v.arr, Z(v.len), a), v.arr)))
        ex.storev(args[9], cx.fresh(u64, 'hash_')); ex.storev(args[12], cx.fresh(Ty('set', [u]), 'used_ids_')); return None
    def state(cx, i):
        d = cx.data; v = lambda n: cx.v(n); f = d['fv']; fst = cx.load(d['first']); sv = cx.load(v('set_ptr_').f['val']) if isinstance(v('set_ptr_').f['val'], LV) else v('set_ptr_').f['val']; vv = v('vector_ptr_').f['val']; wi = cx.load(d['widx']); bb = lambda n: B(cx, v(n)) if n == 'pop_dfa_' else Z(v(n)); mem = sv.f['mem']
        return [('the pointers are held', z3.And(B(cx, v('set_ptr_').f['some']), B(cx, v('vector_ptr_').f['some']))),
            ('an end state was seen', z3.And(B(cx, v('end_state_')) == (fst != 0), fst >= 0)), ('its data is kept', z3.And([z3.Implies(fst != 0, bb(n) == q) for n, q in zip(OUT, data_of(fst))])),
            ('it is the first rule that ends here', first_end(fst, mem)), ('it came from the list', z3.Implies(fst != 0, z3.Exists([k], z3.And(0 <= k, k < i, SEL(f.arr, k) == fst)))),
            ('the set holds the positions passed', z3.And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), SEL(mem, SEL(f.arr, k))), patterns=[SEL(f.arr, k)]), z3.ForAll([x_], z3.Implies(SEL(mem, x_), z3.Exists([k], z3.And(0 <= k, k < i, SEL(f.arr, k) == x_))), patterns=[SEL(mem, x_)]))),
            ('each of them is in the list once', z3.Implies(SEL(mem, w), z3.And(0 <= wi, wi < Z(vv.len), SEL(vv.arr, wi) == w))), ('and nothing else is', z3.Implies(z3.And(0 <= w, w < Z(vv.len)), SEL(mem, SEL(vv.arr, w)))), ('sizes', z3.And(Z(vv.len) >= 0, Z(vv.len) <= i)), ('set size', z3.And(Z(sv.f['size']) >= 0, Z(sv.f['size']) <= i)),
            ('ranges', z3.And([z3.And(Z(v(n)) >= 0, Z(v(n)) <= (2 if n == 'greedy_' else NP)) for n in OUT if n != 'pop_dfa_'])),
            ('tables untouched', untouched(cx))]
    def untouched(cx):
        d = cx.data; g = []
        for n in ('sets', 'vecs', 'hash', 'dfa'):
            o, v = cx.load(d[n], 'old'), cx.load(d[n]); g.append(Z(o.len) == Z(v.len)); g.append(arr_eq(o.arr, v.arr))
        return z3.And(g)
    def arr_eq(a, b):
        if isinstance(a, S): return z3.And([arr_eq(a.f[q], b.f[q]) for q in a.f])
        if isinstance(a, V): return z3.And(Z(a.len) == Z(b.len), arr_eq(a.arr, b.arr))
        return a == b
    def L1(cx): i = Z(cx.v('__begin').idx); n = Z(cx.data['fv'].len); return [('index', z3.And(0 <= i, i <= n, Z(cx.v('__end').idx) == n))] + state(cx, i) + [('variant', n - i)]
    def L2(cx):
        d = cx.data; n = d['n']; i = Z(cx.v('hash_iter_').idx); ix = Z(cx.v('index_')); fnd = B(cx, cx.v('found_')); mem = cx.v('set_ptr_').f['val'].f['mem']
        return [('index', z3.And(0 <= i, i <= n, Z(cx.v('hash_end_').idx) == n, Z(cx.v('set_iter_').idx) == i))] + ([] if big else [('row number', ix == i)]) + [ ('found means equal', z3.Implies(fnd, z3.And(i >= 1, SEL(d['M'], i - 1) == mem)))] + state(cx, Z(d['fv'].len)) + [('variant', n - i)]
    def ens(cx, r):
        d = cx.data; n = d['n']; f = d['fv']; r = Z(r); empty = Z(f.len) == 0; sets, vecs, hv, dfa = [cx.load(d[q]) for q in ('sets', 'vecs', 'hash', 'dfa')]; M2 = sets.arr.f['val'].f['mem']; A = d['A']; n2 = Z(sets.len)
        if cx.ex.qf_valid(empty): cx.oblige('nothing follows: no state', r == NP); cx.oblige('nothing changes', untouched(cx)); return
        fst = cx.load(d['first']); R = r - 1
        cx.oblige('one row per set', z3.And(Z(vecs.len) == n2, Z(hv.len) == n2, Z(dfa.len) == ROW(n2 + 1)))
        cx.oblige('rows are only added', z3.Or(n2 == n, n2 == n + 1))
        if big: return
        cx.oblige('a row in the table', z3.And(1 <= r, r <= n2))
        cx.oblige('the row stands for the positions that follow', z3.And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(f.len)), SEL(SEL(M2, R), SEL(f.arr, k))), patterns=[SEL(f.arr, k)]), z3.Implies(SEL(SEL(M2, R), w), z3.Exists([k], z3.And(0 <= k, k < Z(f.len), SEL(f.arr, k) == w)))))
        new = n2 == n + 1; cx.oblige('a new row is the last', z3.Implies(new, r == n + 1)); wi = cx.load(d['widx']); vl, va = vecs.arr.f['val'].len, vecs.arr.f['val'].arr
        cx.oblige('its list holds exactly its positions', z3.Implies(new, z3.And(z3.Implies(SEL(SEL(M2, R), w), z3.And(0 <= wi, wi < SEL(vl, n), SEL(SEL(va, n), wi) == w)), z3.Implies(z3.And(0 <= w, w < SEL(vl, n)), SEL(SEL(M2, R), SEL(SEL(va, n), w))))))
        cx.oblige('a new row carries the first rule that ends there', z3.Implies(new, z3.And(first_end(fst, SEL(M2, R)), row_is(dfa.arr, ROW(n + 1), fst), z3.Implies(z3.And(5 <= w, w < A), SEL(dfa.arr, ROW(n + 1) + w) == 0))))
        # an existing row: the rows' invariant (instantiated at the row returned) gives the same
        cx.oblige('an existing row carries the first rule that ends there', z3.Implies(z3.And(z3.Not(new), T == R), z3.And(SEL(ROWEND, r) == fst, row_is(dfa.arr, ROW(r), fst))))
        cx.oblige('earlier rows stay', z3.Implies(z3.And(0 <= w, w < ROW(n + 1)), SEL(dfa.arr, w) == SEL(d['D'], w))); cx.oblige('earlier sets stay', z3.Implies(z3.And(0 <= w, w < n), SEL(M2, w) == SEL(d['M'], w)))
    class E(Std):
        def val_eq(self, a, b):
            if isinstance(a, S) and isinstance(b, S) and a.ty == b.ty == 'set': self.trust('std::set operator==: same members'); return a.f['mem'] == b.f['mem']
            return super().val_eq(a, b)
    def mk(cx, el, a, e):
        return S('opt', {'some': True, 'val': cx.ex.zero(el)})
    return Contract('closure<%s>%s' % (inst, ', any number of rows' if big else ''), func=gfind(inst, 'closure', 8), setup=setup, ensures=ens, loops=[L1, L2], summaries=[(sub('closure_ex'), h_cex)], heap=('_node',), make_unique=mk, exec_class=E, timeout=60)
from vc.stl import Std

def set_transitions(inst):
    W = INST[inst][2]; NP = (1 << W) - 1; u = Ty('int', (W, False)); c_ = z3.Int('C'); BOL, EOL = NP - 1, NP - 2
    def setup(cx):
        ex = cx.ex; d = cx.data; t = cx.fresh(u, 'transition_'); ix = cx.fresh(u, 'index_'); A = z3.Int('alphabet'); o = z3.Int('row_offset'); d.update(t=t, ix=ix, A=A, o=o)
        dfa = cx.fresh(Ty('vec', [u]), 'dfa_'); d['dfa'] = cx.cell(dfa, 'dfa_'); cx.assume(z3.And(A >= 7, A <= NP, o >= A, o + A <= Z(dfa.len), ix < NP)); cx.assume(z3.ForAll([k], z3.And(SEL(dfa.arr, k) >= 0, SEL(dfa.arr, k) <= NP), patterns=[SEL(dfa.arr, k)]))
        iv = cx.fresh(Ty('vec', [u]), '_index_vector'); d['iv'] = iv; cx.assume(Z(iv.len) < 2 ** 40); cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(iv.len)), z3.Or(SEL(iv.arr, k) + 7 < A, SEL(iv.arr, k) == BOL, SEL(iv.arr, k) == EOL)), patterns=[SEL(iv.arr, k)])); cx.assume(A - 7 < EOL)
        eq = cx.cell(S('equivset', {'_index_vector': iv}), 'equivset'); es = cx.fresh(Ty('set', [u]), 'eol_set_'); d['es'] = cx.cell(es, 'eol_set_')
        return None, [t, Ad(eq), d['dfa'], It(d['dfa'], o), ix, d['es']]
    def inn(cx, c, i): iv = cx.data['iv']; return z3.Exists([k], z3.And(0 <= k, k < i, SEL(iv.arr, k) == c))
    def state(cx, i):
        d = cx.data; D, D0 = cx.load(d['dfa']).arr, cx.load(d['dfa'], 'old').arr; o, t, ix = d['o'], d['t'], d['ix']; e, e0 = cx.load(d['es']).f['mem'], cx.load(d['es'], 'old').f['mem']; iv = d['iv'].arr; J = z3.Int('J'); inJ = z3.And(0 <= J, J < i)
        return [('each class of the set leads to the new state', z3.Implies(z3.And(inJ, SEL(iv, J) != BOL, SEL(iv, J) != EOL), SEL(D, o + 7 + SEL(iv, J)) == t)), ('an end of line leads to the new state', z3.Implies(z3.And(inJ, SEL(iv, J) == EOL), z3.And(SEL(D, o + 5) == t, SEL(e, ix + 1)))),
                ('a beginning of line starts there, from the start state', z3.Implies(z3.And(inJ, SEL(iv, J) == BOL, ix == 0), SEL(D, 0) == t)),
                ('the other columns keep their states', z3.Implies(z3.And(7 <= c_, c_ < d['A']), z3.Or(SEL(D, o + c_) == SEL(D0, o + c_), z3.And(inn(cx, c_ - 7, i), SEL(D, o + c_) == t)))),
                ('no end of line, no change', z3.Or(z3.And(SEL(D, o + 5) == SEL(D0, o + 5), SEL(e, c_) == SEL(e0, c_)), z3.And(inn(cx, z3.IntVal(EOL), i), SEL(D, o + 5) == t))),
                ('no beginning of line, no change', z3.Or(SEL(D, 0) == SEL(D0, 0), z3.And(ix == 0, inn(cx, z3.IntVal(BOL), i), SEL(D, 0) == t))),
                ('other rows and the end state data stay', z3.And(Z(cx.load(d['dfa']).len) == Z(cx.load(d['dfa'], 'old').len), z3.Implies(z3.And(c_ > 0, z3.Or(c_ < o + 5, c_ == o + 6, c_ >= o + d['A'])), SEL(D, c_) == SEL(D0, c_)))), ('the other members of the end of line set stay', z3.Implies(c_ != ix + 1, SEL(e, c_) == SEL(e0, c_)))]
    def L(cx): i = Z(cx.v('__begin').idx); n = Z(cx.data['iv'].len); return [('index', z3.And(0 <= i, i <= n, Z(cx.v('__end').idx) == n))] + state(cx, i) + [('variant', n - i)]
    return Contract('set_transitions<%s>' % inst, func=gfind(inst, 'set_transitions', 6), setup=setup, ensures=lambda cx, r: [cx.oblige(a, b) for a, b in state(cx, Z(cx.data['iv'].len))] and None, loops=[L], heap=('_node',))
def build_tree(inst):
    W = INST[inst][2]; NP = (1 << W) - 1; u = Ty('int', (W, False)); A3 = z3.ArraySort(I, z3.ArraySort(I, ARR)); A2 = z3.ArraySort(I, ARR); TREE = z3.Function('TREE_OF_RULE', I, I); ALT = z3.Function('ALTERNATION', I, I, I); ALL = z3.Function('TREE_OF_FIRST', I, I)
    VEC = ('_ids', '_user_ids', '_next_dfas', '_pushes')
    def setup(cx):
        ex = cx.ex; d = cx.data; n, s, m = z3.Ints('n_states state n_rules'); d.update(s=s, m=m); LEN = z3.Const('n_rules_of', ARR); cx.assume(z3.And(0 <= s, s < n, n <= NP, SEL(LEN, s) == m, m >= 1, m < NP)); cx.assume(z3.ForAll([k], SEL(LEN, k) >= 0, patterns=[SEL(LEN, k)]))
        # the vectors of the rules have one entry per rule (L16)
        f = {'_locale': Op('locale'), '_regexes': V(Ty('vec', [Ty('vec', [u])]), n, V(Ty('vec', [u]), LEN, V(u, z3.Const('regex.len', A2), z3.Const('regex', A3)))), '_features': V(u, n, z3.Const('features', ARR))}
        for q in VEC: a = z3.Const(q, A2); d[q] = a; f[q] = V(Ty('vec', [u]), n, V(u, LEN, a)); cx.assume(z3.ForAll([k], z3.And(0 <= SEL(SEL(a, s), k), SEL(SEL(a, s), k) <= NP), patterns=[SEL(SEL(a, s), k)]))
        pa = z3.Const('_pops', z3.ArraySort(I, AB)); d['_pops'] = pa; f['_pops'] = V(Ty('vec', [Ty('bool')]), n, V(Ty('bool'), LEN, pa)); d['ft'] = SEL(z3.Const('features', ARR), s); cx.assume(z3.And(d['ft'] >= 0, d['ft'] <= NP))
        d['rules'] = cx.cell(S(recname(ex, inst, 'lexertl::%s$' % INST[inst][0]), f), 'rules_'); u0 = cx.fresh(u, 'unique_id0'); d['u0'] = u0; cx.assume(u0 + m <= NP); d['uid'] = cx.cell(u0, 'unique_id_'); d['cr'] = cx.cell(cx.fresh(u, 'cr'), 'cr_id_'); d['nl'] = cx.cell(cx.fresh(u, 'nl'), 'nl_id_'); d['own'] = cx.cell(V(u, cx.fresh(Ty('int', (32, False)), 'owned'), z3.Const('owners', ARR)), 'node_ptr_vector_'); d['map'] = cx.cell(Op('map'), 'charset_map_')
        d['done'] = cx.cell(z3.IntVal(0), 'done'); cx.assume(ALL(1) == TREE(0)); heap(cx); cx.ex.store['heap:_node']
        return None, [d['rules'], s, d['own'], d['map'], d['cr'], d['nl'], d['uid']]
    def h_parse(cx, f, this, args, site):
        """parser::parse gives the tree of one rule"""
        d = cx.data; i = Z(cx.load(d['done'])); s = d['s']; rx = args[0]; at = [p for p in rx.path if isinstance(p, tuple)]
        cx.oblige('the rules are parsed in the order they were pushed', z3.And(z3.BoolVal(rx.cell == d['rules'].cell and rx.path[0] == '_regexes' and len(at) == 2), Z(at[0][1]) == s, Z(at[1][1]) == i, i < d['m']))
        for q, a, nm in zip(VEC, (args[1], args[2], args[4], args[5]), ('id', 'user id', 'next start state', 'pushed start state')): cx.oblige('each rule gets its own ' + nm, Z(a) == SEL(SEL(d[q], s), i))
        cx.oblige('each rule gets its own number', Z(args[3]) == d['u0'] + i + 1); cx.oblige('each rule gets its own pop mark', B(cx, args[6]) == SEL(SEL(d['_pops'], s), i)); cx.oblige('the line end classes are collected', z3.BoolVal(same_lv(args[7], d['cr']) and same_lv(args[8], d['nl']))); cx.oblige('anchors are looked for', B(cx, args[9]) == (d['ft'] % 2 == 1))
        for n in ('cr', 'nl'): cx.ex.storev(d[n], cx.fresh(u, n))
        if cx.ex.decide(z3.Bool(cx.ex.fresh_name('parse fails'))): raise ThrowEx('runtime_error', None)
        cx.ex.storev(d['done'], i + 1); cx.assume(TREE(i) > 0); return TREE(i)
    def mk(cx, el, a, e):
        l, r = [Z(cx.ex.rv(x)) for x in a]; i = Z(cx.load(cx.data['done'])); cx.oblige('a rule is an alternative to the rules before it', z3.And(z3.BoolVal('selection' in str(el.name)), l == ALL(i - 1), r == TREE(i - 1))); t = ALT(l, r); cx.assume(z3.And(t > 0, ALL(i) == t)); return t
    def L(cx):
        d = cx.data; i = Z(cx.load(d['done'])); o = [('rules parsed', z3.And(1 <= i, i <= d['m'], Z(cx.v('root_')) == ALL(i), Z(cx.load(d['uid'])) == d['u0'] + i, Z(cx.v('regex_iter_end_').idx) == d['m'], Z(cx.load(d['own']).len) <= 2 ** 33 + i, Z(cx.load(d['own']).len) >= 0))]
        return o + [('position in ' + n, Z(cx.v(n).idx) == i) for n in ('regex_iter_', 'id_iter_', 'user_id_iter_', 'next_dfa_iter_', 'push_dfa_iter_', 'pop_dfa_iter_')] + [('variant', d['m'] - i)]
    def ens(cx, r): d = cx.data; cx.oblige('every rule is parsed', Z(cx.load(d['done'])) == d['m']); cx.oblige('the tree is the alternation of all rules in order', Z(r) == ALL(d['m'])); cx.oblige('rule numbers used', Z(cx.load(d['uid'])) == d['u0'] + d['m'])
    def opaque(cx, ty, ks, e): return Op('parser')
    return Contract('build_tree<%s>' % inst, func=gfind(inst, 'build_tree', 7), setup=setup, ensures=ens, throws=lambda cx, e: None, loops=[L], summaries=[(lambda q, n: q.endswith('::parse'), h_parse), (lambda q, n: 'basic_parser<' in q and q.endswith('::basic_parser'), noop)], construct_opaque=opaque, heap=('_node',), make_unique=mk)
class RowExec(Std):
    """products with the row size are row offsets"""
    def mulhook(self, a, b, ty):
        A = self.cx.data.get('A')
        if A is None: raise ExtractError('product before the row size is known')
        if Z(a).eq(Z(A)): a, b = b, a
        if not Z(b).eq(Z(A)): raise ExtractError('unexpected product %s * %s' % (a, b))
        r = self.cx.data['ROW'](Z(a)); self.check('row number not negative', Z(a) >= 0); self.rng[r.get_id()] = (0, 1 << 62); self.keep.append(r); self.assume(z3.And(r >= 0)); return r
def build_dfa(inst):
    W = INST[inst][2]; NP = (1 << W) - 1; u = Ty('int', (W, False)); u64 = Ty('int', (64, False)); ROW = z3.Function('ROW', I, I)
    def setup(cx):
        heap(cx); ex = cx.ex; d = cx.data; n, s = z3.Ints('n_states state'); cx.assume(z3.And(0 <= s, s < n, n <= NP)); d['s'] = s; d['ROW'] = ROW
        it = cx.fresh(Ty('rec', [], recname(ex, inst, 'lexertl::detail::basic_internals<unsigned %s>$' % ('char' if W == 8 else 'short'))), 'internals')
        for q in ('_lookup', '_dfa', '_dfa_alphabet'): cx.assume(Z(it.f[q].len) == n)
        cx.assume(SEL(it.f['_dfa'].arr.len, s) == 0); d['it'] = cx.cell(it, 'internals_')
        d['map'] = cx.cell(Op('map'), 'charset_map_'); d['sm'] = cx.cell(Op('sm'), 'sm_'); d['nm'] = z3.Int('n_tokens'); cx.assume(z3.And(d['nm'] >= 0, d['nm'] < 2 ** 40))
        cr, nl = cx.fresh(u, 'cr'), cx.fresh(u, 'nl'); d['cr0'], d['nl0'] = cr, nl; cx.assume(z3.And(z3.Or(cr == NP, cr < d['nm']), z3.Or(nl == NP, nl < d['nm']))); d['cr'] = cx.cell(cr, 'cr_id_'); d['nl'] = cx.cell(nl, 'nl_id_'); d['used'] = cx.cell(cx.fresh(Ty('set', [u]), 'used'), 'used_ids_'); root = z3.Int('root_'); cx.assume(root > 0)
        d['fp'] = cx.cell(cx.fresh(Ty('vec', [u64]), 'firstpos'), 'firstpos'); fl = cx.fresh(u64, 'flags_'); d['fl'] = fl
        d['pending'] = cx.cell(z3.BoolVal(False), 'pending'); d['trans'] = cx.cell(z3.IntVal(0), 'trans'); d['lazy'] = cx.cell(z3.BoolVal(False), 'lazy'); d['done'] = False
        return None, [d['map'], root, d['it'], d['sm'], s, d['cr'], d['nl'], fl, d['used']]
    def h_part(cx, f, this, args, site):
        ex = cx.ex; m = z3.Int('n_classes'); cx.assume(z3.And(m >= 0, m < 2 ** 40)); cx.data['m'] = m; v = ex.load(args[1]); ex.storev(args[1], V(v.ety, m, Op('classes')))
    def h_map(cx, f, this, args, site):
        """build_set_mapping: every token is mapped to its classes; a token that stands for characters has some"""
        ex = cx.ex; v = ex.load(args[3]); cx.oblige('the mapping has one set per token', Z(v.len) == cx.data['nm']); cx.oblige('the lookup table of this start state is filled', Z(args[2]) == cx.data['s']); g = cx.fresh(Ty('vec', [Ty('set', [u])]), 'mapping'); ex.storev(args[3], V(v.ety, v.len, g.arr))
        mem = g.arr.f['mem']; cx.assume(z3.ForAll([x_], z3.Implies(z3.And(0 <= x_, x_ < Z(v.len)), SEL(g.arr.f['size'], x_) >= 1), patterns=[SEL(g.arr.f['size'], x_)])); wf = z3.Function('A_CLASS_OF', I, I); cx.assume(z3.ForAll([x_], SEL(SEL(mem, x_), wf(x_)), patterns=[SEL(g.arr.f['size'], x_)])); cx.assume(z3.ForAll([x_, y_], z3.Implies(SEL(SEL(mem, x_), y_), z3.And(0 <= y_, y_ < cx.data['m'])), patterns=[SEL(SEL(mem, x_), y_)]))
        it = args[1]; lk = ex.load(it.f('_lookup')); ex.storev(it.f('_lookup'), V(lk.ety, lk.len, V(lk.arr.ety, lk.arr.len, z3.Store(lk.arr.arr, cx.data['s'], z3.Const(ex.fresh_name('lookup'), ARR)))))
    def dfa(cx): it = cx.load(cx.data['it']); s = cx.data['s']; return SEL(it.f['_dfa'].arr.len, s), SEL(it.f['_dfa'].arr.arr, s)
    def setdfa(cx, ln, arr):
        it = cx.data['it']; v = cx.ex.load(it.f('_dfa')); s = cx.data['s']; cx.ex.storev(it.f('_dfa'), V(v.ety, v.len, V(v.arr.ety, z3.Store(v.arr.len, s, ln), z3.Store(v.arr.arr, s, arr))))
    def pend(cx): return B(cx, cx.load(cx.data['pending']))
    def h_clo(cx, f, this, args, site):
        """closure (proved above)"""
        ex = cx.ex; d = cx.data; cx.oblige('the transition before is dealt with', z3.Not(pend(cx))); sv, vv, hv = [ex.load(a) for a in args[1:4]]; n = Z(sv.len); A = Z(args[4]); ln, D = dfa(cx)
        cx.oblige('the row size fits and is that of the table', A == Z(d['A'])); cx.oblige('one row per set', z3.And(Z(vv.len) == n, Z(hv.len) == n, ln == ROW(n + 1))); cx.oblige('the table of this start state grows', z3.BoolVal(isinstance(args[5], LV) and args[5].cell == d['it'].cell and '_dfa' in args[5].path)); cx.oblige('the flags are passed on', Z(args[6]) == d['fl'])
        it = Z(cx.ex.load(args[0]).len); first = not d['done']; cell = args[0]
        if first: cx.oblige('the start state is made of the first positions', z3.BoolVal(same_lv(cell, d['fp']))); cx.oblige('it is the first state', n == 0)
        else: cx.oblige('each class leads where its positions lead', z3.BoolVal(cell.path[-1] == '_followpos' and d.get('eqcell') is not None and str(cell) == d['eqcell']))
        n2 = z3.Int(ex.fresh_name('rows')); cx.assume(z3.And(z3.Or(n2 == n, n2 == n + 1), n2 < 2 ** 40)); r = z3.Int(ex.fresh_name('transition')); cx.assume(z3.And(r >= 0, r <= NP, z3.Implies(it == 0, z3.And(r == NP, n2 == n)), z3.Implies(first and it > 0, n2 == n + 1) if first else True)); D2 = z3.Const(ex.fresh_name('table'), ARR)
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), SEL(D2, k) == SEL(D, k)), patterns=[SEL(D2, k)])); cx.assume(z3.And(ROW(n2 + 1) == ROW(n + 1) + z3.If(n2 == n, 0, A), ROW(n2 + 1) < 2 ** 61)); setdfa(cx, ROW(n2 + 1), D2)
        for a, v in zip(args[1:4], (sv, vv, hv)):
            g = cx.fresh(Ty('vec', [v.ety]), 'seen'); cx.ex.storev(a, V(v.ety, n2, g.arr))
            if v.ety.k == 'opt': cx.assume(z3.ForAll([k], SEL(g.arr.f['some'], k), patterns=[SEL(g.arr.f['some'], k)]))
        if not first:
            i = Z(cx.v('index_')); c0 = SEL(D2, ROW(i + 1)); lazy = d['eqlazy']; skip = z3.And(c0 != 0, (c0 / 2) % 2 == 0, lazy); cx.ex.storev(d['pending'], z3.And(r != NP, z3.Not(skip))); cx.ex.storev(d['trans'], r); cx.assume(c0 >= 0)
        d['done'] = True; return r
    def h_eq(cx, f, this, args, site):
        """build_equiv_list"""
        ex = cx.ex; i = Z(cx.v('index_')); at = [p for p in args[0].path if isinstance(p, tuple)]; cx.oblige('the state being built is split', Z(at[0][1]) == i); v = ex.load(args[2]); cx.oblige('the list is empty', Z(v.len) == 0)
        g = cx.fresh(Ty('vec', [v.ety]), 'equiv_list_'); cx.assume(Z(g.len) < 2 ** 40); cx.assume(z3.ForAll([k], SEL(g.arr.f['some'], k), patterns=[SEL(g.arr.f['some'], k)])); fl = g.arr.f['val'].f['_followpos'].len; cx.assume(z3.ForAll([k], SEL(fl, k) >= 0, patterns=[SEL(fl, k)])); gr = g.arr.f['val'].f['_greedy']; cx.assume(z3.ForAll([k], z3.And(SEL(gr, k) >= 0, SEL(gr, k) <= 2), patterns=[SEL(gr, k)])); ex.storev(args[2], g)
    def h_pr(cx, f, this, args, site):
        ex = cx.ex; d = cx.data; cx.oblige('the transition before is dealt with', z3.Not(pend(cx))); lv = args[0]; at = [p for p in lv.path if isinstance(p, tuple)]; b = Z(cx.v('__begin').idx); cx.oblige('the class at hand is pruned', z3.And(z3.BoolVal(lv.path[-1] == '_followpos'), Z(at[-1][1]) == b)); d['eqcell'] = str(lv)
        cx.oblige('line ends are those of this start state', z3.And(Z(args[1]) == Z(cx.load(d['cr'])), Z(args[2]) == Z(cx.load(d['nl'])))); d['eqlazy'] = Z(cx.load(LV(lv.cell, lv.path[:-1] + ('_greedy',)))) == 0; d['eqlv'] = lv
        n = z3.Int(ex.fresh_name('pruned')); v = ex.load(lv); cx.assume(z3.And(n >= 0, n <= Z(v.len))); ex.storev(lv, V(v.ety, n, z3.Const(ex.fresh_name('pruned'), ARR)))
    def h_set(cx, f, this, args, site):
        d = cx.data; ex = cx.ex; i = Z(cx.v('index_')); cx.oblige('a lazy rule that has ended goes no further', pend(cx)); cx.oblige('the transition leads to the state found', Z(args[0]) == Z(cx.load(d['trans']))); cx.oblige('the transition starts in the state at hand', z3.And(Z(args[3].idx) == ROW(i + 1), Z(args[4]) == i)); p = args[1]; lv = p.lv if isinstance(p, Ad) else p
        cx.oblige('the transition is on the class at hand', z3.BoolVal(str(LV(d['eqlv'].cell, d['eqlv'].path[:-1])) == str(lv))); ex.storev(d['pending'], z3.BoolVal(False)); ln, D = dfa(cx); D2 = z3.Const(ex.fresh_name('table'), ARR); cx.assume(z3.ForAll([x_], z3.Implies(x_ >= 1, SEL(D2, ROW(x_)) == SEL(D, ROW(x_))), patterns=[SEL(D2, ROW(x_))])); setdfa(cx, ln, D2); ex.storev(args[5], cx.fresh(Ty('set', [u]), 'eol_set_'))
    def h_fix(cx, f, this, args, site): cx.oblige('every transition is dealt with', z3.Not(pend(cx))); d = cx.data; n = Z(cx.v('seen_vectors_').len); cx.oblige('every state is built (or there are too many)', z3.Or(n > NP, Z(cx.v('seen_sets_').len) == n)); d['fixed'] = n
    def base(cx):
        d = cx.data; n = Z(cx.v('seen_sets_').len); ln, D = dfa(cx); it, it0 = cx.load(d['it']), cx.load(d['it'], 'old'); J = z3.Int('J'); oth = z3.And(0 <= J, J < Z(it.f['_dfa'].len), J != d['s'])
        return [('one row per set of positions', z3.And(n >= 0, n < 2 ** 40, Z(cx.v('seen_vectors_').len) == n, Z(cx.v('hash_vector_').len) == n, ln == ROW(n + 1), ROW(n + 1) >= 0, ROW(n + 1) < 2 ** 61)), ('the sets are held', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), SEL(cx.v('seen_vectors_').arr.f['some'], k)), patterns=[SEL(cx.v('seen_vectors_').arr.f['some'], k)])), ('the row size is kept', z3.And(Z(cx.v('dfa_alphabet_')) == Z(d['A']), SEL(it.f['_dfa_alphabet'].arr, d['s']) == Z(d['A']), Z(d['A']) <= NP)), ('the mapping is kept', Z(cx.v('set_mapping_').len) == d['nm']),
                ('nothing is pending', z3.Not(pend(cx))), ('tables stay', z3.And([Z(it.f[q].len) == Z(it0.f[q].len) for q in ('_lookup', '_dfa', '_dfa_alphabet')])), ('other start states stay', z3.Implies(oth, z3.And(SEL(it.f['_dfa'].arr.arr, J) == SEL(it0.f['_dfa'].arr.arr, J), SEL(it.f['_dfa'].arr.len, J) == SEL(it0.f['_dfa'].arr.len, J), SEL(it.f['_dfa_alphabet'].arr, J) == SEL(it0.f['_dfa_alphabet'].arr, J), SEL(it.f['_lookup'].arr.arr, J) == SEL(it0.f['_lookup'].arr.arr, J))))]
    def rowstep(cx, *t):
        for x in t: cx.assume(z3.Implies(z3.And(x >= 0, x <= NP), z3.And(ROW(x + 1) == ROW(x) + Z(cx.data['A']))))
        n = Z(cx.v('seen_sets_').len)
        for x in t: cx.assume(z3.Implies(z3.And(x >= 0, x <= n), z3.And(0 <= ROW(x), ROW(x) <= ROW(n), ROW(n + 1) == ROW(n) + Z(cx.data['A']))))
    def L1(cx): i = Z(cx.v('index_')); rowstep(cx, i, i + 1); return [('index', z3.And(0 <= i, i <= Z(cx.v('seen_sets_').len), i <= NP))] + base(cx)
    def L2(cx): i = Z(cx.v('index_')); b = Z(cx.v('__begin').idx); e = cx.v('equiv_list_'); n = Z(e.len); rowstep(cx, i, i + 1); return [('index', z3.And(0 <= i, i < Z(cx.v('seen_sets_').len), i < NP)), ('class', z3.And(0 <= b, b <= n, Z(cx.v('__end').idx) == n)), ('the classes are held', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(SEL(e.arr.f['some'], k), SEL(e.arr.f['val'].f['_followpos'].len, k) >= 0, SEL(e.arr.f['val'].f['_greedy'], k) >= 0, SEL(e.arr.f['val'].f['_greedy'], k) <= 2)), patterns=[SEL(e.arr.f['some'], k)]))] + base(cx) + [('variant', n - b)]
    def alpha(cx): d = cx.data; has = z3.Or(d['cr0'] != NP, d['nl0'] != NP); return d['m'] + 7 + z3.If(has, 1, 0)
    def ens(cx, r):
        d = cx.data; it = cx.load(d['it']); cx.oblige('the alphabet fits the id type', alpha(cx) <= NP); cx.oblige('the row size is the number of classes and the fixed columns', SEL(it.f['_dfa_alphabet'].arr, d['s']) == alpha(cx)); cx.oblige('the table is whole rows', dfa(cx)[0] == ROW(d['fixed'] + 1))
    def thr(cx, e): cx.oblige('only an alphabet that does not fit is rejected', z3.And(alpha(cx) > NP, z3.BoolVal('runtime_error' in str(e.ty)))) 
    class E(RowExec):
        def assign_note(self): pass
    def opmeth(cx, o, name, lv, argn, e):
        if o.tag == 'map' and name == 'size': return cx.data['nm']
        return opm(cx, o, name, lv, argn, e)
    def h_fp(cx, f, this, args, site): return cx.data['fp']
    class E(RowExec):
        def m_V_resize(self, lv, a, e):
            # the dead row: this is where the row size is known
            if lv.cell == self.cx.data['it'].cell and '_dfa' in lv.path:
                n = Z(self.rv(a[0])); self.cx.data['A'] = n; self.assume(z3.And(ROW(0) == 0, ROW(1) == n, ROW(2) == n + n))
            return super().m_V_resize(lv, a, e)
    return Contract('build_dfa<%s>' % inst, func=gfind(inst, 'build_dfa', 9), setup=setup, ensures=ens, throws=thr, loops=[L1, L2], heap=('_node',), exec_class=E, opmethod=opmeth,
        summaries=[(sub('partition_charsets'), h_part), (sub('build_set_mapping'), h_map), (sub('closure'), h_clo), (sub('build_equiv_list'), h_eq), (sub('prune_eol_clashes'), h_pr), (sub('set_transitions'), h_set), (sub('fix_clashes'), h_fix), (sub('append_dfa'), noop), (sub('firstpos'), h_fp), (lambda q, n: 'basic_string_token<' in q, noop)])
