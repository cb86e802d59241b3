"""generator::build: all or nothing. The target changes only in the last step, when everything that can fail is done"""
from .gen_common import *
from vc.stl import Std
DIV = z3.Function('ROWS', I, I, I)
class BuildExec(Std):
    def divhook(self, op, a, b, ty):
        if op != '/': raise ExtractError('unexpected ' + op)
        self.check('no division by zero', Z(b) != 0); r = DIV(Z(a), Z(b)); self.assume(z3.And(r >= 0, r <= Z(a))); return r
def machine(cx, inst, name): return cx.fresh(Ty('rec', [], recname(cx.ex, inst, 'lexertl::%s$' % INST[inst][1])), name)
def make(inst):
    W = INST[inst][2]; NP = (1 << W) - 1; csm = inst == 'character machine'
    def setup(cx):
        ex = cx.ex; d = cx.data; n = z3.Int('n_states'); d['n'] = n; cx.assume(z3.And(n >= 0, n <= NP))
        sm = machine(cx, inst, 'sm'); d['sm'] = cx.cell(sm, 'sm_')
        # the rules object: only read. One regex list and one feature word per start state (L16)
        rg = z3.Const('regexes', ARR); d['rg'] = rg; VV = lambda nm, t: V(t, n, z3.Const(nm, ARR))
        cx.assume(z3.ForAll([k], SEL(rg, k) >= 0, patterns=[SEL(rg, k)])); ft = z3.Const('features', ARR); cx.assume(z3.ForAll([k], z3.And(SEL(ft, k) >= 0, SEL(ft, k) <= NP), patterns=[SEL(ft, k)]))
        u = Ty('int', (W, False))
        f = {'_statemap': Op('map'), '_regexes': V(Ty('vec', [u]), n, V(u, rg, z3.Const('regex_rows', z3.ArraySort(I, ARR)))), '_flags': cx.fresh(Ty('int', (64, False)), 'flags'), '_features': V(u, n, ft), '_regex_strings': Op('strings'), '_locale': Op('locale')}
        d['ft'] = ft; d['rules'] = cx.cell(S(recname(ex, inst, 'lexertl::%s$' % INST[inst][0]), f), 'rules_'); d['r0'] = cx.load(d['rules'])
        return None, [d['rules'], d['sm']]
    def same(cx, a='old'): return same_tree(cx.load(cx.data['sm'], a), cx.load(cx.data['sm']))
    def opmeth(cx, o, name, lv, argn, e):
        d = cx.data
        if o.tag == 'map' and name == 'size': return d['n']
        if o.tag == 'regexes': return Op('row')
        if o.tag == 'row' and name == 'empty': return z3.Bool(cx.ex.fresh_name('empty'))
        return opm(cx, o, name, lv, argn, e)
    def may_throw(what):
        def h(cx, f, this, args, site):
            if cx.ex.decide(z3.Bool(cx.ex.fresh_name(what + ' fails'))): raise ThrowEx('runtime_error', None)
            return Op('tree')
        return h
    def h_bd(cx, f, this, args, site):
        """build_dfa fills the table of one start state (and appends to the character machine), or throws"""
        ex = cx.ex; i = Z(args[4]); it = args[2]; cx.oblige('a start state inside the machine is built', z3.And(i >= 0, i < cx.data['n'])); sm = args[3]
        cx.oblige('the machine being built is not the target', z3.BoolVal(not same_lv(sm, cx.data['sm'])))
        if ex.decide(z3.Bool(ex.fresh_name('build_dfa fails'))): raise ThrowEx('runtime_error', None)
        v = ex.load(it); df, al = v.f['_dfa'], v.f['_dfa_alphabet']; a = z3.Int(ex.fresh_name('alphabet')); cx.assume(z3.And(a >= 7, a <= NP)); ln = z3.Int(ex.fresh_name('rows')); cx.assume(z3.And(ln >= a, ln < 2 ** 62))
        ex.storev(it.f('_dfa'), V(df.ety, df.len, V(df.arr.ety, z3.Store(Z3(df.arr.len), i, ln), z3.Store(df.arr.arr, i, z3.Const(ex.fresh_name('table'), ARR)))))
        ex.storev(it.f('_dfa_alphabet'), V(al.ety, al.len, z3.Store(al.arr, i, a)))
        lk = v.f['_lookup']; ex.storev(it.f('_lookup'), V(lk.ety, lk.len, V(lk.arr.ety, lk.arr.len, z3.Store(lk.arr.arr, i, z3.Const(ex.fresh_name('lookup'), ARR)))))
        if csm:
            o = ex.load(sm); x = o.f['_sm_vector']; nv = cx.fresh(Ty('vec', [x.ety]), 'appended'); ex.storev(sm.f('_sm_vector'), V(nv.ety, Z(x.len) + 1, nv.arr))
        return None
    def Z3(x): return x
    def h_add(cx, f, this, args, site):
        """add_states (proved below): n entries more of everything"""
        ex = cx.ex; v = ex.load(this); n = Z(args[0]); cx.oblige('states are added to empty tables', z3.And([Z(v.f[x].len) == 0 for x in ('_lookup', '_dfa_alphabet', '_dfa')])); g = cx.fresh(v_ty(ex), 'tables')
        for x in ('_lookup', '_dfa_alphabet', '_dfa'): w = g.f[x]; ex.storev(this.f(x), V(w.ety, n, w.arr))
        q = g.f['_dfa']; cx.assume(z3.ForAll([k], SEL(q.arr.len, k) == 0, patterns=[SEL(q.arr.len, k)])); al = g.f['_dfa_alphabet']; cx.assume(z3.ForAll([k], SEL(al.arr, k) == 0, patterns=[SEL(al.arr, k)]))
        return None
    def v_ty(ex): return Ty('rec', [], recname(ex, inst, 'lexertl::detail::basic_internals<unsigned %s>$' % ('char' if W == 8 else 'short')))
    def loc(cx): return cx.v('internals_'), cx.v('temp_sm_')
    def L(cx):
        d = cx.data; i = Z(cx.v('index_')); it, t = loc(cx); n = d['n']; df, al = it.f['_dfa'], it.f['_dfa_alphabet']
        o = [('index', z3.And(0 <= i, i <= n, Z(cx.v('size_')) == n)), ('the target is untouched', same(cx)), ('one table per start state', z3.And([Z(it.f[x].len) == n for x in ('_lookup', '_dfa_alphabet', '_dfa')])),
             ('state numbers fit the id type', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), DIV(SEL(df.arr.len, k), SEL(al.arr, k)) < NP), patterns=[SEL(al.arr, k)])),
             ('the rules are only read', z3.BoolVal(cx.load(d['rules']) is d['r0'])), ('eoi is 0', Z(it.f['_eoi']) == 0), ('features are collected last', Z(it.f['_features']) == 0), ('variant', n - i)]
        if csm: o.append(('one dfa per start state built', Z(t.f['_sm_vector'].len) == i))
        else: o.append(('the new machine is still empty', z3.And([Z(t.f['_internals'].f[x].len) == 0 for x in ('_lookup', '_dfa_alphabet', '_dfa')])))
        return o
    def h_create(cx, f, this, args, site):
        """create (proved below)"""
        ex = cx.ex; cx.data['built'] = ex.load(args[0])
        if csm: return None
        ex.oblige('everything is handed to the new machine', z3.BoolVal(not same_lv(args[1], cx.data['sm']))); a, b = args[0], args[1].f('_internals'); x, y = ex.load(a), ex.load(b); ex.storev(a, y); ft = z3.Int(ex.fresh_name('features')); cx.assume(z3.And(ft >= 0, ft <= NP)); ex.storev(b, x.set('_features', ft)); cx.data['feat'] = ft
        return None
    def ens(cx, r):
        d = cx.data; sm = cx.load(d['sm']); b = d.get('built'); n = d['n']
        if csm: cx.oblige('one dfa per start state, and nothing of the old machine', z3.And(Z(sm.f['_sm_vector'].len) == n, same_tree(sm, d['final']))) ; return
        it = sm.f['_internals']; cx.oblige('the target holds exactly the tables that were built', z3.And([same_tree(it.f[x], b.f[x]) for x in ('_eoi', '_lookup', '_dfa_alphabet', '_dfa')]))
        cx.oblige('the features are those of the rules', Z(it.f['_features']) == d['feat']); cx.oblige('one table per start state', z3.And([Z(it.f[x].len) == n for x in ('_lookup', '_dfa_alphabet', '_dfa')]))
        cx.oblige('state numbers fit the id type', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), DIV(SEL(it.f['_dfa'].arr.len, k), SEL(it.f['_dfa_alphabet'].arr, k)) < NP), patterns=[SEL(it.f['_dfa_alphabet'].arr, k)]))
    def thr(cx, exc): cx.oblige('a failed build leaves the target unchanged', same(cx)); cx.oblige('only runtime_error is thrown', z3.BoolVal('runtime_error' in str(exc.ty)))
    def h_sup(cx, f, this, args, site):
        may_throw('check_suppressed')(cx, f, this, args, site); cx.data['final'] = cx.v('temp_sm_')
    def opaque(cx, ty, ks, e): return Op('opaque')
    out = [Contract('build<%s>' % inst, func=gfind(inst, 'build', 2), setup=setup, ensures=ens, throws=thr, loops=[L], exec_class=BuildExec, stream=stream, construct_opaque=opaque, opmethod=opmeth,
        summaries=[(sub('build_tree'), may_throw('build_tree')), (sub('check_zero_len'), may_throw('check_zero_len')), (sub('build_dfa'), h_bd), (sub('check_suppressed'), h_sup), (sub('create'), h_create), (sub('add_states'), h_add)])]
    # ---- create
    if not csm:
        OR = z3.Function('FEATURES_OF_FIRST', I, I)
        def s_cr(cx):
            ex = cx.ex; d = cx.data; d['it'] = cx.cell(cx.fresh(v_ty(ex), 'internals'), 'internals_'); d['sm'] = cx.cell(machine(cx, inst, 'sm'), 'sm_'); v = cx.load(d['it']); n = Z(v.f['_dfa'].len); d['n'] = n
            ft = cx.fresh(Ty('vec', [Ty('int', (W, False))]), 'features'); cx.assume(Z(ft.len) == n); d['ft'] = cx.cell(ft, 'features_'); d['fa'] = ft.arr; cx.assume(Z(v.f['_features']) == 0)
            return None, [d['it'], d['sm'], d['ft'], S('tag', {})]
        def e_cr(cx, r):
            d = cx.data; a, b = cx.load(d['it'], 'old'), cx.load(d['sm']).f['_internals']; c, e = cx.load(d['it']), cx.load(d['sm'], 'old').f['_internals']
            cx.oblige('the machine gets the tables', z3.And([same_tree(a.f[x], b.f[x]) for x in ('_eoi', '_lookup', '_dfa_alphabet', '_dfa')])); cx.oblige('nothing of the old machine stays in the new one', same_tree(c, e))
        def L_cr(cx):
            d = cx.data; i = Z(cx.v('i_')); a, c = cx.load(d['it'], 'old'), cx.load(d['it'])
            return [('index', z3.And(0 <= i, i <= d['n'], Z(cx.v('size_')) == d['n'])), ('tables untouched', z3.And([same_tree(a.f[x], c.f[x]) for x in ('_eoi', '_lookup', '_dfa_alphabet', '_dfa')])), ('target untouched', same_tree(cx.load(d['sm']), cx.load(d['sm'], 'old'))), ('variant', d['n'] - i)]
        out.append(Contract('create<%s>' % inst, func=gfind(inst, 'create', 4, lambda n: 'true_type' in par(n) or 'constant<bool, true>' in par(n)), setup=s_cr, ensures=e_cr, loops=[L_cr]))
    # ---- add_states
    if inst in ('table, 16 bit ids', 'table, 8 bit ids'):
        def s_ad(cx):
            d = cx.data; n = z3.Int('num'); cx.assume(z3.And(n >= 0, n < 2 ** 40)); d['n'] = n; v = cx.fresh(v_ty(cx.ex), 'internals'); d['it'] = cx.cell(v, 'internals'); m = Z(v.f['_dfa'].len); d['m'] = m; cx.assume(z3.And(Z(v.f['_lookup'].len) == m, Z(v.f['_dfa_alphabet'].len) == m, m < 2 ** 40)); return d['it'], [n]
        def st(cx, i):
            d = cx.data; v, o = cx.load(d['it']), cx.load(d['it'], 'old'); m = d['m']; lk, al, df = v.f['_lookup'], v.f['_dfa_alphabet'], v.f['_dfa']; J, C = z3.Ints('J C'); new = z3.And(m <= J, J < m + i); old = z3.And(0 <= J, J < m)
            return [('one entry more of everything per state', z3.And(Z(lk.len) == m + i, Z(al.len) == m + i, Z(df.len) == m + i)), ('each lookup table has 256 entries, all dead', z3.Implies(new, z3.And(SEL(Z(lk.arr.len), J) == 256, z3.Implies(z3.And(0 <= C, C < 256), SEL(SEL(lk.arr.arr, J), C) == 6)))),
                    ('new tables are empty', z3.Implies(new, z3.And(SEL(al.arr, J) == 0, SEL(Z(df.arr.len), J) == 0))), ('existing entries are kept', z3.Implies(old, z3.And(SEL(al.arr, J) == SEL(o.f['_dfa_alphabet'].arr, J), SEL(df.arr.arr, J) == SEL(o.f['_dfa'].arr.arr, J), SEL(lk.arr.arr, J) == SEL(o.f['_lookup'].arr.arr, J)))),
                    ('nothing else changes', z3.And(Z(v.f['_eoi']) == Z(o.f['_eoi']), Z(v.f['_features']) == Z(o.f['_features'])))]
        def L_ad(cx): i = Z(cx.v('index_')); return [('index', z3.And(0 <= i, i <= cx.data['n']))] + st(cx, i) + [('variant', cx.data['n'] - i)]
        out.append(Contract('internals::add_states<%s>' % inst, func=lambda u, r=re.compile('lexertl::detail::basic_internals<unsigned %s>::add_states$' % ('char' if W == 8 else 'short')): [n for q, n in u.funcs if r.match(spell(q))][0], setup=s_ad, ensures=lambda cx, r: [cx.oblige(a, b) for a, b in st(cx, cx.data['n'])] and None, loops=[L_ad]))
    return out
CS = [c for i in INST for c in make(i)]
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'proof'
SEARCH = ['L15.cpp']
RULE = 'random rule sets, valid and broken in each of the ways a build can fail, built into machines that already hold something; non-trivial: builds that fail after some start states were built'
ASSUMPTIONS = ['the functions called by build keep their own contracts: build_tree, check_zero_len, build_dfa and check_suppressed do not touch the target (they are not given it)', 'an allocation failure is like any other exception: nothing is written to the target before the last step, which does not allocate']
