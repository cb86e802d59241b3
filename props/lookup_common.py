"""Contracts of detail::next (the body of lexertl::lookup) for every flag set / iterator / recursion variant.

Specification = two tail-recursive definitions over the machine tables:
  RUN  one match attempt: follows transitions from a configuration and remembers the last accepting one
  LR   whole lookup call: attempt, then return / report / skip / continue
The loops and labels keep the value of these definitions invariant; each is unfolded once per iteration."""
import z3
from vc.exec import *
from vc.sym import *
from vc.front import params_of
from vc.stl import Std
I, B = z3.IntSort(), z3.BoolSort()
AII = z3.ArraySort(I, I)
k, s_, st_, ch_ = z3.Ints('k s st ch')
ROW = z3.Function('ROW', I, I, I)           # row offset of a state: alphabet size * state
INV = z3.Function('STATE_OF_ROW', I, I, I)
NS = z3.Function('number_of_states', I, I)
BOL, EOL, SKIP, AGAIN, MULTI, REC, ADV = 1, 2, 4, 8, 16, 32, 64

class LookupExec(Std):
    """products state * alphabet are row offsets; only this one product occurs in the code under contract"""
    def mulhook(self, a, b, ty):
        al = self.cx.data.get('AL')
        if al is None: return self.fit(Z(a) * Z(b), ty, '*')
        def is_al(t): return z3.is_select(t) and t.arg(0).eq(al)
        if is_al(a) and not is_al(b): a, b = b, a
        if not is_al(b): raise ExtractError('unexpected product %s * %s' % (a, b))
        s = b.arg(1)
        # no overflow: the product is below the length of the table, which is an int for every id type
        self.check('row offset does not overflow', z3.And(Z(a) >= 0, Z(a) < NS(s)))
        r = ROW(b, Z(a))
        lo, hi = int_range(ty)
        self.check('row offset fits the type it is computed in', z3.And(r >= 0, r <= hi))
        self.rng[r.get_id()] = (0, hi); self.keep.append(r)
        return r

def machine(cx, unit_rec, idt):
    """well-formed tables; returns accessors"""
    sm = cx.fresh(Ty('rec', [], unit_rec), 'sm'); lv = cx.cell(sm, 'sm')
    it = sm.f['_internals']; npos = (1 << parse_type(idt).a[0]) - 1
    dfa, lk, al = it.f['_dfa'], it.f['_lookup'], it.f['_dfa_alphabet']
    D, DL, L, LL, AL = dfa.arr.arr, dfa.arr.len, lk.arr.arr, lk.arr.len, al.arr
    n = dfa.len
    cx.data.update(AL=AL, D=D, L=L, n=n, npos=npos, smlv=lv, it=it)
    A = lambda s: z3.Select(AL, s)
    def D_(s, st, col): return z3.Select(z3.Select(D, s), ROW(A(s), st) + col)
    def LK(s, b): return z3.Select(z3.Select(L, s), b)
    cx.data.update(A=A, D_=D_, LK=LK)
    g = [lk.len == n, al.len == n, n >= 1, n <= npos,
         z3.ForAll([s_], z3.Implies(z3.And(0 <= s_, s_ < n), z3.And(z3.Select(LL, s_) == 256, A(s_) >= 7, A(s_) <= 263, NS(s_) >= 2, NS(s_) <= npos, ROW(A(s_), 1) == A(s_), z3.Select(DL, s_) <= 0x7fffffff)), patterns=[A(s_), z3.Select(DL, s_), z3.Select(LL, s_)]),
         z3.ForAll([s_, st_], z3.Implies(z3.And(0 <= s_, s_ < n, 0 <= st_, st_ < NS(s_)), z3.And(0 <= ROW(A(s_), st_), ROW(A(s_), st_) + A(s_) <= z3.Select(DL, s_), INV(A(s_), ROW(A(s_), st_)) == st_)), patterns=[ROW(A(s_), st_)]),
         z3.ForAll([s_], z3.Implies(z3.And(0 <= s_, s_ < n), ROW(A(s_), 0) == 0), patterns=[A(s_)])]
    for x in g: cx.assume(x)
    return lv

def ident(x):
    if isz(x): return x.get_id()
    if isinstance(x, (list, tuple)): return tuple(ident(y) for y in x)
    if isinstance(x, dict): return tuple((k, ident(v)) for k, v in sorted(x.items()))
    return x
def memo(f):
    """formula construction is pure in its term arguments and the machine tables: build each formula once"""
    tab = {}
    def g(cx, *a):
        d = cx.data; key = (ident(d['D']), ident(d['L']), ident(d['n']), ident(d.get('eoi_id')), ident(d['buf'].arr) if 'buf' in d else None, ident(d.get('N')), ident(a))
        if key not in tab: tab[key] = (f(cx, *a), a, dict(d))
        return tab[key][0]
    return g

@memo
def facts(cx, s, st, bytes_):
    """instances of the table invariants at one state: targets are states, column 6 is dead, links are in range"""
    d = cx.data; A, D_, LK, n, npos = d['A'], d['D_'], d['LK'], d['n'], d['npos']
    out = []
    rng = z3.And(0 <= s, s < n, 0 <= st, st < NS(s))
    cols = [D_(s, st, 5)]
    out.append(z3.And(0 <= D_(s, st, 5), D_(s, st, 5) < NS(s)))
    # the state reached over an end-of-line link has no such link itself
    e = D_(s, st, 5)
    out.append(z3.Implies(e != 0, D_(s, e, 5) == 0))
    for c in range(5): out.append(z3.And(0 <= D_(s, st, c), D_(s, st, c) <= npos))
    out.append(z3.Implies(D_(s, st, 0) != 0, z3.And(D_(s, st, 4) < n, z3.Or(D_(s, st, 3) == npos, D_(s, st, 3) < n))))
    for b in bytes_:
        l = LK(s, b); t = D_(s, st, l)
        out.append(z3.Implies(z3.And(0 <= b, b < 256), z3.And(6 <= l, l < A(s), 0 <= t, t < NS(s), z3.Implies(l == 6, t == 0))))
    return z3.Implies(rng, z3.And(*out))

def variant(cname, rec, results_rec, idt, cht, flags, nbytes, recursive, pred):
    """one instantiation of next()"""
    signed = parse_type(cht).a[1]; bits = parse_type(cht).a[0]
    compressed = nbytes > 1
    has = lambda f: bool(flags & f)
    fl = flags | (REC if recursive else 0)
    U = lambda nm, *a: z3.Function(cname + '.' + nm, *a)
    # RUN(start state, state, position, bol, remembered...) -> what is remembered when the attempt ends
    BEST = ['acc', 'id', 'uid', 'e'] + (['eb'] if has(BOL) else []) + (['nx'] if has(MULTI) else []) + (['pop', 'push'] if recursive else [])
    SORT = {'acc': B, 'id': I, 'uid': I, 'e': I, 'eb': B, 'nx': I, 'pop': B, 'push': I}
    RA = [I, I, I] + ([B] if has(BOL) else []) + [SORT[x] for x in BEST]
    def dt(nm, fields):
        d = z3.Datatype(cname + '.' + nm); d.declare(nm, *[(cname + '.' + nm + '.' + x, so) for x, so in fields]); d = d.create()
        return d, d.constructor(0), {x: d.accessor(0, i) for i, (x, _) in enumerate(fields)}
    OUT, mkout, outf = dt('Out', [(x, SORT[x]) for x in BEST])
    RUNF = U('RUN', *RA, OUT)
    def ITE(c, a, b): return {x: z3.If(c, a[x], b[x]) for x in a}
    def mk(d): return mkout(*[d[x] for x in BEST])
    @memo
    def remember(cx, s, st, c, b):
        """what accepting in state st at position c remembers"""
        D_ = cx.data['D_']
        return {'acc': z3.BoolVal(True), 'id': D_(s, st, 1), 'uid': D_(s, st, 2), 'e': c, 'eb': b, 'nx': D_(s, st, 4), 'pop': (D_(s, st, 0) / 4) % 2 != 0, 'push': D_(s, st, 3)}
    def rargs(s, st, c, b, best): return (s, st, c) + ((b,) if has(BOL) else ()) + tuple(best[x] for x in BEST)
    SA = [I, AII, AII] if recursive else []
    LA = [I, I, B, I] + SA      # first, curr, bol, state, stack
    LF = [('id', I), ('uid', I), ('first', I), ('second', I), ('state', I), ('bol', B), ('throw', B)] + ([('sl', I), ('sa', AII), ('sb', AII)] if recursive else [])
    LOUT, mklr, lrf = dt('Result', LF)
    LRF = U('LR', *LA, LOUT)
    def lmk(d): return mklr(*[d[x] for x, _ in LF])
    class _LR:
        def __getitem__(self, x): return lambda *a: lrf[x](LRF(*a))
        def __iter__(self): return iter([x for x, _ in LF])
    LR = _LR()
    def uc(x): return z3.If(x < 0, x + 256, x) if signed and bits == 8 else x
    def byts(ch):
        if not compressed: return [uc(ch)]
        nb = min(nbytes, 3)
        return [(ch / z3.IntVal(1 << (8 * (nb - 1 - q)))) % 256 if q < nb - 1 else ch % 256 for q in range(nb)]
    def buf(cx, c): return z3.Select(cx.data['buf'].arr, c)
    def step(cx, s, st, ch):
        """transition on one character: (all states touched, target or 0)"""
        d = cx.data; cur = st; seen = []
        bs = byts(ch); t = None
        for q, b in enumerate(bs):
            t = d['D_'](s, cur, d['LK'](s, b)); seen.append((cur, b))
            if q + 1 < len(bs): 
                rest = t
                nxt = t
            cur = t
        # chain with dead stops
        def chain(st, bs):
            t = d['D_'](s, st, d['LK'](s, bs[0]))
            return t if len(bs) == 1 else z3.If(t == 0, z3.IntVal(0), chain(t, bs[1:]))
        return chain(st, bs), seen
    @memo
    def unfold_run(cx, s, st, c, b, best):
        d = cx.data; N = d['N']; D_ = d['D_']
        ch = buf(cx, c); t, seen = step(cx, s, st, ch)
        eol = D_(s, st, 5)
        isnl = z3.Or(ch == 13, ch == 10)
        estep = z3.And(eol != 0, isnl) if has(EOL) else z3.BoolVal(False)
        st2 = z3.If(estep, eol, t) if has(EOL) else t; c2 = z3.If(estep, c, c + 1) if has(EOL) else c + 1
        b2 = (z3.If(estep, b, ch == 10) if has(EOL) else ch == 10) if has(BOL) else b
        rem = remember(cx, s, st2, c2, b2); es = D_(s, st2, 0) != 0
        nb = {x: z3.If(es, rem[x], best[x]) for x in BEST}
        nxt = rargs(s, st2, c2, b2, nb)
        stop = z3.And(z3.Not(estep), t == 0)
        if has(EOL):
            ees = z3.And(eol != 0, D_(s, eol, 0) != 0); re = remember(cx, s, eol, c, b)
            atend = {x: z3.If(ees, re[x], best[x]) for x in BEST}
        else: atend = best
        cur = rargs(s, st, c, b, best)
        fs = [z3.Implies(z3.And(0 <= c, c <= N), RUNF(*cur) == z3.If(c == N, mk(atend), z3.If(stop, mk(best), RUNF(*nxt))))]
        fs.append(facts(cx, s, st, [seen[0][1]]))
        for ss, bb in seen[1:]: fs.append(z3.Implies(ss != 0, facts(cx, s, ss, [bb])))   # inside a multi-byte character
        fs.append(facts(cx, s, eol, [])); fs.append(facts(cx, s, t, []))
        return fs
    def stk(cx, snap=None):
        v = cx.load(cx.data['res'].f('stack'), snap)
        return [Z(v.len), v.arr.f['first'], v.arr.f['second']]
    def stk_ok(cx, sl, sa, sb):
        return z3.And(sl >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < sl), z3.And(0 <= z3.Select(sa, k), z3.Select(sa, k) < cx.data['n'], 0 <= z3.Select(sb, k), z3.Select(sb, k) <= cx.data['npos'])), patterns=[z3.Select(sa, k), z3.Select(sb, k)]))
    @memo
    def start(cx, c, bol, s):
        """initial configuration of an attempt"""
        d = cx.data; D_ = d['D_']
        z1 = z3.IntVal(1); st0 = z1
        if has(BOL): st0 = z3.If(z3.And(bol, D_(s, z3.IntVal(0), 0) != 0), D_(s, z3.IntVal(0), 0), z1)
        best = remember(cx, s, z1, c, bol); best['acc'] = D_(s, z1, 0) != 0
        best['nx'] = z3.If(best['acc'], D_(s, z1, 4), s)
        return rargs(s, st0, c, bol, best), st0
    @memo
    def unfold_lr(cx, first, c, bol, s, stack):
        d = cx.data; D_ = d['D_']; N = d['N']; npos = d['npos']; eoi = d['eoi_id']
        a0, st0 = start(cx, c, bol, s); m = {x: outf[x](RUNF(*a0)) for x in BEST}
        id_, uid = m['id'], m['uid']
        st2 = m['nx'] if has(MULTI) else s
        bol2 = m['eb'] if has(BOL) else bol
        if recursive: pop, push = m['pop'], m['push']
        thr = z3.BoolVal(False); stack2 = list(stack); again = id_ == eoi
        if recursive:
            sl, sa, sb = stack
            thr = z3.And(pop, sl == 0)
            st2 = z3.If(pop, z3.Select(sa, sl - 1), st2)
            dopush = z3.And(z3.Not(pop), push != npos)
            stack2 = [z3.If(pop, sl - 1, z3.If(dopush, sl + 1, sl)), z3.If(dopush, z3.Store(sa, sl, push), sa), z3.If(dopush, z3.Store(sb, sl, id_), sb)]
            again = z3.Or(id_ == eoi, z3.And(pop, stack2[0] > 0, z3.Select(stack2[1 + 1], stack2[0] - 1) == eoi))
        rec_ = lambda f_: LRF(f_, m['e'], bol2, st2, *stack2)
        fail = {'id': z3.IntVal(npos), 'uid': z3.IntVal(npos), 'first': c, 'second': c + 1 if has(ADV) else c, 'state': s, 'bol': buf(cx, c) == 10, 'throw': z3.BoolVal(False)}
        ateoi = {'id': eoi, 'uid': z3.IntVal(npos), 'first': first, 'second': c, 'state': s, 'bol': bol, 'throw': z3.BoolVal(False)}
        hit = {'id': id_, 'uid': uid, 'first': first, 'second': m['e'], 'state': st2, 'bol': bol2, 'throw': z3.BoolVal(False)}
        if recursive:
            for dd, sv in ((fail, stack), (ateoi, stack), (hit, stack2)): dd.update(sl=sv[0], sa=sv[1], sb=sv[2])
        fs = []
        r = z3.If(id_ == npos - 1, rec_(m['e']), z3.If(again, rec_(first), lmk(hit)))
        if recursive: r = z3.If(thr, lmk(dict(hit, throw=z3.BoolVal(True))), r)
        fs.append(z3.Implies(z3.And(0 <= c, c <= N), LRF(first, c, bol, s, *stack) == z3.If(c == N, lmk(ateoi), z3.If(m['acc'], r, lmk(fail)))))
        fs.append(facts(cx, s, z3.IntVal(0), [])); fs.append(facts(cx, s, z3.IntVal(1), []))
        # a row-0 entry is the start state at the beginning of a line
        fs.append(z3.Implies(z3.And(0 <= s, s < d['n']), z3.And(0 <= D_(s, z3.IntVal(0), 0), D_(s, z3.IntVal(0), 0) < NS(s))))
        fs.append(facts(cx, s, D_(s, z3.IntVal(0), 0), []))
        # an empty match carries neither the skip id nor the continue id nor a pop: such a machine would
        # loop without consuming (documented limit of zero-length matches)
        z1 = z3.IntVal(1)
        for z in (z1, D_(s, z1, 5), D_(s, D_(s, z3.IntVal(0), 0), 5)):
            fs.append(facts(cx, s, z, []))
            fs.append(z3.Implies(z3.And(0 <= s, s < d['n'], D_(s, z, 0) != 0), z3.And(D_(s, z, 1) != npos - 1, D_(s, z, 1) != eoi, (D_(s, z, 0) / 4) % 2 == 0)))
        return fs
    def setup(cx):
        smlv = machine(cx, rec, idt)
        d = cx.data
        b = cx.cell(cx.fresh(Ty('vec', [parse_type(cht)]), 'text'), 'text'); d['buf'] = cx.load(b); d['N'] = Z(d['buf'].len)
        cx.assume(z3.ForAll([k], z3.And(z3.Select(d['buf'].arr, k) >= int_range(parse_type(cht))[0], z3.Select(d['buf'].arr, k) <= int_range(parse_type(cht))[1]), patterns=[z3.Select(d['buf'].arr, k)]))
        res = cx.fresh(Ty('rec', [], results_rec), 'res', ptr=lambda p, t: b)
        for x in ('first', 'second', 'eoi'):
            if not isinstance(res.f[x], It): res = res.set(x, It(b, z3.Int(cx.ex.fresh_name('it'))))
        rl = cx.cell(res, 'results'); d['res'] = rl
        cx.assume(Z(res.f['eoi'].idx) == d['N'])
        cx.assume(z3.And(0 <= Z(res.f['second'].idx), Z(res.f['second'].idx) <= d['N']))
        cx.assume(z3.And(0 <= res.f['state'], res.f['state'] < d['n']))
        d['eoi_id'] = d['it'].f['_eoi']
        if recursive: cx.assume(stk_ok(cx, *stk(cx)))
        d['p0'] = Z(res.f['second'].idx); d['c0'] = (d['p0'], d['p0'], Z(res.f['bol']), res.f['state'], *(stk(cx) if recursive else []))
        for f in unfold_lr(cx, d['p0'], d['p0'], d['c0'][2], d['c0'][3], list(d['c0'][4:])): cx.assume(f)
        comp, recv = Op('integral'), Op('integral')
        return None, [smlv, rl, comp, recv, Op('tag')]
    def R(cx, f, snap=None): 
        v = cx.load(cx.data['res'].f(f), snap)
        return Z(v.idx) if isinstance(v, It) else Z(v)
    def conf(cx, first, c): return (first, c, R(cx, 'bol'), R(cx, 'state'), *(stk(cx) if recursive else []))
    def frame(cx):
        o = [('the end of the input is not moved', R(cx, 'eoi') == cx.data['N']), ('the lexer state exists', z3.And(0 <= R(cx, 'state'), R(cx, 'state') < cx.data['n']))]
        if recursive: o.append(('stack entries are start states', stk_ok(cx, *stk(cx))))
        return o
    def same(cx, first, c):
        return [('the result of the call is unchanged by what was done so far', LRF(*conf(cx, first, c)) == LRF(*cx.data['c0']))]
    def L_skip(cx):
        e, p = Z(cx.v('end_token_').idx), R(cx, 'second'); N = cx.data['N']
        cx.data['spos'] = None
        return [('position', z3.And(cx.data['p0'] <= p, p <= N)), ('token end is the position', e == p)] + frame(cx) + same(cx, p, p) + [('variant', N - p)]
    def L_again(cx):
        e, p, c, f = Z(cx.v('end_token_').idx), R(cx, 'second'), Z(cx.v('curr_').idx), R(cx, 'first'); N = cx.data['N']
        ex = cx.ex
        sk = None
        for key in ex.labels:
            if key == 'skip': sk = ex.labels['skip'][3]
        p1 = R(cx, 'second', sk) if sk is not None else cx.data['p0']
        for g in unfold_lr(cx, f, c, R(cx, 'bol'), R(cx, 'state'), stk(cx) if recursive else []): cx.assume(g)
        return [('position', z3.And(p1 <= p, p <= N, c == p)), ('the token starts where the previous one ended', f == p1), ('token end is the position', e == p)] + frame(cx) + same(cx, f, c) + [('variant', N - p)]
    def L_run(cx):
        d = cx.data; N = d['N']; D_ = d['D_']; ex = cx.ex; npos = d['npos']
        l = cx.v('lu_state_'); c = Z(cx.v('curr_').idx); e = Z(cx.v('end_token_').idx)
        s = R(cx, 'state'); p = R(cx, 'second')
        idx = Z(l.f['_ptr'].idx); A = d['A'](s); st = INV(A, idx)
        bol = Z(l.f['_bol_state'].f['_bol']) if has(BOL) else R(cx, 'bol')
        best = {'acc': Z(ex.tobool(l.f['_end_state'])), 'id': Z(l.f['_id']), 'uid': Z(l.f['_uid']), 'e': e}
        if has(BOL): best['eb'] = Z(l.f['_bol_state'].f['_end_bol'])
        if has(MULTI): best['nx'] = Z(l.f['_multi_state_state'].f['_start_state'])
        if recursive: best['pop'] = Z(ex.tobool(l.f['_recursive_state'].f['_pop'])); best['push'] = Z(l.f['_recursive_state'].f['_push_dfa'])
        a0, st0 = start(cx, p, R(cx, 'bol'), s)
        for f in unfold_run(cx, s, st, c, bol, best): cx.assume(f)
        cx.assume(facts(cx, s, st0, [])); cx.assume(facts(cx, s, D_(s, st0, 5), []))
        acc = best['acc']
        inv = [('cursor', z3.And(p <= e, e <= c, c <= N)), ('table pointer is at the start of a row', z3.And(idx == ROW(A, st), 0 <= st, st < NS(s))),
               ('nothing accepted: the token end has not moved', z3.Implies(z3.Not(acc), e == p)),
               ('nothing consumed yet: the state is the start state or its end-of-line state', z3.Implies(c == p, z3.Or(st == st0, z3.And(D_(s, st0, 5) != 0, st == D_(s, st0, 5))))),
               ('an empty match neither skips nor continues', z3.Implies(z3.And(acc, e == p), z3.And(best['id'] != npos - 1, best['id'] != d['eoi_id'], z3.Not(best['pop']) if recursive else True)))]
        inv += [('the outcome of the attempt is unchanged by the steps taken', RUNF(*rargs(s, st, c, bol, best)) == RUNF(*a0)), ('there is input left at the start of the attempt', p < N)]
        if has(EOL): inv.append(('the end-of-line link looked at last is a state', z3.And(0 <= Z(l.f['_eol_state'].f['_EOL_state']), Z(l.f['_eol_state'].f['_EOL_state']) < NS(s))))
        if has(MULTI): inv.append(('remembered next state exists', z3.And(0 <= best['nx'], best['nx'] < d['n'])))
        if recursive: inv.append(('remembered push exists', z3.Implies(acc, z3.Or(best['push'] == npos, z3.And(0 <= best['push'], best['push'] < d['n'])))))
        inv += [('ids in range', z3.And(0 <= best['id'], best['id'] <= npos, 0 <= best['uid'], best['uid'] <= npos))]
        inv += frame(cx)
        vr = 2 * (N - c) + z3.If(D_(s, st, 5) != 0, 1, 0) if has(EOL) else N - c
        return inv + [('variant', vr)]
    def ensures(cx, ret):
        d = cx.data; N = d['N']; p0 = d['p0']
        names = {'id': 'L01: the reported id is that of the longest match', 'uid': 'L01: the reported user id is that of the longest match', 'first': 'L02: the token starts where the previous text ended',
                 'second': 'L01: the token ends at the longest match', 'state': 'L03: the start state is the one recorded by the winning match', 'bol': 'L03: the beginning-of-line flag belongs to the winning match',
                 'sl': 'L04: stack depth', 'sa': 'L04: stacked start states', 'sb': 'L04: stacked ids', 'throw': 'L04: popping an empty stack is reported'}
        out = {'id': R(cx, 'id'), 'uid': R(cx, 'user_id'), 'first': R(cx, 'first'), 'second': R(cx, 'second'), 'state': R(cx, 'state'), 'bol': R(cx, 'bol'), 'throw': z3.BoolVal(False)}
        if recursive: sl, sa, sb = stk(cx); out['sl'] = sl
        for x in out: cx.oblige(names[x], LR[x](*d['c0']) == out[x])
        if recursive:
            X = z3.Int('X'); rng = z3.And(0 <= X, X < sl)
            cx.oblige(names['sa'], z3.Implies(rng, z3.Select(LR['sa'](*d['c0']), X) == z3.Select(sa, X)))
            cx.oblige(names['sb'], z3.Implies(rng, z3.Select(LR['sb'](*d['c0']), X) == z3.Select(sb, X)))
        f, e = R(cx, 'first'), R(cx, 'second'); idd = R(cx, 'id')
        cx.oblige('L02: the token lies between the old position and the end of input', z3.And(p0 <= f, f <= e, e <= N))
        cx.oblige('L02: the end of the input is not moved', R(cx, 'eoi') == N)
        cx.oblige('L02: at the end of input the eoi id is reported and nothing moves', z3.Implies(p0 == N, z3.And(f == N, e == N, idd == d['eoi_id'], R(cx, 'user_id') == d['npos'], R(cx, 'state') == d['c0'][3], R(cx, 'bol') == d['c0'][2])))
        cx.oblige('L02: a failed match consumes exactly one character', z3.Implies(z3.And(idd == d['npos'], R(cx, 'user_id') == d['npos'], e != f, z3.BoolVal(has(ADV))), z3.Implies(LR['second'](*d['c0']) == e, e >= f + 1)))
        cx.oblige('L03: the start state exists', z3.And(0 <= R(cx, 'state'), R(cx, 'state') < d['n']))
        cx.oblige('skip is never reported', z3.Or(idd != d['npos'] - 1, d['eoi_id'] == d['npos'] - 1))
    def throws(cx, exc):
        d = cx.data
        cx.oblige('L04: only popping an empty stack throws', LR['throw'](*d['c0']) if recursive else z3.BoolVal(False))
        cx.oblige('L04: runtime_error is thrown', z3.BoolVal('runtime_error' in exc.ty))
        if recursive:
            ag = cx.ex.labels['again'][3]
            for x in ('second', 'state', 'bol', 'eoi'): cx.oblige('L04: a refused pop leaves the results alone: ' + x, R(cx, x) == R(cx, x, ag))
            cx.oblige('L04: a refused pop leaves the stack empty', stk(cx)[0] == 0)
    def func(u):
        o = [n for q, n in u.funcs if q == 'lexertl::detail::next' and pred(n)]
        if len(o) != 1: raise ExtractError('%d instantiations of next match %s' % (len(o), cname))
        return o[0]
    loops = [L_run] + (['U'] if compressed else [])
    return Contract(cname, func=func, setup=setup, ensures=ensures, throws=throws, labels={'skip': L_skip, 'again': L_again}, loops=loops, unroll=4, merge=True, exec_class=LookupExec, timeout=40)

def wrapper(cname, rec, results_rec, flags, pred):
    """lookup(): hands exactly its machine and its results to next() and checks the feature flags"""
    def setup(cx):
        sm = cx.fresh(Ty('rec', [], rec), 'sm'); l = cx.cell(sm, 'sm'); b = cx.cell(V(parse_type('char'), z3.Int('tl'), z3.K(I, z3.IntVal(0))), 'text')
        res = cx.fresh(Ty('rec', [], results_rec), 'res', ptr=lambda p, t: b); rl = cx.cell(res, 'results')
        ft = sm.f['_internals'].f['_features']; cx.data['n'] = 0
        # the caller passes results whose flags cover the features of the machine
        cx.assume(cx.ex.maskint(ft, flags) == ft)
        cx.data['want'] = (l, rl)
        return None, [l, rl]
    def h(cx, f, this, args, site):
        cx.data['n'] += 1
        cx.oblige('next() works on the machine given', z3.BoolVal(isinstance(args[0], LV) and str(args[0]) == str(cx.data['want'][0])))
        cx.oblige('next() works on the results given', z3.BoolVal(isinstance(args[1], LV) and str(args[1]) == str(cx.data['want'][1])))
        return VOID
    def ensures(cx, ret):
        cx.oblige('lookup is exactly one step of next()', z3.BoolVal(cx.data['n'] == 1))
        a, b = cx.load(cx.data['want'][1]), cx.old(cx.data['want'][1])
        for x in ('id', 'user_id', 'state'): cx.oblige('nothing else changes the results: ' + x, Z(a.f[x]) == Z(b.f[x]))
    def func(u):
        o = [n for q, n in u.funcs if q == 'lexertl::lookup' and pred(n)]
        if len(o) != 1: raise ExtractError('%d instantiations of lookup match %s' % (len(o), cname))
        return o[0]
    return Contract(cname, func=func, setup=setup, ensures=ensures, summaries=[(lambda q, f: q.endswith('detail::next'), h)])

def lemma_longest(eol, adv=True):
    """RUN, the specification of one attempt, yields the longest accepting configuration: induction on the
    remaining input, for arbitrary transition tables.  HIT(configuration, q) = an accepting configuration whose text ends at q
    is reached from here."""
    def run(cx):
        C = z3.DeclareSort('Configuration')
        # one step of the machine, abstract: the position, whether the configuration accepts, successor
        pos, acc = z3.Function('pos', C, I), z3.Function('accepts', C, B)
        stop = z3.Function('no_transition', C, B); nxt = z3.Function('next_configuration', C, C)
        links = z3.Function('has_end_of_line_link', C, B); lnk = z3.Function('end_of_line_configuration', C, C)
        O = z3.Datatype('Best'); O.declare('best', ('some', B), ('at', C)); O = O.create(); some, at = O.some, O.at
        N = z3.Int('N')
        RUN = z3.Function('RUN', C, O, O); HIT = z3.Function('HIT', C, I, B)
        c = z3.Const('c', C); o = z3.Const('o', O); q = z3.Int('q')
        def unf(c, o): return RUN(c, o) == z3.If(pos(c) == N, z3.If(z3.And(links(c), acc(lnk(c))), O.best(True, lnk(c)), o), z3.If(stop(c), o, RUN(nxt(c), z3.If(acc(nxt(c)), O.best(True, nxt(c)), o))))
        def unfh(c, q): return HIT(c, q) == z3.If(pos(c) == N, z3.And(links(c), acc(lnk(c)), q == N), z3.And(z3.Not(stop(c)), z3.Or(z3.And(acc(nxt(c)), q == pos(nxt(c))), HIT(nxt(c), q))))
        def P(c, o, q): return z3.And(z3.Implies(HIT(c, q), z3.And(some(RUN(c, o)), pos(c) <= q, q <= pos(at(RUN(c, o))))), z3.Or(RUN(c, o) == o, z3.And(some(RUN(c, o)), acc(at(RUN(c, o))), HIT(c, pos(at(RUN(c, o)))))))
        cx.assume(z3.And(0 <= pos(c), pos(c) <= N, pos(c) <= pos(nxt(c)), pos(nxt(c)) <= N, pos(lnk(c)) == pos(c)))
        o2 = z3.If(acc(nxt(c)), O.best(True, nxt(c)), o)
        e = pos(at(RUN(c, o)))
        for f in (unf(c, o), unfh(c, q), unfh(c, e)): cx.assume(f)
        # induction hypothesis: the step measure (input left, then end-of-line steps left) of the successor is smaller
        cx.assume(z3.Implies(z3.And(pos(c) != N, z3.Not(stop(c))), z3.And(P(nxt(c), o2, q), P(nxt(c), o2, e))))
        # remembering an accepting configuration is at or before everything reached later
        cx.assume(z3.Implies(some(o), pos(at(o)) <= pos(c)))
        cx.oblige('no accepting configuration ends later than the one reported', z3.Implies(HIT(c, q), z3.And(some(RUN(c, o)), q <= pos(at(RUN(c, o))))))
        cx.oblige('the configuration reported accepts and is reached, or nothing was found', z3.Or(RUN(c, o) == o, z3.And(some(RUN(c, o)), acc(at(RUN(c, o))), HIT(c, e))))
        cx.oblige('matches do not end before they start', z3.Implies(HIT(c, q), pos(c) <= q))
    return Contract('lemma: one attempt reports the longest accepting configuration', run_custom=run)

DRIVER = r'''
#include <lexertl/lookup.hpp>
#include <lexertl/state_machine.hpp>
using namespace lexertl;
void a(const state_machine& s, cmatch& m) { lookup(s, m); }
void b(const state_machine& s, crmatch& m) { lookup(s, m); }
void c(const u32state_machine& s, u32crmatch& m) { lookup(s, m); }
void c2(const u32state_machine& s, u32cmatch& m) { lookup(s, m); }
using sm16 = basic_state_machine<char16_t>;
using m16 = match_results<const char16_t*>;
void c3(const sm16& s, m16& m) { lookup(s, m); }
using m0 = match_results<const char*, uint16_t, 64>;
void d(const state_machine& s, m0& m) { lookup(s, m); }
using m1 = match_results<const char*, uint16_t, 0>;
void e(const state_machine& s, m1& m) { lookup(s, m); }
'''
ALL = BOL | EOL | SKIP | AGAIN | MULTI | ADV
def tp(*subs):
    def f(n):
        t = n['type']['qualType']
        return all(x in t for x in subs)
    return f
def SM(c): return 'lexertl::basic_state_machine<%s, unsigned short>' % c
US = 'unsigned short'
F2, T2 = 'integral_constant<bool, false> &, const std::integral_constant<bool, false>', 'integral_constant<bool, false> &, const std::integral_constant<bool, true>'
C2, CT = 'integral_constant<bool, true> &, const std::integral_constant<bool, false>', 'integral_constant<bool, true> &, const std::integral_constant<bool, true>'
MR, RR = 'lexertl::match_results<const %s*, unsigned short, %d>', 'lexertl::recursive_match_results<const %s*, unsigned short, %d>'
ALLV = {
    'c': variant('next<char>', SM('char'), MR % ('char', 95), US, 'char', ALL, 1, False, tp('lexertl::match_results<const char *> &', F2)),
    'cr': variant('next<char,recursive>', SM('char'), RR % ('char', 127), US, 'char', ALL, 1, True, tp('recursive_match_results<const char *> &', T2)),
    'ca': variant('next<char,flags=advance>', SM('char'), MR % ('char', 64), US, 'char', ADV, 1, False, tp('match_results<const char *, unsigned short, 64> &', F2)),
    'c0': variant('next<char,flags=0>', SM('char'), MR % ('char', 0), US, 'char', 0, 1, False, tp('match_results<const char *, unsigned short, 0> &', F2)),
    'w': variant('next<char16_t>', SM('char16_t'), MR % ('char16_t', 95), US, 'char16_t', ALL, 2, False, tp('lexertl::match_results<const char16_t *> &', C2)),
    'u': variant('next<char32_t>', SM('char32_t'), MR % ('char32_t', 95), US, 'char32_t', ALL, 4, False, tp('lexertl::match_results<const char32_t *> &', C2)),
    'ur': variant('next<char32_t,recursive>', SM('char32_t'), RR % ('char32_t', 127), US, 'char32_t', ALL, 4, True, tp('recursive_match_results<const char32_t *> &', CT)),
}
WRAP = {
    'c': wrapper('lookup<char>', SM('char'), MR % ('char', 95), 95, tp('void (const lexertl::basic_state_machine<char> &, match_results<', '95UL')),
    'cr': wrapper('lookup<char,recursive>', SM('char'), RR % ('char', 127), 127, tp('basic_state_machine<char> &', 'recursive_match_results<', '127UL')),
    'ca': wrapper('lookup<char,flags=advance>', SM('char'), MR % ('char', 64), 64, tp('basic_state_machine<char> &', '64UL')),
    'c0': wrapper('lookup<char,flags=0>', SM('char'), MR % ('char', 0), 0, tp('basic_state_machine<char> &', ' 0UL')),
    'w': wrapper('lookup<char16_t>', SM('char16_t'), MR % ('char16_t', 95), 95, tp('basic_state_machine<char16_t> &')),
    'u': wrapper('lookup<char32_t>', SM('char32_t'), MR % ('char32_t', 95), 95, tp('basic_state_machine<char32_t> &', '95UL')),
    'ur': wrapper('lookup<char32_t,recursive>', SM('char32_t'), RR % ('char32_t', 127), 127, tp('basic_state_machine<char32_t> &', 'recursive_match_results<', '127UL')),
}
def groups(keys, extra=()): return [dict(driver=DRIVER, contracts=[ALLV[k] for k in keys] + [WRAP[k] for k in keys] + list(extra))]
ASSUMPTIONS = [
    'the transition tables are well formed (every target, next and pushed state exists, column 6 is dead, a lookup entry is a column, a state reached over an end-of-line link has no such link, at most npos states): this is the postcondition of building (L08, L10, L11)',
    'an empty match carries neither the skip id, the eoi id nor a pop (such a machine makes lookup loop by definition)',
    'the iterator is a random access range [first, eoi) of the stated character type; a character is any value of its type',
    'std::stack behaves as a sequence; the row products state * alphabet are injective row offsets inside the table (table length fits std::size_t)',
]
RULE = 'bounded search: random well-formed tables (1-3 start states, 2-7 states, 1-4 classes, anchors, skip, continue, push/pop), random inputs up to 14 characters, every single lookup call compared with an independent table interpreter; evaluation = one lookup call, non-trivial = a non-empty match'
