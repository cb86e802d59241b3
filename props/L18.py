"""counted repetition: repeat_n reads the counts exactly, repeatn / optional / zero_or_more / one_or_more build exactly that many copies"""
from .parser_common import *
from vc.exec import ThrowEx
SEL = z3.Select
MAX = 2 ** 64 - 1
HUGE = 2 ** 62
# ---- the syntax tree: every node built from copies of the repeated expression r matches r c times exactly for LO <= c <= HI (no upper limit if INF)
TY = dict(LO=AI, HI=AI, INF=AB)
def heap(cx):
    f = {n: z3.Const('h.' + n, t) for n, t in TY.items()}
    f['_firstpos'] = V(Ty('int', (64, True)), z3.Const('h._firstpos.len', AI), z3.Const('h._firstpos', z3.ArraySort(I_, AI)))
    cx.ex.store[H] = S('heap', {'#elems': S('node', f)}); cx.data['alloc'] = cx.cell(z3.Int('allocated'), 'allocated'); cx.assume(z3.Int('allocated') > 0)
    q, r = z3.Ints('q? r?'); fl, fp = f['_firstpos'].len, f['_firstpos'].arr
    cx.assume(z3.ForAll([q], z3.And(SEL(fl, q) >= 0, SEL(fl, q) < 2 ** 40), patterns=[SEL(fl, q)])); cx.assume(z3.ForAll([q, r], z3.And(SEL(SEL(fp, q), r) > 0), patterns=[SEL(SEL(fp, q), r)]))
def fld(cx, a, f, snap=None): return cx.load(LV(H, (('i', Z(a)), f)), snap)
def iv(cx, a, snap=None): return Z(fld(cx, a, 'LO', snap)), Z(fld(cx, a, 'HI', snap)), B(cx, fld(cx, a, 'INF', snap))
def new(cx, lo, hi, inf):
    ex = cx.ex; al = Z(cx.load(cx.data['alloc'])); ex.storev(cx.data['alloc'], al + 1); lv = LV(H, (('i', al),))
    for n, x in (('LO', lo), ('HI', hi), ('INF', inf)): ex.storev(lv.f(n), x)
    cx.data.setdefault('new', []).append(al); return al
def mk(cx, el, a, e):
    ex = cx.ex; nm = el.name; args = [Z(ex.rv(x)) for x in a]
    for x in args[:2] if 'selection' in nm or 'sequence' in nm else args[:1] if 'iteration' in nm else []: cx.oblige('operands are existing nodes', z3.And(x > 0, x < Z(cx.load(cx.data['alloc']))))
    if 'leaf_node' in nm: cx.oblige('an optional part is an alternative to the empty string', args[0] == 0xffff); return new(cx, z3.IntVal(0), z3.IntVal(0), z3.BoolVal(False))
    if 'sequence_node' in nm: (l, h, i), (l2, h2, i2) = iv(cx, args[0]), iv(cx, args[1]); return new(cx, l + l2, h + h2, z3.Or(i, i2))
    if 'selection_node' in nm:
        (l, h, i), (l2, h2, i2) = iv(cx, args[0]), iv(cx, args[1]); cx.oblige('the alternatives leave no gap in the counts', z3.And(z3.Or(i, l2 <= h + 1), z3.Or(i2, l <= h2 + 1))); return new(cx, z3.If(l < l2, l, l2), z3.If(h > h2, h, h2), z3.Or(i, i2))
    if 'iteration_node' in nm: l, h, i = iv(cx, args[0]); cx.oblige('iterating leaves no gap in the counts', z3.And(l <= 1, z3.Or(h >= 1, i))); return new(cx, z3.IntVal(0), z3.IntVal(0), z3.BoolVal(True))
    return NotImplemented
def h_copy(cx, f, this, args, site):
    a = this.path[0][1]; cx.ex.trust('node::copy gives an equal fresh tree (L09)'); l, h, i = iv(cx, a); return new(cx, l, h, i)
def h_first(cx, f, this, args, site): return this.f('_firstpos')
def h_greedy(cx, f, this, args, site): return None
SUM = [(sub('copy'), h_copy), (sub('firstpos'), h_first), (sub('greedy'), h_greedy)]
KW = dict(heap=('_node',), make_unique=mk, summaries=SUM)
def setup(pre):
    def g(cx):
        d = cx.data; heap(cx); st = cx.cell(cx.fresh(Ty('vec', [Ty('int', (64, True))], 'stack'), 'trees'), 'trees'); own = cx.cell(cx.fresh(Ty('vec', [Ty('int', (64, True))]), 'owners'), 'owners'); s = cx.load(st); q = z3.Int('q?')
        cx.assume(z3.And(Z(s.len) >= 1, Z(s.len) < 2 ** 40, Z(cx.load(own).len) < 2 ** 40)); cx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Z(s.len)), z3.And(SEL(s.arr, q) > 0, SEL(s.arr, q) < z3.Int('allocated'))), patterns=[SEL(s.arr, q)]))
        d['t'] = SEL(s.arr, Z(s.len) - 1); l, h, i = iv(cx, d['t']); cx.assume(z3.And(l >= 0, h >= l, l < HUGE, h < HUGE)); d['iv'] = (l, h, i); g_ = z3.Int('greedy_'); cx.assume(z3.And(g_ >= 0, g_ <= 2))
        d['this'] = cx.cell(S(parse_type('rec parser'), {'_locale': Op('locale'), '_node_ptr_vector': Ad(own), '_charset_map': Op('map'), '_eoi': z3.Int('_eoi'), '_token_stack': Op('tokens'), '_tree_node_stack': s}), 'parser')
        return d['this'], pre(cx, g_)
    return g
def stack(cx, snap=None): return cx.load(cx.data['this'].f('_tree_node_stack'), snap)
def rest(cx):
    s, o = stack(cx), stack(cx, 'old'); return z3.And(Z(s.len) == Z(o.len), fall(0, Z(o.len) - 1, lambda q: SEL(s.arr, q) == SEL(o.arr, q), lambda q: [SEL(s.arr, q)]))
def top(cx): s = stack(cx); return SEL(s.arr, Z(s.len) - 1)
def post(cx, lo, hi, inf, nm):
    l, h, i = iv(cx, top(cx)); cx.oblige('nothing else on the stack changes', rest(cx)); cx.oblige('the new tree replaces the operand', z3.And(top(cx) > 0, top(cx) < Z(cx.load(cx.data['alloc'])))); cx.oblige(nm, z3.And(i == inf, z3.Implies(z3.Not(inf), h == hi), l == lo))
def fposloop(cx): return [('range', z3.And(Z(cx.v('__begin').idx) >= 0, Z(cx.v('__begin').idx) <= Z(cx.v('__end').idx)))]
def s1(cx, g): l, h, i = cx.data['iv']; cx.assume(z3.And(l == 1, h == 1, z3.Not(i))); return [g]
def simple(inst):
    P = inst + ','; F = z3.BoolVal(False); T = z3.BoolVal(True); nm = '<%s>' % inst
    return [Contract('optional' + nm, func=pfind(P, 'optional', 1), setup=setup(s1), ensures=lambda cx, r: post(cx, 0, 1, F, 'r? is r at most once'), loops=[fposloop], **KW),
            Contract('zero_or_more' + nm, func=pfind(P, 'zero_or_more', 1), setup=setup(s1), ensures=lambda cx, r: post(cx, 0, 0, T, 'r* is r any number of times'), loops=[], **KW),
            Contract('one_or_more' + nm, func=pfind(P, 'one_or_more', 1), setup=setup(s1), ensures=lambda cx, r: post(cx, 1, 0, T, 'r+ is r at least once'), loops=[], **KW)]
# ---- counts in text: DV(w, i) is the value of the first i digits of number w
DV = z3.Function('DECIMAL_VALUE', I_, I_, I_)
def isdig(c): return z3.And(c >= 48, c <= 57)
def dvdef(cx, w, arr, p, n):
    i = z3.Int('i?'); cx.assume(DV(w, 0) == 0); cx.assume(z3.ForAll([i], z3.Implies(i >= 0, DV(w, i + 1) == 10 * DV(w, i) + (SEL(arr, p + i) - 48)), patterns=[DV(w, i + 1)]))
    q = z3.Int('q?'); cx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= p, q < p + n), isdig(SEL(arr, q))), patterns=[SEL(arr, q)]))
    # lemma (induction): the value never decreases while digits are appended
    cx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= n), z3.And(DV(w, i) >= 0, DV(w, i) <= DV(w, n))), patterns=[DV(w, i)]))
def stepat(cx, w, arr, p, i): cx.assume(z3.Implies(Z(i) >= 0, DV(w, i + 1) == 10 * DV(w, i) + (SEL(arr, p + i) - 48)))
def rpt(inst, chty):
    def pre(cx, g):
        d = cx.data; s1(cx, g); x = cx.fresh(Ty('vec', [Ty('int', (8, True))], 'str'), 'extra'); a, b = z3.Ints('digits digits2'); comma = z3.Bool('comma'); d.update(a=a, b=b, x=x, comma=comma)
        # the text of the token, as repeat_n leaves it: digits [, [digits]]
        cx.assume(z3.And(a >= 0, b >= 0, Z(x.len) == a + z3.If(comma, 1 + b, 0) + 1, Z(x.len) < 2 ** 40, z3.Implies(comma, SEL(x.arr, a) == 44), SEL(x.arr, Z(x.len) - 1) == 0, z3.Implies(z3.Not(comma), b == 0)))
        dvdef(cx, 1, x.arr, z3.IntVal(0), a); dvdef(cx, 2, x.arr, a + 1, b); n, m = DV(1, a), DV(2, b); d.update(n=n, m=m)
        cx.assume(z3.And(n <= MAX, m <= MAX, n < HUGE, m < HUGE))
        # ... and has checked
        cx.assume(z3.If(comma, z3.If(b == 0, n >= 2, z3.And(m > n, z3.Not(z3.And(n == 0, m == 1)))), n >= 1))
        tok = cx.cell(S(parse_type('rec token'), {'_type': z3.Int('_type'), '_extra': x, '_str': Op('str')}), 'token'); d['tok'] = tok; return [g, Ad(tok)]
    def pos(cx): return Z(cx.v('str_').idx)
    def L1(cx):
        d = cx.data; i = pos(cx); stepat(cx, 1, d['x'].arr, 0, i); return [('first number', z3.And(i >= 0, i <= d['a'], Z(cx.v('min_')) == DV(1, i))), ('variant', d['a'] - i)]
    def L2(cx):
        d = cx.data; i = pos(cx) - d['a'] - 1; j = pos(cx); stepat(cx, 2, d['x'].arr, d['a'] + 1, i); return [('second number', z3.And(z3.If(d['comma'], z3.And(i >= 0, i <= d['b'], Z(cx.v('max_')) == DV(2, i)), z3.And(j == d['a'], Z(cx.v('max_')) == 0)))), ('first number is kept', Z(cx.v('min_')) == d['n']), ('variant', Z(d['x'].len) - j)]
    def node_ok(cx, x): return z3.And(x > 0, x < Z(cx.load(cx.data['alloc'])))
    def frame0(cx): l, h, i = iv(cx, cx.data['t']); return [('stack below', rest(cx)), ('operands exist', z3.And(node_ok(cx, top(cx)), node_ok(cx, Z(cx.v('prev_')))))]
    def L3(cx):
        d = cx.data; i = Z(cx.v('i_')); t = Z(cx.v('top_')); l, h, f = iv(cx, top(cx)); pl, ph, pf = iv(cx, Z(cx.v('prev_'))); z = d['n'] == 0; u = z3.If(z, 0, 1)
        return frame0(cx) + [('copies so far', z3.And(i >= 2, z3.Or(i <= t, i == 2), t >= 1, l == z3.If(z, 0, i - 1), h == i - 1, z3.Not(f))), ('the copy at hand', z3.And(pl == u, ph == 1, z3.Not(pf))), ('variant', t + 2 - i)]
    def L4(cx):
        d = cx.data; i = Z(cx.v('i_')); c = Z(cx.v('count_')); l, h, f = iv(cx, top(cx)); pl, ph, pf = iv(cx, Z(cx.v('prev_')))
        return frame0(cx) + [('copies so far', z3.And(i >= 1, i <= c, l == d['n'], h == d['n'] + i - 1, z3.Not(f))), ('the optional copy at hand', z3.And(pl == 0, ph == 1, z3.Not(pf))), ('variant', c - i)]
    def ens(cx, r):
        d = cx.data; n, m = d['n'], d['m']; open_ = z3.And(d['comma'], d['b'] == 0); post(cx, n, z3.If(d['comma'], m, n), open_, 'r{n,m} is r from n to m times')
    def cstr(cx, it): return It(it.base, Z(cx.load(it.base).len))
    return Contract('repeatn<%s>' % inst, func=pfind(inst + ',', 'repeatn', 2), setup=setup(pre), ensures=ens, loops=[L1, L2, fposloop, L3, fposloop, L4], cstr=cstr, **KW)
CS = []
for inst, ty in (('char', 'char'), ('char32_t', 'unsigned char'), ('char16_t', 'unsigned char')): CS += simple(inst) + [rpt(inst, ty)]
# ---- repeat_n: the tokeniser's reading of {n}, {n,}, {n,m}
TT = {n: i for i, n in enumerate('BEGIN REGEX OREXP SEQUENCE SUB EXPRESSION REPEAT DUP OR CHARSET BOL EOL MACRO OPENPAREN CLOSEPAREN OPT AOPT ZEROORMORE AZEROORMORE ONEORMORE AONEORMORE REPEATN AREPEATN END DIFF'.split())}
def rn():
    R = 'lexertl::detail::basic_re_tokeniser<char, char, unsigned short>::repeat_n'
    def func(name):
        def g(u):
            o = [n for q, n in u.funcs if q.startswith('lexertl::detail::basic_re_tokeniser<char, char, unsigned short') and q.endswith('>::' + name)]
            if not o: raise ExtractError(name + ' not found')
            return o[0]
        return g
    def setup(cx):
        d = cx.data; t = cx.cell(cx.fresh(Ty('vec', [Ty('int', (8, True))]), 'text'), 'text'); v = cx.load(t); st, p, e = z3.Ints('start curr end')
        cx.assume(z3.And(0 <= st, st <= p, p <= e, e < Z(v.len), Z(v.len) < 2 ** 40, SEL(v.arr, e) == 0)); a, b = z3.Ints('digits digits2'); q = p + a; A = v.arr; d.update(t=t, A=A, p=p, e=e, a=a, b=b)
        # digits of the first and, behind a comma, of the second number (longest runs inside the text)
        cx.assume(z3.And(a >= 0, q <= e, z3.Not(z3.And(q < e, isdig(SEL(A, q)))))); comma = z3.And(q < e, SEL(A, q) == 44)
        cx.assume(z3.And(b >= 0, z3.Implies(comma, z3.And(q + 1 + b <= e, z3.Not(z3.And(q + 1 + b < e, isdig(SEL(A, q + 1 + b)))))), z3.Implies(z3.Not(comma), b == 0)))
        dvdef(cx, 1, A, p, a); dvdef(cx, 2, A, q + 1, b); n, m = DV(1, a), DV(2, b); r = z3.If(comma, q + 1 + b, q); close = z3.And(r < e, SEL(A, r) == 125)
        d.update(n=n, m=m, comma=comma, r=r, fits=z3.And(n <= MAX, m <= MAX))
        opt = z3.And(comma, b > 0, n == 0, m == 1); same = z3.And(comma, b > 0, n == m); open_ = z3.And(comma, b == 0)
        d['ok'] = z3.And(close, d['fits'], z3.If(open_, True, z3.If(opt, True, z3.If(z3.And(comma, z3.Not(same)), m > n, n >= 1))))
        d['type'] = z3.If(opt, TT['OPT'], z3.If(z3.And(open_, n == 0), TT['ZEROORMORE'], z3.If(z3.And(open_, n == 1), TT['ONEORMORE'], TT['REPEATN']))); d['exlen'] = z3.If(z3.Or(same, z3.Not(comma)), a, a + 1 + b)
        nm = {'_start': It(t, st), '_end': It(t, e), '_curr': It(t, p), '_id': z3.Int('_id'), '_flags': z3.Int('_flags'), '_flags_stack': Op('stack'), '_locale': Op('locale'), '_macro_name': NULL, '_paren_count': z3.Int('_paren'), '_in_string': z3.Bool('_instr'), '_nl_id': z3.Int('_nl')}
        d['s'] = cx.cell(S(parse_type('lexertl::detail::basic_re_tokeniser_state<char, unsigned short>'), nm), 'state'); x = cx.fresh(Ty('vec', [Ty('int', (8, True))], 'str'), 'extra'); cx.assume(Z(x.len) == 0)
        d['tok'] = cx.cell(S(parse_type('rec token'), {'_type': z3.IntVal(0), '_extra': x, '_str': Op('str')}), 'token'); return None, [d['s'], d['tok']]
    def curr(cx): return Z(cx.load(cx.data['s']).f['_curr'].idx)
    def tok(cx): return cx.load(cx.data['tok'])
    def at(cx, i): return SEL(cx.data['A'], i)
    def copied(cx): x = tok(cx).f['_extra']; p = cx.data['p']; return fall(0, Z(x.len), lambda q: SEL(x.arr, q) == at(cx, p + q), lambda q: [SEL(x.arr, q)])
    def look(cx):
        """ch_ / eos_ hold the character before curr"""
        eos = B(cx, cx.v('eos_')); c = Z(cx.v('ch_')); cu = curr(cx); e = cx.data['e']; return z3.If(eos, z3.And(cu == e, c == 0), z3.And(cu <= e, c == at(cx, cu - 1)))
    def at_(cx): eos = B(cx, cx.v('eos_')); return z3.If(eos, curr(cx), curr(cx) - 1) - cx.data['p']
    def L1(cx): d = cx.data; i = at_(cx); stepat(cx, 1, d['A'], d['p'], i); return [('character at hand', look(cx)), ('first number so far', z3.And(i >= 0, i <= d['a'], Z(cx.v('min_')) == DV(1, i), Z(tok(cx).f['_extra'].len) == i, DV(1, i) <= MAX)), ('text so far', copied(cx)), ('type', Z(tok(cx).f['_type']) == 0), ('variant', d['a'] - i)]
    def L2(cx):
        d = cx.data; i = at_(cx) - d['a'] - 1; stepat(cx, 2, d['A'], d['p'] + d['a'] + 1, i)
        return [('character at hand', look(cx)), ('another digit', z3.And(z3.Not(B(cx, cx.v('eos_'))), i < d['b'])), ('second number so far', z3.And(i >= 0, d['comma'], Z(cx.v('max_')) == DV(2, i), Z(tok(cx).f['_extra'].len) == d['a'] + 1 + i, DV(2, i) <= MAX)), ('text so far', copied(cx)), ('first number is kept', z3.And(Z(cx.v('min_')) == d['n'], d['n'] <= MAX, B(cx, cx.v('min_max_')), B(cx, cx.v('repeatn_')))), ('type', Z(tok(cx).f['_type']) == 0), ('variant', d['b'] - i)]
    def ens(cx, r):
        d = cx.data; t = tok(cx); c = d['r'] + 1; lazy = z3.And(c < d['e'], at(cx, c) == 63); x = t.f['_extra']
        cx.oblige('only a well formed count is accepted', d['ok']); cx.oblige('the operator is the one written', z3.Implies(d['ok'], Z(t.f['_type']) == d['type'] + z3.If(lazy, 1, 0)))
        cx.oblige('exactly the count and its ? are consumed', z3.Implies(d['ok'], curr(cx) == c + z3.If(lazy, 1, 0))); cx.oblige('the counts handed on are those written', z3.Implies(z3.And(d['ok'], d['type'] == TT['REPEATN']), z3.And(Z(x.len) == d['exlen'], copied(cx))))
    def thr(cx, exc): cx.oblige('only a malformed count is rejected', z3.Not(cx.data['ok']))
    def noop(cx, f, this, args, site): cx.ex.trust('error message text'); return None
    def stream(cx, op, lv, node, e): return lv
    def opaque(cx, ty, ks, e): return Op('message')
    def opm(cx, o, name, lv, argn, e): return Op('string') if name == 'str' else NotImplemented
    def s_ad(cx):
        setup(cx); d = cx.data; d['c'] = cx.cell(z3.Int('count'), 'count'); cx.assume(z3.And(z3.Int('count') >= 0, z3.Int('count') <= MAX)); c = z3.Int('ch'); cx.assume(isdig(c)); d['v'] = 10 * z3.Int('count') + c - 48; return None, [d['s'], c, d['c']]
    def e_ad(cx, r): d = cx.data; cx.oblige('the digit is appended', z3.And(d['v'] <= MAX, Z(cx.load(d['c'])) == d['v']))
    def t_ad(cx, exc): cx.oblige('only a value that does not fit is rejected', cx.data['v'] > MAX)
    def h_ad(cx, f, this, args, site):
        ex = cx.ex; c = Z(args[1]) if not isinstance(args[1], LV) else Z(cx.load(args[1])); v = 10 * Z(cx.load(args[2])) + c - 48; cx.oblige('add_digit is given a digit', isdig(c))
        if ex.decide(v <= MAX): ex.storev(args[2], v); return None
        raise ThrowEx('runtime_error', None)
    SM = [((lambda q, n: q.endswith('::unexpected_end') or (q.endswith('::error') and 'tokeniser_state' in q)), noop)]
    X = dict(stream=stream, construct_opaque=opaque, opmethod=opm)
    return [Contract('repeat_n', func=func('repeat_n'), setup=setup, ensures=ens, throws=thr, loops=[L1, L2], summaries=SM + [(sub('add_digit'), h_ad)], **X), Contract('add_digit', func=func('add_digit'), setup=s_ad, ensures=e_ad, throws=t_ad, loops=[], summaries=SM, **X)]
CS += rn()
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'proof'
SEARCH = ['L18.cpp']
RULE = 'random expressions with nested repeats over char, char16_t and char32_t through rules, generator and lookup against a set-of-positions matcher; random count texts (leading zeros, 64 bit boundaries, malformed ones); non-trivial: a rule matches'
ASSUMPTIONS = ['node::copy gives an equal tree (L09); sequence, selection and iteration nodes denote concatenation, alternation and iteration (L08, L09)', 'counts below 2^62 (larger ones exhaust the memory)', 'a terminator follows the text', 'precedence parsing applies the operator to the expression before it (searched, not proved)']
