"""wide character ranges: slicing into byte boxes, the collection of boxes and the tree built from it accept exactly the bytes of the characters in the ranges"""
from .parser_common import *
from vc.exec import ThrowEx
SEL = z3.Select
MEM = z3.Function('byte_in_set', I_, I_, B_)          # the byte sets string tokens denote
UNI = z3.Function('set_union', I_, I_, I_)
W = z3.Ints('w0 w1 w2')                                # an arbitrary byte sequence
def code(n): return W[0] * 256 + W[1] if n == 2 else (W[0] * 256 + W[1]) * 256 + W[2]
def wit(cx): cx.assume(z3.And([z3.And(w >= 0, w <= 255) for w in W]))
def par(node, tn):
    t = [p['type'] for p in params_of(node)]; return str(t)
def p24(n): return 'true_type' in par(n, 0) or 'integral_constant<bool, true>' in par(n, 0)
def p16(n): return not p24(n)
def P_(inst): return dict(_locale=Op('locale'), _eoi=z3.Int('_eoi'), _token_stack=Op('tokens'))
def this(cx, **kw):
    f = P_(0); f.update(_node_ptr_vector=Op('owners'), _charset_map=Op('map'), _tree_node_stack=Op('trees')); f.update(kw); return cx.cell(S(parse_type('rec parser'), f), 'parser')
# ---- ghost: in = the witness lies in one of the boxes inserted so far; any = some box was inserted
def ghost(cx):
    wit(cx); d = cx.data; d['in'] = cx.cell(z3.Bool('in0'), 'in'); d['any'] = cx.cell(z3.Bool('any0'), 'any'); cx.assume(z3.Implies(z3.Bool('in0'), z3.Bool('any0')))
def gin(cx, s=None): return B(cx, cx.load(cx.data['in'], s))
def gany(cx, s=None): return B(cx, cx.load(cx.data['any'], s))
def grow(cx, phi): ex = cx.ex; ex.storev(cx.data['in'], z3.Or(gin(cx), phi)); ex.storev(cx.data['any'], z3.BoolVal(True))
def dat(cx): cx.data['data'] = cx.cell(S('data', {}), 'data_'); return Ad(cx.data['data'])
def rng(cx, wide):
    f, s = z3.Ints('first second'); m = 0x10ffff if wide else 0xffff; cx.assume(z3.And(f >= 0, f <= s, s <= m)); cx.data['r'] = (f, s); return cx.cell(S('pair', {'first': f, 'second': s}), 'range_')
def isdata(cx, a): cx.oblige('the ranges go to the collection passed in', z3.BoolVal(isinstance(a, Ad) and same_lv(a.lv, cx.data['data'])))
def h_ins(n):
    def h(cx, f, this, args, site):
        isdata(cx, args[-1]); b = []
        for i in range(n):
            x, y = Z(args[2 * i]), Z(args[2 * i + 1]); cx.oblige('byte bounds', z3.And(x >= 0, x <= 255, y >= 0, y <= 255)); b.append(z3.And(z3.If(x < y, x, y) <= W[i], W[i] <= z3.If(x < y, y, x)))
        grow(cx, z3.And(b)); return None
    return h
def npar(n): return lambda q, f: q.endswith('::insert_range') and len(params_of(f)) == n
def ctor(q, f): return q.endswith('::basic_string_token') and len(params_of(f)) == 2
def one_range(cx, f, this, args, site):
    """insert of a range into an empty token (L06)"""
    ex = cx.ex; v = ex.load(this.f('_ranges')); cx.oblige('insert is used on an empty token', z3.BoolVal(isinstance(v.len, int) and v.len == 0)); ex.trust('string_token::insert of a range into an empty token stores that range (L06)')
    r = args[0]; r = cx.load(r) if isinstance(r, LV) else r; a, b = Z(r.f['first']), Z(r.f['second']); w = ex.const_vec(parse_type('std::pair<unsigned char, unsigned char>'), 1, S('pair', {'first': a, 'second': b})); ex.storev(this.f('_ranges'), w); return None
INS1 = (lambda q, f: 'basic_string_token<unsigned char>::insert' in q, one_range)
def box(cx, a):
    v = (cx.load(a) if isinstance(a, LV) else a).f['_ranges']; cx.oblige('the token is one range', Z(v.len) == 1); s = cx.ex.step(v, ('i', z3.IntVal(0))); return Z(s.f['first']), Z(s.f['second'])
def slice16(inst):
    def setup(cx):
        ghost(cx); f, s = z3.Ints('first second'); cx.assume(z3.And(f >= 0, s >= 0, f < (2 ** 16 if 'char16' in inst else 2 ** 32), s < (2 ** 16 if 'char16' in inst else 2 ** 32), f % 65536 <= s % 65536)); cx.data['r'] = (f % 65536, s % 65536)
        return this(cx), [cx.cell(S('pair', {'first': f, 'second': s}), 'range_'), dat(cx), S('tag', {})]
    def ens(cx, r): f, s = cx.data['r']; cx.oblige('exactly the characters of the range are added', gin(cx) == z3.Or(gin(cx, 'old'), z3.And(f <= code(2), code(2) <= s))); cx.oblige('something is added', gany(cx))
    return Contract('slice_range<%s> 16 bit' % inst, func=pfind(inst + ',', 'slice_range', 3, p16), setup=setup, ensures=ens, loops=[], summaries=[(npar(5), h_ins(2))])
# data2_ as the 16 bit slice leaves it: M(0,i), M(1,i) say whether the witness' bytes are in the i-th pair of sets
GC = z3.Function('some_box_upto', I_, B_)
def collection(cx, n, m, name):
    """m vectors of n tokens each; GC(i) = one of the first i boxes holds the witness (bytes from off on)"""
    rows = S('rows', {str(i): V(parse_type('std::unique_ptr<T>'), n, S('opt', {'some': z3.K(I_, z3.BoolVal(True)), 'val': S('tok', {'set': z3.Const('%s%d' % (name, i), AI)})})) for i in range(m)}); cx.assume(z3.And(Z(n) >= 0, Z(n) < 2 ** 40)); return rows
def sets(rows, i): return rows.f[str(i)].arr.f['val'].f['set']
def gcdef(cx, rows, m, off):
    i = z3.Int('i?'); hit = lambda i: z3.And([MEM(SEL(sets(rows, j), i), W[off + j]) for j in range(m)]); cx.assume(z3.Not(GC(0))); cx.assume(z3.ForAll([i], z3.Implies(i >= 0, GC(i + 1) == z3.Or(GC(i), hit(i))), patterns=[GC(i + 1)]))
    cx.data['gcstep'] = lambda t: cx.assume(z3.Implies(t >= 0, GC(t + 1) == z3.Or(GC(t), hit(t))))
def slice24(inst):
    def setup(cx): ghost(cx); return this(cx), [rng(cx, True), dat(cx), S('tag', {})]
    def h16(cx, f, this_, args, site):
        r = cx.load(args[0]); a, b = Z(r.f['first']), Z(r.f['second']); cx.oblige('the low bytes are in order', a % 65536 <= b % 65536); n = z3.Int('n2'); rows = collection(cx, n, 2, 'd2_'); cx.oblige('the collection starts empty', z3.BoolVal(all(isinstance(cx.load(args[1].lv).f[i].len, int) and cx.load(args[1].lv).f[i].len == 0 for i in '01')))
        cx.ex.storev(args[1].lv, rows); gcdef(cx, rows, 2, 1); c = W[1] * 256 + W[2]; cx.assume(GC(n) == z3.And(a % 65536 <= c, c <= b % 65536)); cx.assume(n >= 1); cx.data['n2'] = n; return None
    def h_tok(cx, f, this_, args, site):
        isdata(cx, args[-1]); lo, hi = box(cx, args[0]); s = [Z(cx.load(a).f['set']) for a in args[1:3]]; grow(cx, z3.And(lo <= W[0], W[0] <= hi, MEM(s[0], W[1]), MEM(s[1], W[2]))); return None
    def inv(cx):
        i = Z(cx.v('i_')); n = cx.data['n2']; f, s = cx.data['r']; cx.data['gcstep'](i); return [('index', z3.And(i >= 0, i <= n, Z(cx.v('size_')) == n)), ('boxes so far', z3.And(gin(cx) == z3.Or(gin(cx, 'old'), z3.And(W[0] == f / 65536, GC(i))), z3.Implies(i > 0, gany(cx)), z3.Implies(gin(cx), gany(cx)))), ('variant', n - i)]
    def ens(cx, r): f, s = cx.data['r']; cx.oblige('exactly the characters of the range are added', gin(cx) == z3.Or(gin(cx, 'old'), z3.And(f <= code(3), code(3) <= s))); cx.oblige('something is added', gany(cx))
    return Contract('slice_range<%s> 24 bit' % inst, func=pfind(inst + ',', 'slice_range', 3, p24), setup=setup, ensures=ens, loops=[inv], summaries=[(npar(7), h_ins(3)), (npar(4), h_tok), INS1, (lambda q, f: q.endswith('::slice_range') and p16(f), h16)])
def byte_insert(inst, n):
    def setup(cx):
        ghost(cx); a = z3.Ints('first second first2 second2 first3 second3')[:2 * n]; cx.assume(z3.And([z3.And(x >= 0, x <= 255) for x in a])); cx.data['a'] = a; return this(cx), list(a) + [dat(cx)]
    def h(cx, f, this_, args, site):
        isdata(cx, args[-1]); grow(cx, z3.And([z3.And(lo <= W[i], W[i] <= hi) for i, (lo, hi) in enumerate(box(cx, a) for a in args[:-1])])); return None
    def ens(cx, r):
        a = cx.data['a']; m = lambda x, y: z3.If(x < y, x, y); M = lambda x, y: z3.If(x < y, y, x); cx.oblige('exactly the box is added', gin(cx) == z3.Or(gin(cx, 'old'), z3.And([z3.And(m(a[2 * i], a[2 * i + 1]) <= W[i], W[i] <= M(a[2 * i], a[2 * i + 1])) for i in range(n)]))); cx.oblige('something is added', gany(cx))
    return Contract('insert_range<%s> bytes %d' % (inst, n), func=pfind(inst + ',', 'insert_range', 2 * n + 1), setup=setup, ensures=ens, loops=[], summaries=[(npar(n + 1), h), INS1])
def eq(cx, f, this_, args, site):
    a, b = [cx.load(x) for x in args]; cx.ex.trust('equal string tokens denote the same set'); return Z(a.f['set']) == Z(b.f['set'])
def mku(cx, el, a, e):
    if 'string_token' not in el.name: return NotImplemented
    t = cx.load(cx.ex.ev(a[0])) if not isinstance(cx.ex.ev(a[0]), S) else cx.ex.ev(a[0]); return S('opt', {'some': True, 'val': t})
def tok_insert(inst, n):
    """the collection read as a union of boxes grows by exactly the box inserted"""
    def setup(cx):
        wit(cx); d = cx.data; N = z3.Int('n'); rows = collection(cx, N, n, 'd'); d['rows'] = cx.cell(rows, 'data_'); d['n'] = N; t = [z3.Int('t%d' % i) for i in range(n)]; d['t'] = t; d['old'] = rows; d['touched'] = cx.cell(z3.IntVal(-1), 'touched')
        a, b, c = z3.Ints('a? b? c?'); cx.assume(z3.ForAll([a, b, c], MEM(UNI(a, b), c) == z3.Or(MEM(a, c), MEM(b, c)), patterns=[MEM(UNI(a, b), c)]))
        return this(cx), [cx.cell(S('tok', {'set': x}), 'token%d' % i) for i, x in enumerate(t)] + [Ad(d['rows'])]
    def h_union(cx, f, this_, args, site):
        ex = cx.ex; a, b = Z(cx.load(this_).f['set']), Z(cx.load(args[0]).f['set']); ex.trust('string_token::insert of a token is the union (L06)'); ex.storev(this_.f('set'), UNI(a, b)); ix = this_.path[1] if len(this_.path) > 1 and isinstance(this_.path[1], tuple) else None
        cx.oblige('a token of the last vector is extended', z3.BoolVal(ix is not None and this_.path[0] == str(n - 1))); ex.storev(cx.data['touched'], ix[1]); return None
    def ens(cx, r):
        d = cx.data; now = cx.load(d['rows']); N = d['n']; x = Z(cx.load(d['touched'])); new = z3.And([MEM(d['t'][i], W[i]) for i in range(n)]); m = Z(now.f['0'].len)
        hit = lambda rows, i: z3.And([MEM(SEL(sets(rows, j), i), W[j]) for j in range(n)])
        cx.oblige('the vectors keep the same length', z3.And([Z(now.f[str(i)].len) == m for i in range(n)]))
        cx.oblige('one box is added or one is extended', z3.Or(z3.And(x == -1, m == N + 1), z3.And(x >= 0, x < N, m == N)))
        for i in range(n): cx.oblige('every pointer is set', fall(0, m, lambda q: SEL(now.f[str(i)].arr.f['some'], q), lambda q: [SEL(now.f[str(i)].arr.f['some'], q)]))
        cx.oblige('all other boxes are unchanged', fall(0, N, lambda q: z3.Or(q == x, hit(now, q) == hit(d['old'], q)), lambda q: [SEL(sets(now, 0), q)]))
        p = z3.If(x == -1, N, x); cx.oblige('the box holds what it held and the one inserted', hit(now, p) == z3.If(x == -1, new, z3.Or(hit(d['old'], p), new)))
    def inv(cx):
        d = cx.data; it = Z(cx.v('iter_').idx); now = cx.load(d['rows']); fin = B(cx, cx.v('finished_')); return [('position', z3.And(it >= 0, it <= d['n'], Z(cx.v('end_').idx) == d['n'])), ('nothing changed yet', z3.And(z3.Not(fin), Z(cx.load(d['touched'])) == -1, *[z3.And(Z(now.f[str(i)].len) == d['n'], sets(now, i) == sets(d['old'], i), now.f[str(i)].arr.f['some'] == z3.K(I_, z3.BoolVal(True))) for i in range(n)])), ('variant', d['n'] - it)]
    return Contract('insert_range<%s> tokens %d' % (inst, n), func=pfind(inst + ',', 'insert_range', n + 1), setup=setup, ensures=ens, loops=[inv] if n == 3 else [], make_unique=mku, summaries=[(lambda q, f: q.endswith('operator=='), eq), (lambda q, f: 'basic_string_token<unsigned char>::insert' in q, h_union)])
# ---- the tree: LEN bytes long, ACC[j] accepts the witness' bytes from j on
TY = dict(LEN=AI, A0=AB, A1=AB, A2=AB)
SETOF = z3.Function('set_of_id', I_, I_)
def heap(cx):
    cx.ex.store[H] = S('heap', {'#elems': S('node', {n: z3.Const('h.' + n, t) for n, t in TY.items()})}); cx.data['alloc'] = cx.cell(z3.Int('allocated'), 'allocated'); cx.assume(z3.Int('allocated') > 0)
def fld(cx, a, f, snap=None): return cx.load(LV(H, (('i', Z(a)), f)), snap)
def nd(cx, a, snap=None): return Z(fld(cx, a, 'LEN', snap)), [B(cx, fld(cx, a, 'A%d' % j, snap)) for j in range(3)]
def new(cx, ln, acc):
    ex = cx.ex; al = Z(cx.load(cx.data['alloc'])); ex.storev(cx.data['alloc'], al + 1); lv = LV(H, (('i', al),)); ex.storev(lv.f('LEN'), ln)
    for j in range(3): ex.storev(lv.f('A%d' % j), acc[j])
    return al
def mk(cx, el, a, e):
    ex = cx.ex; nm = el.name
    if 'token' in nm and 'node' not in nm: return Op('tok')
    args = [Z(ex.rv(x)) for x in a]
    if 'leaf_node' in nm: return new(cx, z3.IntVal(1), [MEM(SETOF(args[0]), W[j]) for j in range(3)])
    for x in args[:2]: cx.oblige('operands are existing nodes', z3.And(x > 0, x < Z(cx.load(cx.data['alloc']))))
    (l, a1), (l2, a2) = nd(cx, args[0]), nd(cx, args[1])
    if 'sequence_node' in nm:
        at = lambda i: z3.If(i == 0, a2[0], z3.If(i == 1, a2[1], z3.If(i == 2, a2[2], z3.BoolVal(False)))); return new(cx, l + l2, [z3.And(a1[j], at(l + j)) for j in range(3)])
    if 'selection_node' in nm: cx.oblige('the alternatives are equally long', l == l2); return new(cx, l, [z3.Or(a1[j], a2[j]) for j in range(3)])
    return NotImplemented
def stk(cx):
    d = cx.data; heap(cx); s = cx.fresh(Ty('vec', [Ty('int', (64, True))], 'stack'), 'trees'); own = cx.fresh(Ty('vec', [Ty('int', (64, True))]), 'owners'); q = z3.Int('q?')
    cx.assume(z3.And(Z(s.len) >= 0, Z(s.len) < 2 ** 40, Z(own.len) < 2 ** 40)); cx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Z(s.len)), z3.And(SEL(s.arr, q) > 0, SEL(s.arr, q) < z3.Int('allocated'))), patterns=[SEL(s.arr, q)])); d['this'] = this(cx, _node_ptr_vector=own, _tree_node_stack=s); return d['this']
def trees(cx, snap=None): return cx.load(cx.data['this'].f('_tree_node_stack'), snap)
def top(cx): s = trees(cx); return SEL(s.arr, Z(s.len) - 1)
def pushed(cx, k=1):
    s, o = trees(cx), trees(cx, 'old'); al = Z(cx.load(cx.data['alloc'])); return z3.And(Z(s.len) == Z(o.len) + k, top(cx) > 0, top(cx) < al, fall(0, Z(o.len), lambda q: SEL(s.arr, q) == SEL(o.arr, q), lambda q: [SEL(s.arr, q)]))
def push_range(inst):
    def setup(cx): wit(cx); t = stk(cx); s = z3.Int('set'); cx.data['s'] = s; return t, [Ad(cx.cell(S('tok', {'set': s}), 'token_'))]
    def h(cx, f, this_, args, site): i = z3.Int(cx.ex.fresh_name('id')); cx.assume(z3.And(i >= 0, i < 0xfffc, SETOF(i) == Z(cx.load(args[0]).f['set']))); return i
    def ens(cx, r): l, a = nd(cx, top(cx)); cx.oblige('one leaf is pushed', pushed(cx)); cx.oblige('the leaf is the set of the token', z3.And(l == 1, *[a[j] == MEM(cx.data['s'], W[j]) for j in range(3)]))
    return Contract('push_range<%s>' % inst, func=pfind(inst + ',', 'push_range', 1), setup=setup, ensures=ens, loops=[], heap=('_node',), make_unique=mk, summaries=[(sub('lookup'), h)])
def h_push(cx, f, this_, args, site):
    ex = cx.ex; s = Z(cx.load(args[0].lv).f['set']); al = new(cx, z3.IntVal(1), [MEM(s, W[j]) for j in range(3)]); lv = this_.f('_tree_node_stack'); v = cx.load(lv); ex.storev(lv, V(v.ety, Z(v.len) + 1, z3.Store(v.arr, Z(v.len), al))); return None
def push_ranges(inst, n):
    def setup(cx):
        wit(cx); t = stk(cx); N = z3.Int('n'); rows = collection(cx, N, n, 'd'); gcdef(cx, rows, n, 0); cx.data['n'] = N; cx.assume(N >= 1); return t, [Ad(cx.cell(rows, 'data_')), S('tag', {})]
    def inv(cx):
        i = Z(cx.v('viter_').idx); N = cx.data['n']; cx.data['gcstep'](i); cx.data['gcstep'](z3.IntVal(0)); l, a = nd(cx, top(cx)); its = [Z(cx.v('viter%d_' % k).idx) == i for k in range(2, n + 1)]
        return [('position', z3.And(i >= 1, i <= N, *its)), ('stack', pushed(cx)), ('boxes so far', z3.And(l == n, a[0] == GC(i))), ('variant', N - i)]
    def ens(cx, r): l, a = nd(cx, top(cx)); cx.oblige('one tree is pushed', pushed(cx)); cx.oblige('the tree accepts exactly the boxes', z3.And(l == n, a[0] == GC(cx.data['n'])))
    return Contract('push_ranges<%s> %d' % (inst, n), func=pfind(inst + ',', 'push_ranges', 2, p24 if n == 3 else p16), setup=setup, ensures=ens, loops=[inv], heap=('_node',), make_unique=mk, summaries=[(sub('push_range'), h_push)])
RC = z3.Function('some_range_upto', I_, B_)
def sequence(inst, n):
    def setup(cx):
        wit(cx); t = stk(cx); d = cx.data; v = cx.fresh(Ty('vec', [parse_type('std::pair<%s, %s>' % (('char16_t',) * 2 if n == 2 else ('char32_t',) * 2))]), 'ranges'); m = 0xffff if n == 2 else 0x10ffff
        q = z3.Int('q?'); F, L = v.arr.f['first'], v.arr.f['second']; cx.assume(z3.And(Z(v.len) >= 1, Z(v.len) < 2 ** 40)); cx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Z(v.len)), z3.And(SEL(F, q) >= 0, SEL(F, q) <= SEL(L, q), SEL(L, q) <= m)), patterns=[SEL(F, q)]))
        hit = lambda i: z3.And(SEL(F, i) <= code(n), code(n) <= SEL(L, i)); cx.assume(z3.Not(RC(0))); d['rc'] = lambda t: cx.assume(z3.Implies(t >= 0, RC(t + 1) == z3.Or(RC(t), hit(t)))); d['v'] = v; d['in'] = cx.cell(z3.BoolVal(False), 'in'); d['any'] = cx.cell(z3.BoolVal(False), 'any')
        tok = S('opt', {'some': True, 'val': S(parse_type('rec token'), {'_type': z3.Int('_type'), '_extra': Op('extra'), '_str': S('tok', {'_ranges': v})})}); return t, [cx.cell(tok, 'token_')]
    def h_slice(cx, f, this_, args, site):
        r = cx.load(args[0]); a, b = Z(r.f['first']), Z(r.f['second']); cx.oblige('a range of characters', z3.And(a >= 0, a <= b, b <= (0xffff if n == 2 else 0x10ffff))); cx.oblige('the slicing fits the character type', z3.BoolVal(p24(f) == (n == 3))); cx.data['coll'] = args[1].lv
        grow(cx, z3.And(a <= code(n), code(n) <= b)); return None
    def h_pr(cx, f, this_, args, site):
        cx.oblige('the slicing fits the character type', z3.BoolVal(p24(f) == (n == 3))); cx.oblige('the collection is not empty', gany(cx)); ex = cx.ex; al = new(cx, z3.IntVal(n), [gin(cx), z3.BoolVal(False), z3.BoolVal(False)]); lv = this_.f('_tree_node_stack'); v = cx.load(lv); ex.storev(lv, V(v.ety, Z(v.len) + 1, z3.Store(v.arr, Z(v.len), al))); return None
    def inv(cx): i = Z(cx.v('__begin').idx); cx.data['rc'](i); return [('range', z3.And(i >= 0, i <= Z(cx.v('__end').idx))), ('ranges so far', z3.And(gin(cx) == RC(i), gany(cx) == (i > 0)))]
    def ens(cx, r): l, a = nd(cx, top(cx)); cx.oblige('one tree is pushed', pushed(cx)); cx.oblige('the tree accepts exactly the bytes of the characters in the ranges', z3.And(l == n, a[0] == RC(Z(cx.data['v'].len))))
    def opm(cx, o, name, lv, argn, e): return None
    return Contract('create_sequence<%s>' % inst, func=pfind(inst + ',', 'create_sequence', 1), setup=setup, ensures=ens, loops=[inv], heap=('_node',), make_unique=mk, opmethod=opm, summaries=[(sub('slice_range'), h_slice), (sub('push_ranges'), h_pr)])
# ---- lookup: the same id for the same set, different ids for different sets, never a reserved id
ET = 0xfffd
def mapspec(cx, o):
    """ids are below the size and belong to one set only"""
    a, b = z3.Ints('a? b?'); v, m = o.f['val'], o.f['mem']; return z3.And(Z(o.f['size']) >= 0, z3.ForAll([a], z3.Implies(SEL(m, a), z3.And(SEL(v, a) >= 0, SEL(v, a) < Z(o.f['size']), SEL(v, a) < ET)), patterns=[SEL(m, a)]), z3.ForAll([a, b], z3.Implies(z3.And(SEL(m, a), SEL(m, b), a != b), SEL(v, a) != SEL(v, b)), patterns=[z3.MultiPattern(SEL(m, a), SEL(m, b))]))
def lookup(inst):
    def setup(cx):
        m = S('map', {'mem': z3.Const('known', AB), 'size': z3.Int('known.size'), 'val': z3.Const('ids', AI)}); cx.assume(z3.And(mapspec(cx, m), Z(m.f['size']) <= ET)); cx.data['this'] = this(cx, _charset_map=m); cx.data['k'] = z3.Int('set'); return cx.data['this'], [cx.cell(S('tok', {'set': z3.Int('set')}), 'charset_')]
    def mp(cx, s=None): return cx.load(cx.data['this'].f('_charset_map'), s)
    def key(cx, v): v = cx.load(v) if isinstance(v, LV) else v; return Z(v.f['set'])
    def ens(cx, r):
        k = cx.data['k']; n, o = mp(cx), mp(cx, 'old'); a = z3.Int('a?'); r = Z(r); cx.oblige('the set is known by that id', z3.And(SEL(n.f['mem'], k), SEL(n.f['val'], k) == r)); cx.oblige('reserved ids are not given out', r < ET); cx.oblige('every set has its own id', mapspec(cx, n))
        cx.oblige('no other set is affected', z3.ForAll([a], z3.Implies(a != k, z3.And(SEL(n.f['mem'], a) == SEL(o.f['mem'], a), z3.Implies(SEL(o.f['mem'], a), SEL(n.f['val'], a) == SEL(o.f['val'], a)))))); cx.oblige('a known set keeps its id', z3.Implies(SEL(o.f['mem'], k), r == SEL(o.f['val'], k))); cx.oblige('the count is exact', Z(n.f['size']) == Z(o.f['size']) + z3.If(SEL(o.f['mem'], k), 0, 1))
    def thr(cx, exc): o = mp(cx, 'old'); cx.oblige('only a full set of ids is reported', z3.And(z3.Not(SEL(o.f['mem'], cx.data['k'])), Z(o.f['size']) >= ET))
    return Contract('lookup<%s>' % inst, func=pfind(inst + ',', 'lookup', 1), setup=setup, ensures=ens, throws=thr, loops=[], mapkey=key)
CS = []
for inst, n in (('char16_t', 2), ('char32_t', 3)):
    CS += [slice16(inst), byte_insert(inst, n), tok_insert(inst, n), push_range(inst), push_ranges(inst, n), sequence(inst, n), lookup(inst)]
    if n == 3: CS += [slice24(inst), byte_insert(inst, 2), tok_insert(inst, 2)]
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'proof'
SEARCH = ['L05.cpp']
RULE = 'random classes over char16_t and char32_t whose range ends sit next to byte and plane boundaries, through rules, generator and lookup, against every character near those boundaries'
ASSUMPTIONS = ['the byte order of lookup is covered by L01', 'string_token::insert is exact (L06)', 'sequence and selection nodes denote concatenation and alternation (L08, L09)', 'ranges end at 0xffff (char16_t) or 0x10ffff (char32_t) and are not empty, as the tokeniser checks']
BUDGET = 20
