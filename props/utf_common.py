"""Shared pieces of the UTF contracts (L13, L14): specification functions taken from the
UTF-8 (RFC 3629) and UTF-16 (RFC 2781) definitions, not from the code."""
import z3
from vc.exec import *
from vc.sym import *

BV = z3.BitVecVal
def z32(b): return z3.ZeroExt(32 - b.size(), b)

def bytesel(V, i): return z3.Select(V.arr, Z(i))

# ---- RFC 3629: well-formed byte sequences of length n at position i and the code point they denote
def u8_parts(V, i, N):
    i = Z(i)
    b = [bytesel(V, z3.simplify(i + k)) for k in range(4)]
    rng = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
    t = lambda x: rng(x, 0x80, 0xbf)
    n1 = z3.And(i < N, z3.ULE(b[0], 0x7f))
    n2 = z3.And(i + 1 < N, rng(b[0], 0xc2, 0xdf), t(b[1]))
    n3 = z3.And(i + 2 < N, z3.Or(z3.And(b[0] == 0xe0, rng(b[1], 0xa0, 0xbf)), z3.And(rng(b[0], 0xe1, 0xec), t(b[1])),
                                 z3.And(b[0] == 0xed, rng(b[1], 0x80, 0x9f)), z3.And(rng(b[0], 0xee, 0xef), t(b[1]))), t(b[2]))
    n4 = z3.And(i + 3 < N, z3.Or(z3.And(b[0] == 0xf0, rng(b[1], 0x90, 0xbf)), z3.And(rng(b[0], 0xf1, 0xf3), t(b[1])),
                                 z3.And(b[0] == 0xf4, rng(b[1], 0x80, 0x8f))), t(b[2]), t(b[3]))
    B = [z32(x) for x in b]
    lo6 = lambda x: x & 0x3f
    c1 = B[0]
    c2 = ((B[0] & 0x1f) << 6) | lo6(B[1])
    c3 = ((B[0] & 0x0f) << 12) | (lo6(B[1]) << 6) | lo6(B[2])
    c4 = ((B[0] & 0x07) << 18) | (lo6(B[1]) << 12) | (lo6(B[2]) << 6) | lo6(B[3])
    return [(n1, 1, c1), (n2, 2, c2), (n3, 3, c3), (n4, 4, c4)]

def u8_wf(V, i, N): return z3.Or(*[w for w, n, c in u8_parts(V, i, N)])
def u8_len(V, i, N):
    r = z3.IntVal(1)
    for w, n, c in u8_parts(V, i, N)[1:]: r = z3.If(w, z3.IntVal(n), r)
    return r
def u8_cp(V, i, N):
    p = u8_parts(V, i, N); r = p[0][2]
    for w, n, c in p[1:]: r = z3.If(w, c, r)
    return r

# ---- RFC 3629: encoding of a code point (<= 0x10ffff): (count, [bytes])
def u8_enc(c):
    e = lambda x: z3.Extract(7, 0, x)
    cnt = z3.If(z3.ULT(c, 0x80), z3.IntVal(1), z3.If(z3.ULT(c, 0x800), z3.IntVal(2), z3.If(z3.ULT(c, 0x10000), z3.IntVal(3), z3.IntVal(4))))
    L = lambda s: z3.LShR(c, s)
    t = lambda s: e((L(s) & 0x3f) | 0x80)
    by = [z3.If(cnt == 1, e(c), z3.If(cnt == 2, e(L(6) | 0xc0), z3.If(cnt == 3, e(L(12) | 0xe0), e(L(18) | 0xf0)))),
          z3.If(cnt == 2, t(0), z3.If(cnt == 3, t(6), t(12))),
          z3.If(cnt == 3, t(0), t(6)), t(0)]
    return cnt, by

# ---- RFC 2781
def u16_parts(V, i, N):
    i = Z(i)
    a, b = bytesel(V, i), bytesel(V, z3.simplify(i + 1))
    w = a.size()
    if w < 32: a, b = z3.ZeroExt(32 - w, a), z3.ZeroExt(32 - w, b)
    rng = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
    n1 = z3.And(i < N, z3.ULE(a, 0xffff), z3.Not(rng(a, 0xd800, 0xdfff)))
    n2 = z3.And(i + 1 < N, rng(a, 0xd800, 0xdbff), rng(b, 0xdc00, 0xdfff))
    return [(n1, 1, a), (n2, 2, (((a - 0xd800) << 10) | (b - 0xdc00)) + 0x10000)]
def u16_wf(V, i, N): return z3.Or(*[w for w, n, c in u16_parts(V, i, N)])
def u16_len(V, i, N): return z3.If(u16_parts(V, i, N)[1][0], z3.IntVal(2), z3.IntVal(1))
def u16_cp(V, i, N):
    p = u16_parts(V, i, N); return z3.If(p[1][0], p[1][2], p[0][2])
def u16_enc(c, w):
    cnt = z3.If(z3.ULT(c, 0x10000), z3.IntVal(1), z3.IntVal(2))
    f = (lambda x: z3.Extract(w - 1, 0, x)) if w < 32 else (lambda x: x)
    d = c - 0x10000
    return cnt, [z3.If(cnt == 1, f(c), f(z3.LShR(d, 10) + 0xd800)), f((d & 0x3ff) + 0xdc00)]

def fn_in(unit, rec, name, npar=None):
    """member function (or hidden friend) of an instantiated class"""
    out = [n for q, n in unit.funcs if q.startswith(rec + '::') and n.get('name') == name and (npar is None or len(params_of(n)) == npar)]
    if not out: raise ExtractError(f'{rec}::{name} not found')
    return out[-1]
from vc.front import params_of, ExtractError

def in_contracts(rec, elem, charty, wf, ln, cp, label):
    """contracts of basic_utf8_in_iterator / basic_utf16_in_iterator: constructor, ++, ++(int), *, ==, !=, +, -"""
    cs = []
    def buf(cx):
        b = cx.cell(cx.fresh(Ty('vec', [parse_type(elem)]), 'buf'), 'buf')
        return b, cx.load(b)
    def state(cx, b, it, end, N):
        r = cx.ex.find_record(rec)
        w = parse_type(charty).a[0]
        return S(r, {'_it': It(b, it), '_end': It(b, end), '_eoi': It(b, N), '_char': z3.BitVec(cx.ex.fresh_name('ch'), w)})
    def post(cx, this, i, bv, N):
        s = cx.load(this)
        i = Z(i)
        cx.oblige('position is where decoding started', Z(s.f['_it'].idx) == i)
        cx.oblige('end of input is unchanged', Z(s.f['_eoi'].idx) == N)
        cx.oblige('well-formed: exactly the code point', z3.Implies(wf(bv, i, N), s.f['_char'] == z32(cp(bv, i, N)) if s.f['_char'].size() == 32 else z3.ZeroExt(32 - s.f['_char'].size(), s.f['_char']) == cp(bv, i, N)))
        cx.oblige('well-formed: exactly its units are consumed', z3.Implies(wf(bv, i, N), Z(s.f['_end'].idx) == i + ln(bv, i, N)))
        cx.oblige('progress within the input', z3.Implies(i < N, z3.And(Z(s.f['_end'].idx) > i, Z(s.f['_end'].idx) <= N)))
        cx.oblige('at end of input nothing moves', z3.Implies(i == N, Z(s.f['_end'].idx) == N))
    def thr(pos):
        def f(cx, e):
            b = cx.names['buf']; bv = cx.load(b)
            cx.oblige('only malformed input is rejected', z3.And(pos(cx) < bv.len, z3.Not(wf(bv, pos(cx), bv.len))))
            cx.oblige('rejected with range_error', 'range_error' in e.ty)
        return f
    # constructor
    def s1(cx):
        b, bv = buf(cx); i = z3.Int('i0'); cx.assume(z3.And(i >= 0, i <= bv.len)); cx.data['i'] = i
        this = cx.cell(cx.ex.zero_shape(Ty('rec', [], rec)), 'this')
        return this, [It(b, i), It(b, bv.len)]
    def e1(cx, ret):
        bv = cx.load(cx.names['buf']); post(cx, cx.names['this'], cx.data['i'], bv, bv.len)
    cname = rec.split('::')[1].split('<')[0]
    cs.append(Contract(label + '::constructor', mode='bv', func=lambda u: fn_in(u, rec, cname, 2), setup=s1, ensures=e1, throws=thr(lambda cx: cx.data['i'])))
    # ++ / ++(int)
    def s2(n):
        def f(cx):
            b, bv = buf(cx); i, j = z3.Int('i0'), z3.Int('j0')
            cx.assume(z3.And(i >= 0, i <= j, j <= bv.len)); cx.data['j'] = j
            this = cx.cell(state(cx, b, i, j, bv.len), 'this')
            return this, [0] * n
        return f
    def e2(cx, ret):
        bv = cx.load(cx.names['buf']); post(cx, cx.names['this'], cx.data['j'], bv, bv.len)
    def e3(cx, ret):
        e2(cx, ret)
        o = cx.old(cx.names['this']); r = ret if isinstance(ret, S) else cx.load(ret)
        cx.oblige('post-increment returns the previous iterator', z3.And(Z(r.f['_it'].idx) == Z(o.f['_it'].idx), Z(r.f['_end'].idx) == Z(o.f['_end'].idx), r.f['_char'] == o.f['_char']))
    cs.append(Contract(label + '::operator++()', mode='bv', func=lambda u: fn_in(u, rec, 'operator++', 0), setup=s2(0), ensures=e2, throws=thr(lambda cx: cx.data['j'])))
    cs.append(Contract(label + '::operator++(int)', mode='bv', func=lambda u: fn_in(u, rec, 'operator++', 1), setup=s2(1), ensures=e3, throws=thr(lambda cx: cx.data['j'])))
    # dereference
    def e4(cx, ret): cx.oblige('dereference yields the decoded character', cx.ex.val(ret) == cx.load(cx.names['this']).f['_char'])
    cs.append(Contract(label + '::operator*', mode='bv', func=lambda u: fn_in(u, rec, 'operator*', 0), setup=s2(0), ensures=e4))
    # == / !=
    def s5(cx):
        b, bv = buf(cx); i, j, k, l = z3.Ints('i0 j0 k0 l0'); cx.data['ik'] = (i, k)
        cx.assume(z3.And(0 <= i, i <= j, j <= bv.len, 0 <= k, k <= l, l <= bv.len))
        return None, [cx.cell(state(cx, b, i, j, bv.len), 'a'), cx.cell(state(cx, b, k, l, bv.len), 'b')]
    cs.append(Contract(label + '::operator==', mode='bv', func=lambda u: fn_in(u, rec, 'operator==', 2), setup=s5,
                       ensures=lambda cx, r: cx.oblige('equal exactly at the same position', Z(cx.ex.val(r)) == (cx.data['ik'][0] == cx.data['ik'][1]))))
    cs.append(Contract(label + '::operator!=', mode='bv', func=lambda u: fn_in(u, rec, 'operator!=', 2), setup=s5,
                       ensures=lambda cx, r: cx.oblige('unequal exactly at different positions', Z(cx.ex.val(r)) == (cx.data['ik'][0] != cx.data['ik'][1]))))
    # operator+ / operator- over a whole well-formed buffer: ghost boundary function B
    def ghost(cx):
        b, bv = buf(cx); N = bv.len
        B = z3.Function('B', z3.IntSort(), z3.IntSort()); M = z3.Int('M'); k = z3.Int('k')
        cx.assume(z3.And(M >= 0, B(0) == 0, B(M) == N))
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < M), z3.And(wf(bv, B(k), N), B(k + 1) == B(k) + ln(bv, B(k), N), B(k) >= 0, B(k) < N, B(k + 1) <= N)), patterns=[B(k)]))
        return b, bv, N, B, M
    def at(cx, s, b, bv, N, B, M, k, char=True):
        """iterator state s stands on code point number k"""
        f = [k >= 0, k <= M, Z(s.f['_it'].idx) == B(k), Z(s.f['_eoi'].idx) == N,
             z3.Implies(k < M, Z(s.f['_end'].idx) == B(k + 1)), z3.Implies(k == M, Z(s.f['_end'].idx) == N)]
        if char: f.append(z3.Implies(k < M, s.f['_char'] == cp(bv, B(k), N)))
        return f
    def s6(minus):
        def f(cx):
            b, bv, N, B, M = ghost(cx)
            K = z3.Int('K'); i, j = z3.Ints('i0 j0'); cnt = cx.fresh('unsigned long', 'cnt')
            n = cnt
            st = state(cx, b, i, j, N)
            cx.assume(z3.And(*at(cx, st, b, bv, N, B, M, K)))
            cx.assume(n <= (K if minus else M - K))
            cx.data.update(g=(b, bv, N, B, M), K=K, n=n, cnt=cnt)
            return None, [cx.cell(st, 'lhs'), cnt]
        return f
    def inv6(sign):
        def inv(cx):
            b, bv, N, B, M = cx.data['g']; s = cx.v('temp_'); i = cx.v('i_'); K = cx.data['K']
            ii = Z(i)
            k = z3.simplify(K + ii) if sign > 0 else z3.simplify(K - ii)
            return [('counter in range', z3.And(Z(i) >= 0, Z(i) <= cx.data['cnt']))] + [('iterator is on the right code point (%d)' % q, f) for q, f in enumerate(at(cx, s, b, bv, N, B, M, k, char=sign > 0))] + ([] if sign > 0 else [('previous boundary', z3.Implies(k >= 1, B(z3.simplify(k - 1)) < B(k)))])
        return inv
    def inv6b(cx):
        b, bv, N, B, M = cx.data['g']; s = cx.v('temp_'); i = cx.v('i_'); K = cx.data['K']
        ii = Z(i); k = z3.simplify(K - ii)
        return [('walks back inside the previous code point', z3.And(B(z3.simplify(k - 1)) <= Z(s.f['_it'].idx), Z(s.f['_it'].idx) < B(k), Z(s.f['_it'].idx) >= 0)),
                ('end is the old position', Z(s.f['_end'].idx) == B(k)), ('in range', z3.And(k >= 1, Z(i) < cx.data['cnt'])),
                ('variant', Z(s.f['_it'].idx))]
    def e6(sign):
        def f(cx, ret):
            b, bv, N, B, M = cx.data['g']; s = ret if isinstance(ret, S) else cx.load(ret); K = cx.data['K']; n = cx.data['n']
            for q, g in enumerate(at(cx, s, b, bv, N, B, M, K + n if sign > 0 else K - n)): cx.oblige('moves by exactly count code points (%d)' % q, g)
        return f
    cs.append(Contract(label + '::operator+', mode='bv', int64=True, func=lambda u: fn_in(u, rec, 'operator+', 2), setup=s6(False), ensures=e6(1), loops=[inv6(1)]))
    cs.append(Contract(label + '::operator-', mode='bv', int64=True, func=lambda u: fn_in(u, rec, 'operator-', 2), setup=s6(True), ensures=e6(-1), loops=[inv6(-1), inv6b] if 'utf8' in rec else [inv6(-1)]))
    return cs

def out_contracts(rec, elem, field, outw, enc, maxn, label):
    cs = []
    def buf(cx):
        b = cx.cell(cx.fresh(Ty('vec', [parse_type(elem)]), 'buf'), 'buf'); return b, cx.load(b)
    def cpat(bv, i):
        c = bytesel(bv, i); return c if c.size() == 32 else z32(c)
    def valid(bv, i): return z3.ULE(cpat(bv, i), 0x10ffff)
    def enc_is(s, c):
        cnt, by = enc(c)
        ok = z3.And(z3.BV2Int(s.f['_count']) == cnt, s.f['_index'] == 0 if isz(s.f['_index']) else z3.BoolVal(s.f['_index'] == 0))
        for k, x in enumerate(by): ok = z3.And(ok, z3.Implies(cnt > k, z3.Select(s.f[field].arr, z3.IntVal(k)) == x))
        return ok
    def bv8(x): return z3.BitVecVal(x, 8) if isinstance(x, int) else x
    def post(cx, i):
        bv = cx.load(cx.names['buf']); s = cx.load(cx.names['this'])
        s = s.set('_count', bv8(s.f['_count'])).set('_index', bv8(s.f['_index']))
        cx.oblige('position', Z(s.f['_it'].idx) == i)
        cx.oblige('exactly the encoded form of the code point', z3.Implies(z3.And(i < bv.len, valid(bv, i)), enc_is(s, cpat(bv, i))))
    def s1(cx):
        b, bv = buf(cx); i = z3.Int('i0'); cx.assume(z3.And(i >= 0, i <= bv.len)); cx.data['i'] = i
        return cx.cell(cx.ex.zero_shape(Ty('rec', [], rec)), 'this'), [It(b, i), It(b, bv.len)]
    cname = rec.split('::')[1].split('<')[0]
    cs.append(Contract(label + '::constructor', mode='bv', func=lambda u: fn_in(u, rec, cname, 2), setup=s1, ensures=lambda cx, r: post(cx, cx.data['i'])))
    def s2(n):
        def f(cx):
            b, bv = buf(cx); i = z3.Int('i0'); cx.assume(z3.And(i >= 0, i < bv.len)); cx.data['i'] = i
            r = cx.ex.find_record(rec)
            arr = cx.fresh(Ty('arr', [Ty('int', (outw, outw == 8))], str(maxn)), 'by')
            c, x = z3.BitVecs('cnt idx', 8)
            s = S(r, {'_it': It(b, i), '_eoi': It(b, bv.len), field: arr, '_count': c, '_index': x})
            cx.assume(valid(bv, i)); cx.assume(enc_is(s.set('_index', BV(0, 8)), cpat(bv, i))); cx.assume(z3.ULT(x, c))
            return cx.cell(s, 'this'), [0] * n
        return f
    def e2(post_inc):
        def f(cx, ret):
            bv = cx.load(cx.names['buf']); s = cx.load(cx.names['this']); o = cx.old(cx.names['this']); i = cx.data['i']
            s = s.set('_count', bv8(s.f['_count'])).set('_index', bv8(s.f['_index']))
            last = z3.UGE(o.f['_index'] + 1, o.f['_count'])
            cx.oblige('next unit of the same code point', z3.Implies(z3.Not(last), z3.And(Z(s.f['_it'].idx) == i, s.f['_index'] == o.f['_index'] + 1, s.f['_count'] == o.f['_count'], *[z3.Select(s.f[field].arr, z3.IntVal(k)) == z3.Select(o.f[field].arr, z3.IntVal(k)) for k in range(maxn)])))
            cx.oblige('after the last unit the next code point starts', z3.Implies(last, z3.And(Z(s.f['_it'].idx) == i + 1, z3.Implies(z3.And(i + 1 < bv.len, valid(bv, i + 1)), enc_is(s, cpat(bv, z3.simplify(i + 1)))))))
            if post_inc:
                r = ret if isinstance(ret, S) else cx.load(ret)
                cx.oblige('post-increment returns the previous iterator', z3.And(Z(r.f['_it'].idx) == i, r.f['_index'] == o.f['_index'], r.f['_count'] == o.f['_count'], *[z3.Select(r.f[field].arr, z3.IntVal(k)) == z3.Select(o.f[field].arr, z3.IntVal(k)) for k in range(maxn)]))
        return f
    cs.append(Contract(label + '::operator++()', mode='bv', func=lambda u: fn_in(u, rec, 'operator++', 0), setup=s2(0), ensures=e2(False)))
    cs.append(Contract(label + '::operator++(int)', mode='bv', func=lambda u: fn_in(u, rec, 'operator++', 1), setup=s2(1), ensures=e2(True)))
    def e4(cx, ret):
        o = cx.old(cx.names['this']); bv = cx.load(cx.names['buf']); cnt, by = enc(cpat(bv, cx.data['i'])); r = cx.ex.val(ret)
        for k, x in enumerate(by): cx.oblige('dereference yields unit %d of the encoding' % k, z3.Implies(o.f['_index'] == k, r == x))
    cs.append(Contract(label + '::operator*', mode='bv', func=lambda u: fn_in(u, rec, 'operator*', 0), setup=s2(0), ensures=e4))
    def s5(cx):
        b, bv = buf(cx); i, k = z3.Ints('i0 k0'); cx.assume(z3.And(0 <= i, i <= bv.len, 0 <= k, k <= bv.len)); cx.data['ik'] = (i, k)
        def mk(n, i):
            r = cx.ex.find_record(rec)
            arr = cx.fresh(Ty('arr', [Ty('int', (outw, outw == 8))], str(maxn)), 'by')
            return cx.cell(S(r, {'_it': It(b, i), '_eoi': It(b, bv.len), field: arr, '_count': z3.BitVec('c' + n, 8), '_index': z3.BitVec('x' + n, 8)}), n)
        return None, [mk('a', i), mk('b', k)]
    cs.append(Contract(label + '::operator==', mode='bv', func=lambda u: fn_in(u, rec, 'operator==', 2), setup=s5,
                       ensures=lambda cx, r: cx.oblige('equal exactly at the same position', Z(cx.ex.val(r)) == (cx.data['ik'][0] == cx.data['ik'][1]))))
    cs.append(Contract(label + '::operator!=', mode='bv', func=lambda u: fn_in(u, rec, 'operator!=', 2), setup=s5,
                       ensures=lambda cx, r: cx.oblige('unequal exactly at different positions', Z(cx.ex.val(r)) == (cx.data['ik'][0] != cx.data['ik'][1]))))
    return cs

def roundtrip(outrec, inrec, outw, outty, incharw, label, maxn):
    """lemma over the real code: decode(encode(c)) == c for every code point c"""
    def run(cx):
        ex = cx.ex; u = ex.u
        src = cx.cell(cx.fresh(Ty('vec', [parse_type('char32_t')]), 'src'), 'src'); sv = cx.load(src)
        cx.assume(sv.len == 1); c = z3.Select(sv.arr, z3.IntVal(0))
        cx.assume(z3.ULE(c, 0x10ffff))
        if outw != 8: cx.assume(z3.Not(z3.And(z3.UGE(c, 0xd800), z3.ULE(c, 0xdfff))))
        this = cx.cell(ex.zero_shape(Ty('rec', [], outrec)), 'out')
        oname = outrec.split('::')[1].split('<')[0]
        ex.frames.append(Frame({'name': 'lemma', 'type': {'qualType': 'void ()'}}))
        ex.call_body(fn_in(u, outrec, oname, 2), this, [It(src, 0), It(src, 1)])
        fresh = cx.fresh(Ty('vec', [parse_type(outty)]), 'dst')
        dst = cx.cell(V(fresh.ety, 0, fresh.arr), 'dst')
        n = 0
        while True:
            s = cx.load(this)
            if ex.decide(Z(s.f['_it'].idx) == 1): break
            if n >= maxn + 1: cx.oblige('at most %d units' % maxn, False); raise PathEnd()
            r = ex.val(ex.call_body(fn_in(u, outrec, 'operator*', 0), this, []))
            ex.vpush(dst, r); n += 1
            ex.call_body(fn_in(u, outrec, 'operator++', 0), this, [])
        cnt = cx.load(dst).len
        inn = cx.cell(ex.zero_shape(Ty('rec', [], inrec)), 'in')
        iname = inrec.split('::')[1].split('<')[0]
        ex.call_body(fn_in(u, inrec, iname, 2), inn, [It(dst, 0), It(dst, cnt)])
        s = cx.load(inn)
        cx.oblige('decoding inverts encoding', s.f['_char'] == c)
        cx.oblige('all units are consumed', Z(s.f['_end'].idx) == Z(cnt))
    return Contract(label, mode='bv', run_custom=run)
