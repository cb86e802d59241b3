"""stream_shared_iterator: every iterator stays on its character of the stream while the shared buffer is moved, grown and refilled"""
from .parser_common import *
from .gen_common import *
from vc.exec import ThrowEx
from vc.stl import Std
DRIVER = r'''
#include <algorithm>
#include <cstring>
#include <stdexcept>
#include <lexertl/runtime_error.hpp>
#include <lexertl/stream_shared_iterator.hpp>
template<class It, class S> void use(S& s) { It a(s), b(a), c; c = b; ++b; b++; (void)*b; (void)(a == b); (void)(a != c); }
void f(std::istream& s, std::basic_istream<char32_t>& t) { use<lexertl::stream_shared_iterator>(s); use<lexertl::u32stream_shared_iterator>(t); }
'''
NP = 2 ** 64 - 1; k, J, A = z3.Ints('k? J A'); HP = 'heap:basic_stream_shared_iterator'; u64 = Ty('int', (64, False))
TXT = z3.Const('stream_text', ARR); N = z3.Int('stream_length')                     # the characters of the stream
def make(nm):
    W = {'char': (8, True), 'char32_t': (32, False)}[nm]; ch = Ty('int', W); REC = r'lexertl::basic_stream_shared_iterator<%s>' % nm
    def ff(cls, name, npar, pred=None):
        rx = re.compile(REC + cls + '::' + name + '$')
        def f(u):
            o = [n for q, n in u.funcs if rx.match(spell(q)) and len(params_of(n)) == npar and (pred is None or pred(n))]
            if not o: raise ExtractError('%s not found' % name)
            return o[0]
        return f
    def obj(cx):
        """the buffer shared by the iterators: its clients are distinct live iterators"""
        ex = cx.ex; d = cx.data; n = z3.Int('n_clients'); cl = z3.Const('clients', ARR); d['n'], d['cl'] = n, cl; cx.assume(z3.And(n >= 0, n < 2 ** 32))
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), SEL(cl, k) > 0), patterns=[SEL(cl, k)])); q = z3.Int('q?'); PLACE = z3.Function('place_of_client', I, I); d['place'] = PLACE
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), PLACE(SEL(cl, k)) == k), patterns=[SEL(cl, k)]))                # no iterator is listed twice
        ix = z3.Const('index_of', ARR); d['ix'] = ix; cx.assume(z3.ForAll([k], z3.And(SEL(ix, k) >= 0, SEL(ix, k) <= NP), patterns=[SEL(ix, k)])); ex.store[HP] = S('heap', {'#elems': S('it', {'_index': ix, '_master': z3.Const('master', z3.ArraySort(I, Bo)), '_live': z3.Const('live', z3.ArraySort(I, Bo))})})
        b = cx.fresh(Ty('vec', [ch]), 'buffer'); inc, ln, rc = cx.fresh(u64, 'increment'), cx.fresh(u64, 'len'), cx.fresh(u64, 'refs'); pos = z3.Int('characters_read'); base = z3.Int('base'); d.update(b=b, ln=ln, pos=pos, base=base, inc=inc)
        cx.assume(z3.And(Z(b.len) >= 1, Z(b.len) < 2 ** 40, inc >= 1, inc < 2 ** 40, ln <= Z(b.len), base >= 0, base + ln == pos, 0 <= pos, pos <= N, N < 2 ** 60, z3.Or(ln == Z(b.len), pos == N)))          # short of a full buffer only at the end of the stream
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), SEL(b.arr, k) == SEL(TXT, base + k)), patterns=[SEL(b.arr, k)]))                                                                      # the buffer holds a piece of the text
        rec = [x for x in ex.u.records if re.match(REC + '::shared$', spell(x))][0]; d['pos_lv'] = cx.cell(pos, 'stream position')
        d['this'] = cx.cell(S(rec, {'_ref_count': rc, '_stream': Op('stream'), '_increment': inc, '_len': ln, '_buffer': b, '_clients': V(u64, n, cl)}), 'this'); return d['this']
    idx = lambda cx, s=None: (cx.ex.store if s is None else cx.snaps[s])[HP].f['#elems'].f['_index']
    cli = lambda cx, s=None: cx.load(cx.data['this'].f('_clients'), s)
    def ghost_low(cx): return None
    G = dict(heap=('::shared', 'basic_stream_shared_iterator'))
    rest = lambda cx: [cx.oblige('%s unchanged' % q, cx.ex.same(cx.load(cx.data['this'].f(q)), cx.load(cx.data['this'].f(q), 'old')) if False else Z(cx.load(cx.data['this'].f(q))) == Z(cx.load(cx.data['this'].f(q), 'old'))) for q in ('_len', '_increment', '_ref_count')]
    out = []
    # ---- lowest / highest
    def s_0(cx): return obj(cx), []
    def lowspec(cx, r, cl, n, ix):
        some = z3.Exists([k], z3.And(0 <= k, k < n, SEL(ix, SEL(cl, k)) == r)); below = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), SEL(ix, SEL(cl, k)) >= r), patterns=[SEL(cl, k)]); return some, below
    def L_low(cx):
        d = cx.data; i = Z(cx.v('iter_').idx); l = Z(cx.v('lowest_')); w = z3.Int('low_at'); return [('position', z3.And(0 <= i, i <= d['n'])), ('no iterator passed is lower', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), SEL(d['ix'], SEL(d['cl'], k)) >= l), patterns=[SEL(d['cl'], k)])), ('it is the index of an iterator', z3.And(l >= 0, z3.Or(l == NP, z3.Exists([k], z3.And(0 <= k, k < i, SEL(d['ix'], SEL(d['cl'], k)) == l))))), ('variant', d['n'] - i)]
    def e_low(cx, r):
        d = cx.data; l = Z(r); cx.oblige('the lowest index of a live iterator', z3.Or(z3.And(lowspec(cx, l, d['cl'], d['n'], d['ix'])[0], lowspec(cx, l, d['cl'], d['n'], d['ix'])[1], l != NP), z3.And(l == 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n']), SEL(d['ix'], SEL(d['cl'], k)) == NP), patterns=[SEL(d['cl'], k)]))))
    out.append(Contract('lowest<%s>' % nm, func=ff('::shared', 'lowest', 0), setup=s_0, ensures=e_low, loops=[L_low], **G))
    def hi(cx, h, i):
        d = cx.data; x = lambda q: SEL(d['ix'], SEL(d['cl'], q)); return [('no iterator passed is higher', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i, x(k) != NP), x(k) <= h), patterns=[SEL(d['cl'], k)])), ('it is the index of an iterator', z3.And(h >= 0, h < NP, z3.Or(h == 0, z3.Exists([k], z3.And(0 <= k, k < i, x(k) == h)))))]
    def L_hi(cx): d = cx.data; i = Z(cx.v('iter_').idx); return [('position', z3.And(0 <= i, i <= d['n']))] + hi(cx, Z(cx.v('highest_')), i) + [('variant', d['n'] - i)]
    out.append(Contract('highest<%s>' % nm, func=ff('::shared', 'highest', 0), setup=s_0, ensures=lambda cx, r: [cx.oblige(a, b) for a, b in hi(cx, Z(r), cx.data['n'])] and None, loops=[L_hi], **G))
    # ---- subtract
    def s_sub(cx): t = obj(cx); d = cx.data; l = cx.fresh(u64, 'lowest_'); d['l'] = l; cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n']), SEL(d['ix'], SEL(d['cl'], k)) >= l), patterns=[SEL(d['cl'], k)])); return t, [l]
    def moved(cx, i, s='old'):
        d = cx.data; a, b = idx(cx, s), idx(cx); p = d['place'](A); mem = z3.And(0 <= p, p < i, SEL(d['cl'], p) == A); return [('iterators passed move once, others stay', SEL(b, A) == z3.If(z3.And(mem, SEL(a, A) != NP), SEL(a, A) - d['l'], SEL(a, A))), ('iterators not passed stay', z3.ForAll([k], z3.Implies(z3.And(i <= k, k < d['n']), SEL(b, SEL(d['cl'], k)) == SEL(a, SEL(d['cl'], k))), patterns=[SEL(d['cl'], k)]))]
    def L_sub(cx): d = cx.data; i = Z(cx.v('iter_').idx); return [('position', z3.And(0 <= i, i <= d['n']))] + moved(cx, i) + [('variant', d['n'] - i)]
    def e_sub(cx, r): [cx.oblige(*g) for g in moved(cx, cx.data['n'])]; rest(cx); h, h0 = cx.ex.store[HP].f['#elems'].f, cx.snaps['old'][HP].f['#elems'].f; cx.oblige('flags unchanged', z3.And(h['_master'] == h0['_master'], h['_live'] == h0['_live']))
    out.append(Contract('subtract<%s>' % nm, func=ff('::shared', 'subtract', 1), setup=s_sub, ensures=e_sub, loops=[L_sub], **G))
    # ---- erase
    def s_er(cx): t = obj(cx); p = z3.Int('ptr_'); cx.assume(p > 0); cx.data['p'] = p; return t, [p]
    def e_er(cx, r):
        d = cx.data; c, c0 = cli(cx), cli(cx, 'old'); pl = d['place'](d['p']); n = d['n']; was = z3.And(0 <= pl, pl < n, SEL(d['cl'], pl) == d['p'])
        cx.oblige('an iterator not listed changes nothing', z3.Implies(z3.Not(z3.Exists([k], z3.And(0 <= k, k < n, SEL(d['cl'], k) == d['p']))), z3.And(Z(c.len) == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), SEL(c.arr, k) == SEL(c0.arr, k))))))
        cx.oblige('the iterator leaves the list', z3.Implies(was, z3.And(Z(c.len) == n - 1, z3.Implies(z3.And(0 <= J, J < n - 1), SEL(c.arr, J) == SEL(c0.arr, z3.If(J < pl, J, J + 1)))))); cx.oblige('no iterator moves', idx(cx) == idx(cx, 'old')); rest(cx)
    out.append(Contract('erase<%s>' % nm, func=ff('::shared', 'erase', 1), setup=s_er, ensures=e_er, loops=[], **G))
    # ---- reload_buffer, against the contracts of the three above
    LOW = z3.Int('LOW')
    def h_low(cx, f, this, args, site):
        d = cx.data; a, b = lowspec(cx, LOW, d['cl'], d['n'], idx(cx)); cx.assume(z3.And(a, b, LOW != NP, LOW >= 0)); return LOW
    def h_hi(cx, f, this, args, site): h = z3.Int(cx.ex.fresh_name('HIGH')); d = cx.data; ix = idx(cx); x = lambda q: SEL(ix, SEL(d['cl'], q)); cx.assume(z3.And(h >= 0, h < NP, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n'], x(k) != NP), x(k) <= h), patterns=[SEL(d['cl'], k)]), z3.Or(h == 0, z3.Exists([k], z3.And(0 <= k, k < d['n'], x(k) == h))))); return h
    def h_sub(cx, f, this, args, site):
        d = cx.data; l = Z(args[0]); ix = idx(cx); cx.oblige('no index goes below zero', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n']), SEL(ix, SEL(d['cl'], k)) >= l), patterns=[SEL(d['cl'], k)])); nx = z3.Const(cx.ex.fresh_name('index_of'), ARR); d['subtracted'] = l
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n']), SEL(nx, SEL(d['cl'], k)) == z3.If(SEL(ix, SEL(d['cl'], k)) == NP, NP, SEL(ix, SEL(d['cl'], k)) - l)), patterns=[SEL(d['cl'], k)])); h = cx.ex.store[HP].f['#elems']; cx.ex.store[HP] = S('heap', {'#elems': S('it', dict(h.f, _index=nx))})
    ME = z3.Int('moving_iterator')
    def s_re(cx):
        t = obj(cx); d = cx.data; x = lambda q: SEL(d['ix'], SEL(d['cl'], q)); cx.assume(z3.And(0 <= ME, ME < d['n'], x(ME) == d['ln']))                                     # an iterator has come to the end of the buffer
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d['n']), z3.Or(x(k) == NP, x(k) <= d['ln'])), patterns=[SEL(d['cl'], k)])); d['x0'] = x; return t, []
    def read(cx, op, name, lv, argn, e):
        ex = cx.ex; d = cx.data
        if name == 'read':
            p, n = [ex.rv(a) for a in argn]; p = ex.iterator(p) if hasattr(ex, 'iterator') else p
            if isinstance(p, Ad): p = It(LV(p.lv.cell, p.lv.path[:-1]), p.lv.path[-1][1])
            pos = Z(cx.load(d['pos_lv'])); got = z3.If(n <= N - pos, Z(n), N - pos); v = cx.load(p.base); ex.check('the stream reads into the buffer', z3.And(0 <= Z(p.idx), Z(n) >= 0, Z(p.idx) + Z(n) <= Z(v.len)))
            a = z3.Const(ex.fresh_name('read'), v.arr.sort()); cx.assume(z3.ForAll([k], SEL(a, k) == z3.If(z3.And(Z(p.idx) <= k, k < Z(p.idx) + got), SEL(TXT, pos + k - Z(p.idx)), SEL(v.arr, k)), patterns=[SEL(a, k)])); ex.storev(p.base, V(v.ety, v.len, a)); ex.storev(d['pos_lv'], pos + got); d['got'] = got; ex.trust('std::istream::read / gcount: the next characters of the stream, as many as are left'); return lv
        if name == 'gcount': return d['got']
        raise ExtractError('stream operation ' + name)
    def e_re(cx, r):
        d = cx.data; b = cx.load(d['this'].f('_buffer')); ln = Z(cx.load(d['this'].f('_len'))); pos = Z(cx.load(d['pos_lv'])); ix = idx(cx); x = lambda q: SEL(ix, SEL(d['cl'], q)); nb = d['base'] + LOW
        cx.oblige('true exactly if the stream had more', B(cx, r) == (d['pos'] < N))
        cx.oblige('the buffer still holds a piece of the text', z3.And(ln >= 0, ln <= Z(b.len), z3.Implies(z3.And(0 <= J, J < ln), SEL(b.arr, J) == SEL(TXT, nb + J)))); cx.oblige('it reaches as far as the stream was read', nb + ln == pos)
        cx.oblige('a buffer that is not full means the end of the stream', z3.Or(ln == Z(b.len), pos == N))
        cx.oblige('every iterator stays on its character', z3.Implies(z3.And(0 <= J, J < d['n'], d['x0'](J) != NP), z3.And(x(J) != NP, nb + x(J) == d['base'] + d['x0'](J), x(J) >= 0, x(J) <= ln))); cx.oblige('a dead iterator stays dead', z3.Implies(z3.And(0 <= J, J < d['n'], d['x0'](J) == NP), x(J) == NP))
        cx.oblige('if there was more, the moving iterator is inside the buffer', z3.Implies(B(cx, r), x(ME) < ln))
    out.append(Contract('reload_buffer<%s>' % nm, func=ff('::shared', 'reload_buffer', 0), setup=s_re, ensures=e_re, loops=[], summaries=[(lambda q, n: q.endswith('::lowest'), h_low), (lambda q, n: q.endswith('::highest'), h_hi), (lambda q, n: q.endswith('::subtract'), h_sub)], opmethod=read, **G))
    # ---- the iterator itself; its shared buffer is used by the contracts above
    ITQ = lambda name, npar, pred=None: ff('', name, npar, pred)
    def iobj(cx, shared=True):
        obj(cx); d = cx.data; ex = cx.ex; d['sh'] = d['this']; rec = [x for x in ex.u.records if re.match(REC + '$', spell(x))][0]; d['m'], d['live'], d['i'] = cx.fresh(Ty('bool'), 'master'), cx.fresh(Ty('bool'), 'live'), cx.fresh(u64, 'index'); d['erased'] = cx.cell(z3.BoolVal(False), 'erased'); d['base_lv'] = cx.cell(d['base'], 'base')
        d['it'] = cx.cell(S(rec, {'_master': d['m'], '_live': d['live'], '_index': d['i'], '_shared': Ad(d['sh']) if shared else NULL}), 'iter'); return d['it']
    ST = z3.Int('START')
    def h_start(cx, f, this, args, site): cx.assume(z3.And(ST >= 0, z3.Or(ST == NP, ST < cx.data['ln']))); return ST
    def h_erase(cx, f, this, args, site): cx.oblige('the iterator itself leaves the list', z3.BoolVal(isinstance(args[0], Ad) and same_lv(args[0].lv, cx.data['it']))); cx.ex.storev(cx.data['erased'], z3.BoolVal(True))
    def h_reload(cx, f, this, args, site):
        d = cx.data; ex = cx.ex; i = Z(cx.load(d['it'].f('_index'))); ln = Z(cx.load(d['sh'].f('_len'))); base = Z(cx.load(d['base_lv'])); pos = Z(cx.load(d['pos_lv'])); cx.oblige('the buffer is only reloaded at its end, by a listed iterator', z3.And(i == ln, z3.Not(B(cx, cx.load(d['it'].f('_master')))), z3.Not(B(cx, cx.load(d['erased'])))))
        more = ex.decide(pos < N); nb, nl, npos, ni = z3.Ints('new_base new_len new_pos new_index'); b = cx.fresh(Ty('vec', [ch]), 'new_buffer'); cx.assume(z3.And(nb >= base, nb + nl == npos, npos >= pos, npos <= N, nl >= 0, nl <= Z(b.len), z3.Or(nl == Z(b.len), npos == N), nb + ni == base + i, ni >= 0, ni <= nl, Z(b.len) < 2 ** 60))
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nl), SEL(b.arr, k) == SEL(TXT, nb + k)), patterns=[SEL(b.arr, k)]))
        if more: cx.assume(ni < nl)
        ex.storev(d['it'].f('_index'), ni); ex.storev(d['sh'].f('_len'), nl); ex.storev(d['sh'].f('_buffer'), b); ex.storev(d['base_lv'], nb); ex.storev(d['pos_lv'], npos); return more
    SM = [(lambda q, n: q.endswith('::start'), h_start), (lambda q, n: q.endswith('::erase'), h_erase), (lambda q, n: q.endswith('::reload_buffer'), h_reload)]
    now = lambda cx, f, s=None: cx.load(cx.data['it'].f(f), s)
    def piece(cx): d = cx.data; b = cx.load(d['sh'].f('_buffer')); ln = Z(cx.load(d['sh'].f('_len'))); base = Z(cx.load(d['base_lv'])); return z3.And(ln <= Z(b.len), base + ln == Z(cx.load(d['pos_lv'])), z3.Implies(z3.And(0 <= J, J < ln), SEL(b.arr, J) == SEL(TXT, base + J)))
    def at(cx, absol):
        """the iterator is at this character, or at the end if the text is over"""
        i = Z(now(cx, '_index')); d = cx.data; ln = Z(cx.load(d['sh'].f('_len'))); base = Z(cx.load(d['base_lv'])); return z3.If(absol < N, z3.And(i >= 0, i < ln, base + i == absol, B(cx, now(cx, '_live')), z3.Not(B(cx, cx.load(d['erased'])))), z3.And(i == NP, z3.Not(B(cx, now(cx, '_live'))), B(cx, cx.load(d['erased']))))
    def s_us(cx): t = iobj(cx); d = cx.data; cx.assume(z3.And(d['i'] >= 0, d['i'] <= d['ln'], z3.Not(B(cx, d['m'])), B(cx, d['live']))); return t, []
    def e_us(cx, r): d = cx.data; cx.oblige('the iterator is at its character or at the end', at(cx, d['base'] + d['i'])); cx.oblige('the buffer still holds a piece of the text', piece(cx)); cx.oblige('same buffer', z3.BoolVal(isinstance(now(cx, '_shared'), Ad)))
    out.append(Contract('update_state<%s>' % nm, func=ITQ('update_state', 0), setup=s_us, ensures=e_us, loops=[], summaries=SM, **G))
    def s_cm(cx): return iobj(cx, cx.ex.choose('attached')), []
    def e_cm(cx, r): d = cx.data; cx.oblige('a detached iterator is refused', z3.BoolVal(isinstance(now(cx, '_shared'), Ad))); cx.oblige('a master starts where a copy would start', z3.And(Z(now(cx, '_index')) == z3.If(B(cx, d['m']), ST, Z(d['i'])), B(cx, now(cx, '_live')) == z3.Or(B(cx, d['m']), B(cx, d['live'])), z3.Not(B(cx, now(cx, '_master')))))
    def t_cm(cx, e): cx.oblige('only a detached iterator is refused', z3.BoolVal(not isinstance(now(cx, '_shared'), Ad)))
    out.append(Contract('check_master<%s>' % nm, func=ITQ('check_master', 0), setup=s_cm, ensures=e_cm, throws=t_cm, loops=[], summaries=SM, **G))
    def s_us2(cx):
        t = iobj(cx); d = cx.data; m = B(cx, d['m']); d['first'] = z3.If(m, ST, Z(d['i'])); cx.assume(z3.And(z3.Or(m, B(cx, d['live'])), 0 <= d['first'], d['first'] < d['ln'])); return t, []
    def e_star(cx, r): d = cx.data; v = r if not isinstance(r, LV) else cx.load(r); cx.oblige('the character of the text', Z(v) == SEL(TXT, d['base'] + d['first']))
    out.append(Contract('operator*<%s>' % nm, func=ITQ(r'operator\*', 0), setup=s_us2, ensures=e_star, loops=[], summaries=SM, **G))
    out.append(Contract('operator++<%s>' % nm, func=ITQ(r'operator\+\+', 0), setup=s_us2, ensures=lambda cx, r: [cx.oblige('the next character of the text, or the end', at(cx, cx.data['base'] + cx.data['first'] + 1)), cx.oblige('the buffer still holds a piece of the text', piece(cx))] and None, loops=[], summaries=SM, **G))
    # ---- start: a new iterator starts at the lowest live one, or at the end of an empty text
    def e_st(cx, r): d = cx.data; cx.oblige('the end of an empty text, else the lowest iterator', Z(r) == z3.If(d['ln'] == 0, NP, LOW))
    out.append(Contract('start<%s>' % nm, func=ff('::shared', 'start', 0), setup=s_0, ensures=e_st, loops=[], summaries=[(lambda q, n: q.endswith('::lowest'), h_low)], **G))
    # ---- copying: the copy is listed with its buffer
    ME_ADDR = z3.Int('address_of_this')
    class CP(Std):
        def m_V_push_back(self, lv, a, e):
            v = self.rv(a[0])
            if isinstance(v, Ad) and same_lv(v.lv, self.cx.data['new']): self.vpush(lv, ME_ADDR); return VOID
            return super().m_V_push_back(lv, a, e)
    def s_cc(cx):
        src = iobj(cx, cx.ex.choose('attached')); rec = [x for x in cx.ex.u.records if re.match(REC + '$', spell(x))][0]; f = {'_master': False, '_live': False, '_index': z3.IntVal(NP), '_shared': NULL}; cx.data['new'] = cx.cell(S(rec, f), 'this'); return cx.data['new'], [src]
    def e_cc(cx, r):
        d = cx.data; v = cx.load(d['new']); att = isinstance(now(cx, '_shared'), Ad); c, c0 = cx.load(d['sh'].f('_clients')), cx.load(d['sh'].f('_clients'), 'old'); rc, rc0 = Z(cx.load(d['sh'].f('_ref_count'))), Z(cx.load(d['sh'].f('_ref_count'), 'old')); m = B(cx, d['m']) if att else z3.BoolVal(False)
        cx.oblige('the copy shares the buffer', z3.BoolVal(isinstance(v.f['_shared'], Ad) == att)); cx.oblige('the copy is where the original is (or where a master starts)', Z(v.f['_index']) == z3.If(m, ST, Z(d['i'])))
        cx.oblige('the original is unchanged', z3.And(Z(now(cx, '_index')) == Z(d['i']), B(cx, now(cx, '_master')) == B(cx, d['m']), B(cx, now(cx, '_live')) == B(cx, d['live'])))
        if att: cx.oblige('the copy is listed and counted', z3.And(Z(c.len) == d['n'] + 1, SEL(c.arr, d['n']) == ME_ADDR, z3.Implies(z3.And(0 <= J, J < d['n']), SEL(c.arr, J) == SEL(c0.arr, J)), rc == (rc0 + 1) % 2 ** 64, B(cx, v.f['_live']), z3.Not(B(cx, v.f['_master']))))
        else: cx.oblige('nothing to list', z3.And(Z(c.len) == d['n'], rc == rc0))
    s_cc2 = s_cc
    def s_cc(cx): r = s_cc2(cx); d = cx.data; cx.assume(z3.Implies(z3.Not(z3.BoolVal(isinstance(now(cx, '_shared'), Ad))), z3.Not(B(cx, d['m'])))); return r
    out.append(Contract('copy constructor<%s>' % nm, func=ff('', 'basic_stream_shared_iterator', 1, lambda n: 'basic_stream_shared_iterator' in str(params_of(n)[0]['type']) and '&&' not in str(params_of(n)[0]['type'])), setup=s_cc, ensures=e_cc, loops=[], summaries=SM, exec_class=CP, **G))
    return out
CS = make('char') + make('char32_t')
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'exploration'
SEARCH = ['L21.cpp']
RULE = 'random texts, buffer sizes, increments and histories of copies, assignments, steps and destructions of iterators over one stream, narrow and wide; non-trivial: histories in which the buffer is reloaded while several iterators are live'
ASSUMPTIONS = ['the stream delivers fewer characters than asked for only at its end', 'every iterator that is not at the end is listed with its buffer exactly once and the moving iterator is the one the buffer is reloaded for (established by the copy constructor; assignment and destruction, which delete the buffer, are checked by the bounded search only)', 'index and buffer lengths stay below 2^40']
BOUNDED = ['operator=, the destructor, postfix ++, operator== and the constructor from a stream: bounded search over histories']
