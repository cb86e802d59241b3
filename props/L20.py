"""lexertl::iterator: the sequence of repeated lookup() calls."""
from .common import *
DRIVER = r'''
#include <lexertl/iterator.hpp>
using namespace lexertl;
template<class I, class D, class S> void use(D b, D e, S& s) { I i(b, e, s), j, k(b, e, s, false, 3); ++i; j = i++; (void)(i == j); (void)(i != j); (void)*i; (void)i->id; (void)&i.sm(); }
void f(const char* b, state_machine& s) { use<citerator>(b, b, s); use<criterator>(b, b, s); }
void g(const char32_t* b, u32state_machine& s) { use<u32citerator>(b, b, s); }
'''
def contracts(nm, itn, smn, resn, ch, rec):
    IT = 'lexertl::iterator<const %s*, %s, %s>' % (ch, smn, resn)
    def rec_it(cx):
        r = [x for x in cx.ex.u.records if x.replace(' ', '') == IT.replace(' ', '')]
        if not r: raise ExtractError('iterator record %s not found' % IT)
        return r[0]
    def ff(name, npar, pred=None):
        def f(u):
            o = [n for q, n in u.funcs if q.replace(' ', '') == (IT + '::' + name).replace(' ', '') and len(params_of(n)) == npar and (pred is None or pred(n))]
            if not o: raise ExtractError('%s not found' % name)
            return o[0]
        return f
    REC = {}
    def mk(cx, name, nonnull=False):
        """an iterator in an arbitrary state; its machine pointer is null or the machine"""
        ex = cx.ex
        if 'text' not in cx.data:
            cx.data['text'] = cx.cell(cx.fresh(Ty('vec', [parse_type(ch)]), 'text'), 'text')
            cx.data['sm'] = cx.cell(Op('state machine'), 'machine')
        rr = ex.find_record(rec_it(cx)); f = {}
        for fn, ft, node in ex.u.record_fields(rr):
            if fn == '_results': f[fn] = ex.fresh(parse_type(ft, ex.u), name, ptr=lambda p, t: cx.data['text'])
            else: f[fn] = None
        res = f['_results']
        for x in ('first', 'second', 'eoi'):
            if not isinstance(res.f[x], It): res = res.set(x, It(cx.data['text'], z3.Int(ex.fresh_name('it'))))
        n = Z(cx.load(cx.data['text']).len)
        cx.assume(z3.And(0 <= Z(res.f['second'].idx), Z(res.f['second'].idx) <= n, 0 <= Z(res.f['first'].idx), Z(res.f['first'].idx) <= n))
        f['_results'] = res
        f['_sm'] = Ad(cx.data['sm']) if nonnull or not ex.choose('null') else NULL
        return cx.cell(S(rr, f), name)
    FIELDS = ['id', 'user_id', 'first', 'second', 'eoi', 'bol', 'state']
    def fld(cx, lv, x, snap=None):
        v = cx.load(lv.f('_results').f(x), snap); return Z(v.idx) if isinstance(v, It) else Z(v)
    def h_lookup(cx, f, this, args, site):
        """lookup(machine, results): contract proved in L01-L04 (here: it is called once, with this iterator's own machine and results)"""
        cx.data['calls'] = cx.data.get('calls', 0) + 1
        it = cx.data['it']
        cx.oblige('lookup works on the machine of the iterator', z3.BoolVal(same_lv(args[0], cx.data['sm'])))
        cx.oblige('lookup works on the results of the iterator', z3.BoolVal(same_lv(args[1], it.f('_results'))))
        cx.snapshot('before lookup')
        o = cx.load(it.f('_results')); r = o
        for x in FIELDS:
            v = r.f[x]
            if x == 'eoi': continue
            r = r.set(x, It(v.base, z3.Int(cx.ex.fresh_name('lk'))) if isinstance(v, It) else (z3.Bool(cx.ex.fresh_name('lk')) if x == 'bol' else cx.fresh('unsigned short', 'lk')))
        if rec: r = r.set('stack', cx.fresh(parse_type([t for n_, t, _ in cx.ex.u.record_fields(r.ty) if n_ == 'stack'][0], cx.ex.u), 'lkst'))
        cx.ex.storev(it.f('_results'), r)
        cx.snapshot('after lookup')
    SUM = [('lexertl::lookup', h_lookup)]
    def post(cx, it):
        """one lookup, and the machine pointer is dropped exactly when the results are at the end of input"""
        cx.oblige('exactly one lookup', z3.BoolVal(cx.data.get('calls', 0) == 1))
        if cx.data.get('calls', 0) != 1: return
        for x in FIELDS: cx.oblige('the results are those of the lookup: ' + x, fld(cx, it, x) == fld(cx, it, x, 'after lookup'))
        sm = cx.load(it.f('_sm')); end = fld(cx, it, 'first') == fld(cx, it, 'eoi')
        if isinstance(sm, Null): cx.oblige('the iterator becomes the end iterator only at the end of input', end)
        else: cx.oblige('the iterator keeps its machine before the end of input', z3.And(z3.Not(end), z3.BoolVal(isinstance(sm, Ad) and same_lv(sm.lv, cx.data['sm']))))
    def before_is(cx, it, why='the lookup continues where the last token ended: '):
        for x in FIELDS: cx.oblige(why + x, fld(cx, it, x, 'before lookup') == fld(cx, it, x, 'old'))
    out = []
    def s_inc(cx): it = mk(cx, 'this', True); cx.data['it'] = it; return it, []
    def e_pre(cx, r): it = cx.data['it']; post(cx, it); before_is(cx, it); cx.oblige('returns itself', z3.BoolVal(same_lv(r, it)))
    out.append(Contract(nm + '::operator++()', func=ff('operator++', 0), setup=s_inc, ensures=e_pre, summaries=SUM))
    def s_post(cx): it, _ = s_inc(cx); return it, [cx.fresh('int', 'dummy')]
    def e_post(cx, r):
        it = cx.data['it']; post(cx, it); before_is(cx, it); rl = cx.cell(cx.ex.val(r), 'ret')
        for x in FIELDS: cx.oblige('the returned iterator is the one before the increment: ' + x, fld(cx, rl, x) == fld(cx, it, x, 'old'))
        sm = cx.load(rl.f('_sm')); cx.oblige('the returned iterator keeps its machine', z3.BoolVal(isinstance(sm, Ad) and same_lv(sm.lv, cx.data['sm'])))
        if rec:
            a, b = cx.load(rl.f('_results').f('stack')), cx.load(it.f('_results').f('stack'), 'old')
            cx.oblige('the returned iterator has its own stack', z3.And(Z(a.len) == Z(b.len), a.arr.f['first'] == b.arr.f['first'], a.arr.f['second'] == b.arr.f['second']))
    out.append(Contract(nm + '::operator++(int)', func=ff('operator++', 1), setup=s_post, ensures=e_post, summaries=SUM))
    # constructor
    def ctor(u):
        o = [n for q, n in u.funcs if n.get('kind') == 'CXXConstructorDecl' and q.replace(' ', '').startswith((IT + '::').replace(' ', '')) and len(params_of(n)) == 5]
        if not o: raise ExtractError('iterator constructor not found')
        return o[0]
    def s_c(cx):
        it = mk(cx, 'this', True); ex = cx.ex; cx.data['it'] = it
        n = Z(cx.load(cx.data['text']).len); a, b = z3.Int('start'), z3.Int('end'); cx.assume(z3.And(0 <= a, a <= b, b <= n))
        bol, st = z3.Bool('bolarg'), cx.fresh('unsigned short', 'statearg'); cx.data.update(a=a, b=b, bol=bol, st=st)
        sa, sb = cx.cell(It(cx.data['text'], a), 'start_'), cx.cell(It(cx.data['text'], b), 'end_')
        ex.storev(it, cx.ex.zero_shape(Ty('rec', [], cx.load(it).ty)))
        return it, [sa, sb, cx.data['sm'], bol, st]
    def e_c(cx, r):
        it, d = cx.data['it'], cx.data; post(cx, it)
        if cx.data.get('calls', 0) != 1: return
        w = {'id': z3.IntVal(0), 'user_id': z3.IntVal(65535), 'first': d['a'], 'second': d['a'], 'eoi': d['b'], 'bol': d['bol'], 'state': d['st']}
        for x in FIELDS: cx.oblige('the first lookup starts at the beginning of the range: ' + x, fld(cx, it, x, 'before lookup') == w[x])
        if rec: cx.oblige('the first lookup starts with an empty stack', Z(cx.load(it.f('_results').f('stack'), 'before lookup').len) == 0)
    out.append(Contract(nm + '::iterator(start,end,sm,bol,state)', func=ctor, setup=s_c, ensures=e_c, summaries=SUM))
    # observers
    def s_o(cx): it = mk(cx, 'this', True); cx.data['it'] = it; return it, []
    def unchanged(cx, it):
        for x in FIELDS: cx.oblige('unchanged: ' + x, fld(cx, it, x) == fld(cx, it, x, 'old'))
    def e_deref(cx, r): it = cx.data['it']; cx.oblige('dereferencing gives the results of the last lookup', z3.BoolVal(same_lv(r, it.f('_results')))); unchanged(cx, it)
    def e_arrow(cx, r): it = cx.data['it']; cx.oblige('the arrow gives the results of the last lookup', z3.BoolVal(isinstance(r, Ad) and same_lv(r.lv, it.f('_results')))); unchanged(cx, it)
    def e_sm(cx, r): cx.oblige('the machine is the one given', z3.BoolVal(same_lv(r, cx.data['sm'])))
    out.append(Contract(nm + '::operator*', func=ff('operator*', 0), setup=s_o, ensures=e_deref))
    out.append(Contract(nm + '::operator->', func=ff('operator->', 0), setup=s_o, ensures=e_arrow))
    out.append(Contract(nm + '::sm', func=ff('sm', 0), setup=s_o, ensures=e_sm))
    def s_eq(cx): a, b = mk(cx, 'lhs'), mk(cx, 'rhs'); cx.data.update(a=a, b=b); return None, [a, b]
    def eqv(cx):
        a, b = cx.data['a'], cx.data['b']; sa, sb = cx.load(a.f('_sm')), cx.load(b.f('_sm')); na, nb = isinstance(sa, Null), isinstance(sb, Null)
        if na or nb: return z3.BoolVal(na and nb)
        return z3.And(*[fld(cx, a, x) == fld(cx, b, x) for x in FIELDS])
    def e_eq(neg):
        def e(cx, r):
            w = eqv(cx); r = B(cx, r)
            cx.oblige('end iterators are equal, others compare by their results', r == (z3.Not(w) if neg else w))
            for q in ('a', 'b'): unchanged(cx, cx.data[q])
        return e
    out.append(Contract(nm + '::operator==', func=ff('operator==', 2), setup=s_eq, ensures=e_eq(False)))
    out.append(Contract(nm + '::operator!=', func=ff('operator!=', 2), setup=s_eq, ensures=e_eq(True)))
    return out
SMC = 'lexertl::basic_state_machine<char>'
cs = contracts('citerator', '', SMC, 'lexertl::match_results<const char*>', 'char', False)
cs += contracts('criterator', '', SMC, 'lexertl::recursive_match_results<const char*>', 'char', True)
cs += contracts('u32citerator', '', SMC.replace('char', 'char32_t'), 'lexertl::match_results<const char32_t*>', 'char32_t', False)
GROUPS = [dict(driver=DRIVER, contracts=cs)]
LEVEL = 'proof'
SEARCH = ['L20.cpp']
BUDGET = 8
RULE = 'random well-formed tables and inputs: the sequence of an iterator (pre- and post-increment mixed, copies taken) compared with repeated lookup() on the same range; non-trivial: at least two tokens'
ASSUMPTIONS = ['lookup() meets its contract (L01-L04): here only that it is called exactly once per step on the iterator\'s own machine and results', 'the iterator is not incremented past the end (its machine pointer is null there)',
               'two recursive iterators in the middle of the input that differ only in their start-state stack compare equal (operator== of the results does not look at the stack); the property only speaks about comparison with the end iterator']
