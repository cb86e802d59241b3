"""the rules object: every start state has one entry of each kind per rule, in push order; a rejected call changes nothing"""
from .gen_common import *
from vc.stl import Std
DRIVER = r'''
#include <lexertl/rules.hpp>
template class lexertl::basic_rules<char, char>;
template class lexertl::basic_rules<char, char, std::uint8_t>;
'''
RX = {16: r'lexertl::basic_rules<char, char(, unsigned short)?>', 8: r'lexertl::basic_rules<char, char, unsigned char>'}
A2 = z3.ArraySort(I, ARR); A3 = z3.ArraySort(I, A2)
J, P, KEY = z3.Ints('J P KEY')           # an arbitrary start state, position and name
VEC = ('_ids', '_user_ids', '_next_dfas', '_pushes', '_pops', '_regexes', '_regex_strings')
def rfind(W, name, npar, pred=None):
    rx = re.compile(RX[W] + '::' + name + '$')
    def f(u):
        o = [n for q, n in u.funcs if rx.match(spell(q)) and len(params_of(n)) == npar and (pred is None or pred(n))]
        if not o: raise ExtractError('rules::%s not found' % name)
        return o[0]
    return f
TOK = Ty('rec', [], 'token')
NAMED = bool(__import__('os').environ.get('VP_NAMED'))
def make(W):
    NP = (1 << W) - 1; u = Ty('int', (W, False)); ch = Ty('int', (8, True)); u64 = Ty('int', (64, False)); BOL_, EOL_ = 'BOL', 'EOL'
    def obj(cx, n=None):
        """a rules object in any consistent state"""
        ex = cx.ex; d = cx.data; n = z3.Int('n_states'); d['n'] = n; L = z3.Const('rules_of', ARR); d['L'] = L; cx.assume(z3.And(n >= 1, n <= NP)); cx.assume(z3.ForAll([k], z3.And(SEL(L, k) >= 0, SEL(L, k) < 2 ** 40), patterns=[SEL(L, k)]))
        f = {}
        for q in VEC:
            a2 = z3.Const(q, z3.ArraySort(I, z3.ArraySort(I, Bo)) if q == '_pops' else A2); et = Ty('bool') if q == '_pops' else u
            if q == '_regexes': f[q] = V(Ty('vec', [Ty('vec', [TOK])]), n, V(Ty('vec', [TOK]), L, V(TOK, z3.Const('regex.len', A2), S('tok', {'_type': z3.Const('regex', A3)}))))
            else: f[q] = V(Ty('vec', [et]), n, V(et, L, a2))
        ft = z3.Const('features', ARR); cx.assume(z3.ForAll([k], z3.And(SEL(ft, k) >= 0, SEL(ft, k) <= NP), patterns=[SEL(ft, k)])); f['_features'] = V(u, n, ft)
        m = S('map', {'mem': z3.Const('names', z3.ArraySort(I, Bo)), 'size': n, 'val': z3.Const('state_of', ARR)}); cx.assume(z3.ForAll([k], z3.Implies(SEL(m.f['mem'], k), z3.And(0 <= SEL(m.f['val'], k), SEL(m.f['val'], k) < n)), patterns=[SEL(m.f['mem'], k)]))
        f['_statemap'] = m; f['_flags'] = cx.fresh(u64, 'flags'); f['_locale'] = Op('locale'); f['_macro_map'] = S('map', {'mem': z3.Const('macros', z3.ArraySort(I, Bo)), 'size': z3.Int('n_macros'), 'val': V(TOK, z3.Const('macro.len', ARR), S('tok', {'_type': z3.Const('macro', A2)}))}); cx.assume(z3.Int('n_macros') >= 0)
        f['_lexer_state_names'] = V(u64, n - 1, z3.Const('name', ARR))
        rec = [q for q in ex.u.records if re.match(RX[W] + '$', spell(q))][0]; d['this'] = cx.cell(S(rec, f), 'this'); return d['this']
    def o(cx, q, s=None): return cx.load(cx.data['this'].f(q), s)
    def ln(cx, q, s=None): return SEL(o(cx, q, s).arr.len, J)
    def en(cx, q, s=None): a = o(cx, q, s).arr.arr; a = a.len if isinstance(a, V) else a; return SEL(SEL(a, J), P)
    def allsame(cx):
        g = []
        for q in VEC: a, b = o(cx, q, 'old'), o(cx, q); g.append(same(a, b))
        g.append(same(o(cx, '_features', 'old'), o(cx, '_features'))); return z3.And(g + [same(o(cx, q, 'old'), o(cx, q)) for q in ('_statemap', '_macro_map', '_lexer_state_names')])
    def same(a, b):
        if isinstance(a, (S, V)) and not isinstance(a, S): return z3.And(Z(a.len) == Z(b.len), same(a.arr, b.arr))
        if isinstance(a, S): return z3.And([same(a.f[q], b.f[q]) for q in a.f])
        if isinstance(a, Op): return z3.BoolVal(True)
        return Z(a) == Z(b)
    def lens(cx, n=None): n = cx.data['n'] if n is None else n; return ('one row per start state', z3.And([Z(o(cx, q).len) == n for q in VEC + ('_features',)]))
    def even(cx, n=None): n = cx.data['n'] if n is None else n; return ('one entry of each kind per rule', z3.Implies(z3.And(0 <= J, J < n), z3.And([ln(cx, q) == ln(cx, '_ids') for q in VEC] + [ln(cx, '_ids') >= 0])))
    def keep(cx): return [('rules are only added', z3.Implies(z3.And(0 <= J, J < cx.data['n']), ln(cx, '_ids') >= ln(cx, '_ids', 'old')))] + [('earlier %s stay' % q.strip('_'), z3.Implies(z3.And(0 <= J, J < cx.data['n'], 0 <= P, P < ln(cx, '_ids', 'old')), en(cx, q) == en(cx, q, 'old'))) for q in VEC]
    def state_names(cx): return ('names and macros stay', z3.And([same(o(cx, q, 'old'), o(cx, q)) for q in ('_statemap', '_macro_map', '_lexer_state_names')]))
    FAIL = z3.Bool('tokenise_fails'); M = z3.Int('n_parts'); BOL, EOL = z3.Bool('starts_with_caret'), z3.Bool('ends_with_dollar')
    def tokty(cx): return cx.ex.enum_value if False else None
    def h_tok(cx, f, this, args, site):
        """tokenise reads the text, flags and macros only: it does the same each time"""
        ex = cx.ex; d = cx.data
        if ex.decide(FAIL): raise ThrowEx('runtime_error', None)
        cx.assume(z3.And(M >= 1, M < 2 ** 20)); LENS, TY = z3.Const('part.len', ARR), z3.Const('part.type', A2); cx.assume(z3.ForAll([k], z3.And(SEL(LENS, k) >= 2, SEL(LENS, k) < 2 ** 40), patterns=[SEL(LENS, k)])); d['tl'], d['ty'] = LENS, TY
        return V(Ty('vec', [TOK]), M, V(TOK, LENS, S('tok', {'_type': TY})))
    X = dict(stream=stream)
    def opmeth(cx, op, name, lv, argn, e):
        if name == 'str': return z3.Int('text')
        return opm(cx, op, name, lv, argn, e)
    def opaque(cx, ty, ks, e): return Op('opaque')
    def string(cx, nm): a = cx.fresh(Ty('vec', [ch]), nm); cx.assume(z3.And(Z(a.len) >= 1, Z(a.len) < 2 ** 40, SEL(a.arr, Z(a.len) - 1) == 0)); return a
    def bits(cx, i, which):
        """feature bits of state J after it was pushed to"""
        d = cx.data; f, f0 = SEL(o(cx, '_features').arr, J), SEL(o(cx, '_features', 'old').arr, J); b = lambda x, n: (x / n) % 2 == 1; idv = d['id']; rec = d.get('recursive', z3.BoolVal(False)); add = {1: BOLF(d), 2: EOLF(d), 4: idv == NP - 1, 8: idv == 0, 32: rec}
        return [('feature %d of the rule is recorded' % n, z3.Implies(z3.And(0 <= J, J < d['n'], which), b(f, n) == z3.Or(b(f0, n), add[n]))) for n in add] + [('features of other states stay', z3.Implies(z3.And(0 <= J, J < d['n'], z3.Not(which)), f == f0)), ('features fit', z3.And(f >= 0, f <= NP))]
    TT = {}
    def BOLF(d): return SEL(SEL(d['ty'], 0), 1) == TT['BOL'] if 'ty' in d else z3.BoolVal(False)
    def EOLF(d): return SEL(SEL(d['ty'], M - 1), SEL(d['tl'], M - 1) - 2) == TT['EOL'] if 'ty' in d else z3.BoolVal(False)
    def enums(cx):
        un = cx.ex.u
        for i_, v_ in un.enumconst.items():
            c_ = un.byid[i_]
            if c_['name'] in ('BOL', 'EOL') and 'token_type' in c_['type']['qualType']: TT[c_['name']] = v_
    # ---- push to INITIAL
    def s_push(cx):
        d = cx.data; enums(cx); this = obj(cx); d['rx'] = cx.cell(string(cx, 'regex_'), 'regex_'); d['id'], d['uid'] = cx.fresh(u, 'id_'), cx.fresh(u, 'user_id_'); return this, [d['rx'], d['id'], d['uid']]
    def entries(cx, lo, nxt, psh, pop):
        d = cx.data; at = z3.And(0 <= J, J < d['n'], lo <= P, P < ln(cx, '_ids')); return [('each new rule has its ' + nm, z3.Implies(at, en(cx, q) == v)) for nm, q, v in (('id', '_ids', d['id']), ('user id', '_user_ids', d['uid']), ('next start state', '_next_dfas', nxt), ('pushed start state', '_pushes', psh), ('pop mark', '_pops', pop), ('text', '_regex_strings', z3.Int('text')))] + [('each new rule has its own tokens', z3.Implies(z3.And(at), en(cx, '_regexes') >= 0))]
    def count(cx, c): return ('the number of rules grows by that of the parts', z3.Implies(z3.And(0 <= J, J < cx.data['n']), ln(cx, '_ids') == ln(cx, '_ids', 'old') + z3.If(J == 0, c, 0)))
    def L_push(cx): i = Z(cx.v('__begin').idx); return [('index', z3.And(0 <= i, i <= M, Z(cx.v('__end').idx) == M))] + [lens(cx), even(cx), count(cx, i), state_names(cx)] + keep(cx) + entries(cx, ln(cx, '_ids', 'old'), z3.IntVal(0), z3.IntVal(NP), z3.BoolVal(False))[:-1] + bits(cx, None, J == 0) + [('variant', M - i)]
    def e_push(cx, r):
        d = cx.data; cx.oblige('reserved ids are rejected', z3.And(d['id'] != 0, d['id'] != NP))
        for g in [lens(cx), even(cx), count(cx, M), state_names(cx)] + keep(cx) + entries(cx, ln(cx, '_ids', 'old'), z3.IntVal(0), z3.IntVal(NP), z3.BoolVal(False))[:-1] + bits(cx, None, J == 0): cx.oblige(*g)
    def thr(cx, e): cx.oblige('a rejected call changes nothing', allsame(cx)); cx.oblige('only runtime_error is thrown', z3.BoolVal('runtime_error' in str(e.ty)))
    SUM = [(sub('tokenise'), h_tok), (sub('narrow'), noop)]
    strp = lambda n: 'string' in norm(params_of(n)[0]) or 'basic_string' in norm(params_of(n)[0])
    out = [Contract('push %d bit ids' % W, func=rfind(W, 'push', 3, strp), setup=s_push, ensures=e_push, throws=thr, loops=[L_push], summaries=SUM, stream=stream, construct_opaque=opaque, opmethod=opmeth)]
    # ---- check_for_invalid_id
    def s_chk(cx): cx.data['id'] = cx.fresh(u, 'id_'); return cx.cell(Op('rules'), 'this'), [cx.data['id']]
    bad = lambda cx: z3.Or(cx.data['id'] == 0, cx.data['id'] == NP)
    out.append(Contract('check_for_invalid_id %d bit ids' % W, func=rfind(W, 'check_for_invalid_id', 1), setup=s_chk, ensures=lambda cx, r: cx.oblige('reserved ids are rejected', z3.Not(bad(cx))), throws=lambda cx, e: cx.oblige('only reserved ids are rejected', bad(cx)), loops=[]))
    # ---- validate: a name is a letter or _ followed by letters, digits, _ and -
    E_ = z3.Int('name_end'); letter = lambda c: z3.Or(c == 95, z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)); inner = lambda c: z3.Or(letter(c), c == 45, z3.And(c >= 48, c <= 57))
    def s_val(cx):
        d = cx.data; t = string(cx, 'name_'); d['t'] = t; c = cx.cell(t, 'name_'); has = cx.ex.choose('end given'); d['has'] = has; e = z3.Int('end_'); cx.assume(z3.And(0 <= E_, E_ < Z(t.len)))
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < E_), z3.And(SEL(t.arr, k) != 0, k != e if has else True)), patterns=[SEL(t.arr, k)])); cx.assume(z3.Or(SEL(t.arr, E_) == 0, E_ == e) if has else SEL(t.arr, E_) == 0)
        if has: cx.assume(z3.And(e >= 0, e < Z(t.len), SEL(t.arr, e) == 58))
        f = {'_locale': Op('locale')}; return cx.cell(S([q for q in cx.ex.u.records if re.match(RX[W] + '$', spell(q))][0], f), 'this'), [It(c, z3.IntVal(0)), It(c, e) if has else NULL]
    def good(cx): t = cx.data['t'].arr; return z3.And(E_ >= 1, letter(SEL(t, 0)), z3.ForAll([k], z3.Implies(z3.And(1 <= k, k < E_), inner(SEL(t, k))), patterns=[SEL(t, k)]))
    def L_val(cx): i = Z(cx.v('name_').idx); t = cx.data['t'].arr; return [('position', z3.And(1 <= i, i <= E_)), ('characters passed are allowed', z3.And(letter(SEL(t, 0)), z3.ForAll([k], z3.Implies(z3.And(1 <= k, k < i), inner(SEL(t, k))), patterns=[SEL(t, k)]))), ('variant', E_ - i)]
    out.append(Contract('validate %d bit ids' % W, func=rfind(W, 'validate', 2), setup=s_val, ensures=lambda cx, r: cx.oblige('only well-formed names are accepted', good(cx)), throws=lambda cx, e: cx.oblige('only ill-formed names are rejected', z3.Not(good(cx))), loops=[L_val], summaries=SUM, stream=stream, construct_opaque=opaque, opmethod=opmeth))
    # ---- push to named states
    CNT = z3.Function('TIMES_NAMED', I, I)
    def s_np(cx):
        d = cx.data; enums(cx); this = obj(cx); ct, nt, rx = string(cx, 'curr_dfa_'), string(cx, 'new_dfa_'), string(cx, 'regex_'); c, n = cx.cell(ct, 'curr'), cx.cell(nt, 'new'); d['rx'] = cx.cell(rx, 'regex_'); d.update(ct=ct, nt=nt, keys=[]); at = lambda t, i: SEL(t.arr, i)
        # a text ends at its first NUL
        for t, q in ((ct, 'curr'), (nt, 'new')): cx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(t.len) - 1), SEL(t.arr, k) != 0), patterns=[SEL(t.arr, k)]))
        d['star'] = z3.And(at(ct, 0) == 42, at(ct, 1) == 0, Z(ct.len) == 2); d['dot'] = z3.And(at(nt, 0) == 46, Z(nt.len) == 2); d['push'] = at(nt, 0) == 62; d['pop'] = at(nt, 0) == 60; d['recursive'] = z3.Or(d['push'], d['pop'])
        d['chk'] = cx.fresh(Ty('bool'), 'check_'); d['id'], d['uid'] = cx.fresh(u, 'id_'), cx.fresh(u, 'user_id_'); cx.assume(CNT(0) == 0)
        return this, [It(c, z3.IntVal(0)), d['rx'], d['id'], It(n, z3.IntVal(0)), d['chk'], d['uid']]
    KEYS = [z3.Int('KEY_next'), z3.Int('KEY_push')]; TWO = z3.Bool('names_pushed_state')
    def key(cx, v):
        ks = cx.data['keys']; kk = KEYS[len(ks)] if len(ks) < 2 and 'listing' not in cx.data else z3.Int(cx.ex.fresh_name('name')); ks.append((kk, v)); return kk
    def maybe(cx, f, this, args, site):
        if cx.ex.decide(z3.Bool(cx.ex.fresh_name('name is ill-formed'))): raise ThrowEx('runtime_error', None)
    def want(cx):
        """the next and pushed start states the call names"""
        d = cx.data; m = o(cx, '_statemap', 'old').f['val']
        return z3.If(d['dot'], J, z3.If(d['pop'], NP, SEL(m, KEYS[0]))), z3.If(d['push'], z3.If(TWO, SEL(m, KEYS[1]), J), NP), d['pop']
    def ties(cx):
        d = cx.data; m = o(cx, '_statemap', 'old').f['val']; b = lambda n: B(cx, cx.v(n))
        return [(('the exit and the pushed state are those named'), z3.And(Z(cx.v('new_dfa_id_')) == z3.If(z3.Or(d['dot'], d['pop']), NP, SEL(m, KEYS[0])), Z(cx.v('push_dfa_id_')) == z3.If(TWO, SEL(m, KEYS[1]), NP), z3.Implies(TWO, d['push']), TWO == z3.BoolVal(not isinstance(cx.v('push_dfa_'), Null)), b('dot_') == d['dot'], b('push_') == d['push'], b('pop_') == d['pop'])), ('* names every start state once', star(cx, nd(cx)))]
    def star(cx, v): n = Z(v.len); return z3.Implies(cx.data['star'], z3.And(n == cx.data['n'], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), SEL(v.arr, k) == k), patterns=[SEL(v.arr, k)])))
    def two(cx):
        d = cx.data
        if 'two' not in d and 'new_dfa_id_' in cx.ex.frames[-1].names: d['two'] = 1; d['listing'] = 1; cx.assume(TWO == z3.BoolVal(not isinstance(cx.v('push_dfa_'), Null)))
    def tmp(cx): i = Z(cx.v('temp_').idx); b = z3.If(cx.data['push'], 1, 0); n = Z(cx.data['nt'].len); return [('position', z3.And(b <= i, i < n)), ('no colon passed', z3.ForAll([k], z3.Implies(z3.And(b <= k, k < i), SEL(cx.data['nt'].arr, k) != 58), patterns=[SEL(cx.data['nt'].arr, k)])), ('variant', n - i)]
    def nd(cx): return cx.data['nd'] if 'done' in cx.data else cx.v('next_dfas_')
    def rng(cx): v = nd(cx); return ('only existing start states are named', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(v.len)), z3.And(0 <= SEL(v.arr, k), SEL(v.arr, k) < cx.data['n'])), patterns=[SEL(v.arr, k)]))
    def ids_ok(cx): d = cx.data; return ('reserved ids are rejected', z3.Implies(B(cx, d['chk']), z3.And(d['id'] != 0, d['id'] != NP)))
    def nothing(cx): return ('nothing is stored yet', allsame(cx))
    def stf(cx): return [('first character', z3.BoolVal(True))]
    def L_star(cx): two(cx); i = Z(cx.v('i_')); v = nd(cx); return [('index', z3.And(0 <= i, i <= cx.data['n'], Z(v.len) == i, Z(cx.v('size_')) == cx.data['n'])), ties(cx)[0], ('this is *', cx.data['star']), ('* names every start state', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), SEL(v.arr, k) == k), patterns=[SEL(v.arr, k)])), nothing(cx), ('variant', cx.data['n'] - i)]
    def L_names(cx): two(cx); i, st = Z(cx.v('curr_dfa_').idx), Z(cx.v('start_').idx); n = Z(cx.data['ct'].len); v = nd(cx); return [('position', z3.And(0 <= st, st <= i, i < n, Z(v.len) <= i, Z(v.len) >= 0)), rng(cx), ties(cx)[0], ('this is not *', z3.Not(cx.data['star'])), nothing(cx), ('variant', n - i)]
    def L_name(cx): i, st = Z(cx.v('curr_dfa_').idx), Z(cx.v('start_').idx); n = Z(cx.data['ct'].len); return [('position', z3.And(0 <= st, st <= i, i < n, Z(nd(cx).len) <= i)), rng(cx), ties(cx)[0], ('this is not *', z3.Not(cx.data['star'])), nothing(cx), ('variant', n - i)]
    def grown(cx, i, part):
        d = cx.data; v = d['nd']; c = SEL(v.arr, i); nx, ps, po = d['want']; cx.assume(z3.Implies(i >= 0, z3.And(CNT(i + 1) == CNT(i) + z3.If(c == J, 1, 0), CNT(i) >= 0)))
        tot = CNT(i) * 1; here = z3.And(0 <= J, J < d['n'])
        return [lens(cx), even(cx), rng(cx), state_names(cx), ids_ok(cx)] + keep(cx) + entries(cx, ln(cx, '_ids', 'old'), nx, ps, po)[:-1] + [('states not named stay', z3.Implies(z3.And(here, CNT(i) == 0, z3.Or(part == 0, c != J)), ln(cx, '_ids') == ln(cx, '_ids', 'old')))]
    TOT = z3.Function('RULES_ADDED', I, I)
    def L_st(cx):
        i = Z(cx.v('i_')); v = nd(cx); d = cx.data; d['nd'] = v; d['want'] = want(cx); cx.assume(TOT(0) == 0); cx.assume(z3.Implies(i >= 0, TOT(i + 1) == TOT(i) + z3.If(SEL(v.arr, i) == J, M, 0))); return [('index', z3.And(0 <= i, i <= Z(v.len), Z(cx.v('size_')) == Z(v.len))), ('the text is a regular expression', z3.Implies(i > 0, z3.Not(FAIL)))] + ties(cx) + grown(cx, i, z3.IntVal(0)) + [('every state named gets every part', z3.Implies(z3.And(0 <= J, J < d['n']), ln(cx, '_ids') == ln(cx, '_ids', 'old') + TOT(i))), ('nothing is stored before the first state', z3.Implies(i == 0, allsame(cx)))] + bitz(cx, CNT(i) > 0, i) + [('variant', Z(v.len) - i)]
    for l_ in (L_star, L_names, L_name): l_.widen = (['iter_', 'new_dfa_'], ['new_dfa_id_', 'push_dfa_id_', 'push_dfa_', 'star_', 'dot_', 'push_', 'pop_'])
    L_st.widen = (['iter_', 'new_dfa_', 'curr_dfa_'], ['new_dfa_id_', 'push_dfa_id_', 'star_', 'dot_', 'push_', 'pop_', 'next_dfas_', 'push_dfa_'])
    def bitz(cx, which, i):
        if 'ty' not in cx.data: return [('no feature yet', z3.Implies(i == 0, SEL(o(cx, '_features').arr, J) == SEL(o(cx, '_features', 'old').arr, J))), ('some state', z3.BoolVal(True)), ('f2', z3.BoolVal(True)), ('f3', z3.BoolVal(True)), ('f4', z3.BoolVal(True)), ('f5', z3.BoolVal(True)), ('f6', z3.BoolVal(True))]
        return bits(cx, None, which)
    def L_part(cx):
        i, b = Z(cx.v('i_')), Z(cx.v('__begin').idx); v = nd(cx); d = cx.data; c = SEL(v.arr, i); return [('index', z3.And(0 <= i, i < Z(v.len), Z(cx.v('size_')) == Z(v.len), 0 <= b, b <= M, Z(cx.v('__end').idx) == M, Z(cx.v('curr_')) == c))] + grown(cx, i, z3.If(c == J, b, 0)) + [('every state named gets every part', z3.Implies(z3.And(0 <= J, J < d['n']), ln(cx, '_ids') == ln(cx, '_ids', 'old') + TOT(i) + z3.If(c == J, b, 0)))] + bits(cx, None, z3.Or(CNT(i) > 0, c == J)) + [('variant', M - b)]
    def e_np(cx, r):
        d = cx.data; d['done'] = 1; v = d['nd']; n = Z(v.len); nx, ps, po = d['want']
        for g in grown(cx, n, z3.IntVal(0)): cx.oblige(*g)
        cx.oblige('every state named gets every part', z3.Implies(z3.And(0 <= J, J < d['n']), ln(cx, '_ids') == ln(cx, '_ids', 'old') + TOT(n)))
        cx.oblige('* names every start state once', star(cx, v))
        for g in bitz(cx, CNT(n) > 0, n) if 'ty' in d else []: cx.oblige(*g)
    class NP_(Std):
        def m_V_assign(self, lv, a, e):
            p, q = [self.rv(x) for x in a]; self.check('a range inside one text', z3.And(z3.BoolVal(same_lv(p.base, q.base)), 0 <= Z(p.idx), Z(p.idx) <= Z(q.idx))); t = self.fresh(Ty('vec', [ch]), 'name'); self.storev(lv, t); return lv
    if NAMED: out.append(Contract('push to named states, %d bit ids' % W, func=rfind(W, 'push', 6, lambda n: 'bool' in norm(params_of(n)[4])), setup=s_np, ensures=e_np, throws=thr, loops=[tmp, L_star, L_names, L_name, L_st, L_part], summaries=SUM + [(sub('validate'), maybe)], stream=stream, construct_opaque=opaque, opmethod=opmeth, mapkey=key, exec_class=NP_, cstr=lambda cx, it: it, merge=True))
    # ---- push_state
    KEY = z3.Int('KEY_name'); INIT = KEY == z3.Int('KEY_INITIAL')
    def s_ps(cx):
        this = obj(cx); d = cx.data; t = string(cx, 'name_'); c = cx.cell(t, 'name_'); d['got'] = 0; cx.assume(z3.Implies(INIT, SEL(o(cx, '_statemap').f['mem'], KEY))); return this, [It(c, z3.IntVal(0))]
    def e_ps(cx, r):
        d = cx.data; n = d['n']; m, m0 = o(cx, '_statemap'), o(cx, '_statemap', 'old'); known = SEL(m0.f['mem'], KEY); new = z3.Not(known); Q = z3.Int('Q')
        cx.oblige('a name already used gives its state and changes nothing', z3.Implies(known, z3.And(Z(r) == SEL(m0.f['val'], KEY), allsame(cx))))
        cx.oblige('a new name gets the next state', z3.Implies(new, z3.And(Z(r) == n, SEL(m.f['mem'], KEY), SEL(m.f['val'], KEY) == n, Z(m.f['size']) == n + 1)))
        cx.oblige('the number of states stays within the id type', z3.Implies(new, n + 1 <= NP))
        cx.oblige('other names stay', z3.Implies(z3.And(new, Q != KEY), z3.And(SEL(m.f['mem'], Q) == SEL(m0.f['mem'], Q), SEL(m.f['val'], Q) == SEL(m0.f['val'], Q))))
        for q in VEC:
            a, b = o(cx, q), o(cx, q, 'old'); cx.oblige('%s: one empty row more' % q.strip('_'), z3.Implies(new, z3.And(Z(a.len) == n + 1, SEL(Z(a.arr.len), n) == 0)))
            cx.oblige('%s: earlier rows stay' % q.strip('_'), z3.Implies(z3.And(new, 0 <= J, J < n), z3.And(ln(cx, q) == ln(cx, q, 'old'), z3.Implies(z3.And(0 <= P, P < ln(cx, q)), en(cx, q) == en(cx, q, 'old')))))
        f, f0 = o(cx, '_features'), o(cx, '_features', 'old'); cx.oblige('features: no feature yet', z3.Implies(new, z3.And(Z(f.len) == n + 1, SEL(f.arr, n) == 0))); cx.oblige('features: earlier rows stay', z3.Implies(z3.And(new, 0 <= J, J < n), SEL(f.arr, J) == SEL(f0.arr, J)))
        cx.oblige('the list of names grows by the new name', z3.Implies(new, z3.And(Z(o(cx, '_lexer_state_names').len) == n, SEL(o(cx, '_lexer_state_names').arr, n - 1) == KEY, z3.Implies(z3.And(0 <= J, J < n - 1), SEL(o(cx, '_lexer_state_names').arr, J) == SEL(o(cx, '_lexer_state_names', 'old').arr, J))))); cx.oblige('macros stay', same(o(cx, '_macro_map', 'old'), o(cx, '_macro_map')))
    def t_ps(cx, e): cx.oblige('a rejected name changes nothing', allsame(cx)); cx.oblige('only runtime_error is thrown', z3.BoolVal('runtime_error' in str(e.ty)))
    class PS(Std):
        def zero(self, ty):
            if ty == Ty('vec', [TOK]): return V(TOK, 0, S('tok', {'_type': z3.Const(self.fresh_name('no_tokens'), ARR)}))
            if ty == Ty('vec', [Ty('vec', [TOK])]): return V(Ty('vec', [TOK]), 0, V(TOK, z3.Const(self.fresh_name('no_rows.len'), ARR), S('tok', {'_type': z3.Const(self.fresh_name('no_rows'), A2)})))
            return super().zero(ty)
    out.append(Contract('push_state %d bit ids' % W, func=rfind(W, 'push_state', 1), setup=s_ps, ensures=e_ps, throws=t_ps, loops=[], summaries=SUM + [(sub('validate'), maybe), (sub('initial'), lambda cx, f, this, a, s: z3.Int('KEY_INITIAL'))], stream=stream, construct_opaque=opaque, opmethod=opmeth, mapkey=lambda cx, v: KEY, cstr=lambda cx, it: KEY, exec_class=PS))
    # ---- insert_macro
    def s_im(cx):
        this = obj(cx); t = string(cx, 'name_'); c = cx.cell(t, 'name_'); r = string(cx, 'regex_'); return this, [It(c, z3.IntVal(0)), cx.cell(r, 'regex_')]
    def e_im(cx, r):
        m, m0 = o(cx, '_macro_map'), o(cx, '_macro_map', 'old'); Q = z3.Int('Q'); cx.oblige('only a new macro name is accepted', z3.Not(SEL(m0.f['mem'], KEY))); cx.oblige('the macro is known', SEL(m.f['mem'], KEY)); cx.oblige('other macros stay', z3.Implies(Q != KEY, z3.And(SEL(m.f['mem'], Q) == SEL(m0.f['mem'], Q), SEL(m.f['val'].len, Q) == SEL(m0.f['val'].len, Q), SEL(m.f['val'].arr.f['_type'], Q) == SEL(m0.f['val'].arr.f['_type'], Q))))
        d = cx.data; cx.oblige('the macro is the regular expression given', z3.And(SEL(m.f['val'].len, KEY) == SEL(d['tl'], M - 1), z3.ForAll([k], SEL(SEL(m.f['val'].arr.f['_type'], KEY), k) == SEL(SEL(d['ty'], M - 1), k))))
        for q in VEC + ('_features', '_statemap', '_lexer_state_names'): cx.oblige('%s: unchanged' % q.strip('_'), same(o(cx, q, 'old'), o(cx, q)))
    out.append(Contract('insert_macro %d bit ids' % W, func=rfind(W, 'insert_macro', 2, lambda n: 'string' in norm(params_of(n)[1]) or 'basic_string' in norm(params_of(n)[1])), setup=s_im, ensures=e_im, throws=t_ps, loops=[], summaries=SUM + [(sub('validate'), maybe)], stream=stream, construct_opaque=opaque, opmethod=opmeth, mapkey=lambda cx, v: KEY, cstr=lambda cx, it: KEY, exec_class=PS))
    return out
CS = make(16) + make(8)
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'exploration'
SEARCH = ['L16.cpp']
RULE = 'random histories of push, push_state, insert_macro and clear calls, valid and invalid, with all overloads; the stored rules are compared with a plain record of the calls; non-trivial: histories with a rejected call'
ASSUMPTIONS = ['tokenise only reads the rules object (it gives the same token lists for the same text each time)', 'names are compared by value: a name is modelled by a key']
BOUNDED = ['push to named states (six parameters) and the forwarding overloads: bounded search against a record of the calls']
