"""Calls, constructors and the assumed contracts of the standard library parts lexertl uses.

Everything in class Std is TRUSTED: it states what the C++ standard says these members do
(on the abstract values of sym.py).  MODELLED collects the ones used by a run."""
import z3
from .front import *
from .sym import *
from .exec import *
from .interp import *

def chain(a, k):
    """alternative triggers: select on the array and on the arrays it was stored over"""
    out = [z3.Select(a, k)]
    while z3.is_store(a):
        a = a.arg(0); out.append(z3.Select(a, k))
    return [x for x in out if not z3.is_const_array(x.arg(0))] or out[:1]

class Std(Interp):
    def trust(self, s): self.assumptions.add('std: ' + s)

    # ------------------------------------------------------------ dispatch
    def find_contract(self, f):
        return None

    def find_summary(self, f, static=False):
        q = self.u.qual.get(f['id'], f.get('name', '?'))
        for pred, h in self.c.summaries:
            if isinstance(pred, str):
                if q == pred or q.endswith('::' + pred): return h
            elif pred(q, f): return h
        return None

    def bind_args(self, f, nodes):
        ps = params_of(f); out = []
        for i, a in enumerate(nodes):
            if a.get('kind') == 'CXXDefaultArgExpr' and not kids(a):
                p = ps[i]; ini = [c for c in kids(p) if 'kind' in c and not c['kind'].endswith('Attr')]
                a = ini[0]
            if i < len(ps):
                t = norm_type(ps[i]['type'].get('desugaredQualType', ps[i]['type']['qualType']))
                if t.endswith('&'): out.append(self.ev(a))
                else:
                    v = self.rv(a)
                    try: v = self.conv(v, parse_type(t, self.u))
                    except ExtractError: pass
                    out.append(v)
            else: out.append(self.rv(a))
        return out

    def call_user(self, f, this, nodes, site, args=None):
        if args is None: args = self.bind_args(f, nodes)
        h = self.find_summary(f)
        q = self.u.qual.get(f['id'], f.get('name', '?'))
        if h is not None:
            self.contracted_calls.add(q)
            r = h(self.cx, f, this, args, site)
            if r is not NotImplemented: return r
        self.inlined.add(q)
        self.callstack.append(site['id'])
        try: return self.call_body(f, this, args)
        finally: self.callstack.pop()

    def ex_CallExpr(self, e):
        ks = kids(e)
        c = ks[0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c.get('kind') == 'DeclRefExpr':
            d = c['referencedDecl']; f = self.u.byid.get(d['id'])
            if f is not None and f.get('kind') in FUNCS:
                if has_body(f): return self.call_user(f, None, ks[1:], e)
                h = self.find_summary(f)
                if h is not None: return h(self.cx, f, None, self.bind_args(f, ks[1:]), e)
            if self.c.ext and d.get('name', '') in self.c.ext: self.trust('external ' + d['name']); return self.c.ext[d['name']](self.cx, ks[1:], e)
            h = getattr(self, 'fn_' + d.get('name', ''), None)
            if h: return h(e, ks[1:])
            raise ExtractError('call of ' + d.get('name', '?'))
        if c.get('kind') == 'CXXPseudoDestructorExpr': return VOID
        if c.get('kind') == 'MemberExpr':
            if 'function type' not in c.get('type', {}).get('qualType', '') and self.c.callptr: return self.c.callptr(self.cx, self.rv(c), ks[1:], e)
            return self.member_call(e, c, ks[1:])
        raise ExtractError('call through ' + str(c.get('kind')))

    def ex_CXXMemberCallExpr(self, e):
        ks = kids(e); c = ks[0]
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): c = c['inner'][0]
        return self.member_call(e, c, ks[1:])

    def member_call(self, e, c, argn):
        name = c.get('name'); f = self.u.byid.get(c.get('referencedMemberDecl'))
        objn = kids(c)[0] if kids(c) else None
        if f is not None and f.get('kind') == 'CXXMethodDecl' and (has_body(f) or f.get('pure') or f.get('virtual') or self.find_summary(f)):
            if f.get('storageClass') == 'static': return self.call_user(f, None, argn, e)
            if c.get('isArrow'):
                this = self.deref(self.rv(objn), objn)
            else:
                v = self.ev(objn); this = v if isinstance(v, LV) else self.new_cell(v)
            if f.get('virtual') and not self.is_super_call(c):
                h = self.find_summary(f)
                if h is None:
                    hook = getattr(self.c, 'virt', None)
                    if hook: return hook(self.cx, this, f, argn, e)
                    f2 = self.devirt(f, this)
                    if f2 is not None: f = f2
            return self.call_user(f, this, argn, e)
        if f is not None and f.get('kind') == 'CXXMethodDecl' and not has_body(f):
            # declared elsewhere (e.g. implicit)
            if name == 'operator=':
                pass
        # std member
        if c.get('isArrow'):
            p = self.rv(objn)
            lv = self.deref(p, objn)
        else:
            v = self.ev(objn); lv = v if isinstance(v, LV) else self.new_cell(v)
        return self.std_member(name, lv, argn, e)

    def is_super_call(self, c):
        return False

    def devirt(self, f, this):
        v = self.load(this)
        if isinstance(v, S) and v.ty in self.u.records:
            # dynamic type known: search the class, then its bases
            def look(r):
                n = self.u.records.get(r)
                for m in (n or {}).get('inner', []):
                    if m.get('kind') == 'CXXMethodDecl' and m.get('name') == f.get('name') and len(params_of(m)) == len(params_of(f)) and has_body(m) \
                       and m['type']['qualType'].endswith('const') == f['type']['qualType'].endswith('const'):
                        return m
                for b in self.u.record_bases(r):
                    x = look(self.find_record(b) or b)
                    if x is not None: return x
            return look(v.ty)
        return None

    def std_member(self, name, lv, argn, e):
        o = self.load(lv)
        if isinstance(o, V): kind = 'V'
        elif isinstance(o, S): kind = o.ty if o.ty in ('set', 'map', 'opt', 'pair') else 'rec'
        elif isinstance(o, It): kind = 'It'
        elif isinstance(o, Op): kind = 'Op'
        else: kind = type(o).__name__
        m = getattr(self, f'm_{kind}_{name}', None)
        if m is None:
            if kind == 'Op' and name in o.d and callable(o.d[name]): return o.d[name](self, lv, argn, e)
            if kind == 'Op' or kind == 'rec':
                h = getattr(self.c, 'opmethod', None)
                if h:
                    r = h(self.cx, o, name, lv, argn, e)
                    if r is not NotImplemented: return r
            raise ExtractError(f'member {name} on {kind} ({o if kind=="Op" else ""})')
        self.trust(f'{kind}::{name}')
        return m(lv, argn, e)

    def ex_CXXOperatorCallExpr(self, e):
        ks = kids(e); c = ks[0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        d = c.get('referencedDecl', {}); name = d.get('name', '')
        f = self.u.byid.get(d.get('id'))
        if f is not None and f.get('kind') in FUNCS and (has_body(f) or self.find_summary(f)):
            if f['kind'] == 'CXXMethodDecl':
                v = self.ev(ks[1])
                o = v if isinstance(v, Op) else self.val(v) if name == 'operator()' else None
                if isinstance(o, Op) and o.tag == 'lambda': return self.call_lambda(o, f, [self.ev(x) for x in ks[2:]], e)
                this = v if isinstance(v, LV) else self.new_cell(v)
                return self.call_user(f, this, ks[2:], e)
            return self.call_user(f, None, ks[1:], e)
        op = name[len('operator'):]
        if op == '()':
            raise ExtractError('operator() on %r' % (o,))
        if op == '=':
            r = self.rv(ks[2]); lv = self.ev(ks[1])
            if isinstance(r, Op) and r.tag == 'strlit': r = self.mkstr(r)
            if isinstance(r, Null):
                cur = self.load(lv)
                if isinstance(cur, S) and cur.ty == 'opt': r = cur.set('some', False)
            if isinstance(self.load(lv), Op) and self.load(lv).tag == 'ignore': return lv
            # move from unique_ptr
            self.storev(lv, r)
            return lv
        if op in ('++', '--') :
            lv = self.ev(ks[1]); old = self.load(lv)
            new = self.it_step(old, 1 if op == '++' else -1)
            self.storev(lv, new)
            return old if len(ks) > 2 else lv
        if op == '*' and len(ks) == 2:
            p = self.ev(ks[1]); o = self.val(p)
            if isinstance(o, S) and o.ty == 'opt': return self.opt_deref(p)
            return self.deref(o, ks[1])
        if op == '->':
            p = self.ev(ks[1]); o = self.val(p)
            if isinstance(o, S) and o.ty == 'opt': return Ad(self.opt_deref(p))
            if isinstance(o, S) and o.ty == 'keyit' and self.load(o.f['set'].lv).ty == 'map':
                self.check('map iterator is not the end', z3.Not(Z(o.f['end'])))
                return Ad(o.f['set'].lv.i(Z(o.f['key'])))
            return Ad(self.deref(o, ks[1]))
        if op == '[]':
            lv = self.lvof(ks[1]); o = self.load(lv)
            i = self.rv(ks[2])
            if isinstance(o, V):
                self.trust('operator[]')
                if self.bv and isz(i) and z3.is_bv(i): i = z3.simplify(z3.BV2Int(i))
                self.check('subscript in bounds', z3.And(Z(i) >= 0, Z(i) < Z(o.len)))
                return lv.i(Z(i))
            if isinstance(o, S) and o.ty == 'opt': raise ExtractError('unique_ptr[]')
            if isinstance(o, S) and o.ty == 'map': return self.map_index(lv, i)
            raise ExtractError('[] on %r' % (o,))
        if op in ('<<', '>>') and getattr(self.c, 'stream', None):
            return self.c.stream(self.cx, op, self.ev(ks[1]), ks[2], e)
        a = self.rv(ks[1]); b = self.rv(ks[2]) if len(ks) > 2 else None
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(a, S) and a.ty == 'opt' and isinstance(b, Null):
                return a.f['some'] if op == '!=' else self.bnot(a.f['some'])
            if isinstance(b, S) and b.ty == 'opt' and isinstance(a, Null):
                return b.f['some'] if op == '!=' else self.bnot(b.f['some'])
            if isinstance(a, (It, Ad, Null)) or isinstance(b, (It, Ad, Null)): return self.cmp_ptr(op, a, b)
            if op in ('==', '!='):
                self.trust('operator== element-wise')
                r = self.val_eq(a, b)
                return r if op == '==' else self.bnot(r)
            h = getattr(self.c, 'less', None)
            raise ExtractError(f'operator{op} on {type(a).__name__}')
        if op in ('+', '-') and isinstance(a, It):
            if isinstance(b, It): return self.binop('-', a, b, None, None, None)
            return It(a.base, self.iadd(a.idx, b if op == '+' else self.neg(b)))
        if op == '+' and (isinstance(a, V) or isinstance(b, V)):
            x = self.new_cell(a if isinstance(a, V) else self.mkstr(a), 'cat')
            self.str_append(x, b)
            return self.load(x)
        if op in ('+=', '-='):
            lv = self.ev(ks[1])
            if isinstance(a, It):
                self.storev(lv, It(a.base, self.iadd(a.idx, b if op == '+=' else self.neg(b)))); return lv
            if isinstance(a, V): self.str_append(lv, b); return lv
        if op == '<<' or op == '>>':
            h = getattr(self.c, 'stream', None)
            if h: return h(self.cx, op, self.ev(ks[1]), ks[2], e)
        if op == '!':
            return self.bnot(self.tobool(a))
        raise ExtractError(f'operator{op} on {a!r:.80}, {b!r:.80}')

    def it_step(self, p, d):
        if isinstance(p, It): return It(p.base, self.iadd(p.idx, d))
        if isinstance(p, S) and p.ty == 'keyit': return self.keyit_step(p, d)
        raise ExtractError(f'++ on {p}')

    def val_eq(self, a, b):
        if isinstance(a, S) and isinstance(b, S):
            if a.ty == 'keyit' and b.ty == 'keyit':
                ea, eb = Z(a.f['end']), Z(b.f['end'])
                return z3.simplify(z3.And(ea == eb, z3.Or(ea, Z(a.f['key']) == Z(b.f['key']))))
            if a.ty in ('set', 'map'): raise ExtractError('set comparison')
            r = True
            for k in a.f: r = self.band(r, self.val_eq(a.f[k], b.f[k]))
            return r
        if isinstance(a, V) and isinstance(b, V):
            i = z3.Int(self.fresh_name('ieq'))
            e = self.val_eq(self.sel(a.arr, i), self.sel(b.arr, i))
            return z3.And(Z(a.len) == Z(b.len), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < Z(a.len)), Z(e))))
        if isinstance(a, Op) and a.tag == 'strlit' : a = self.mkstr(a); return self.val_eq(a, b)
        if isinstance(b, Op) and b.tag == 'strlit' : b = self.mkstr(b); return self.val_eq(a, b)
        return self.cmp('==', a, b)

    def mkstr(self, o):
        if isinstance(o, V): return o
        if isinstance(o, Op) and o.tag == 'strlit':
            lv = self.strlit_ptr(o).base; v = self.load(lv)
            return V(v.ety, v.len - 1, v.arr)
        raise ExtractError('string from %r' % (o,))

    def call_lambda(self, o, f, argn, site):
        """a closure: its captured copies are cells of their own, its body runs in its own frame"""
        ps = params_of(f)
        if len(ps) != len(argn): raise ExtractError('lambda with parameters')
        self.inlined.add(self.u.qual.get(f['id'], 'lambda')); self.callstack.append(site['id'])
        try:
            fr = Frame(f, None)
            for vid, name, v in o.d['caps']: fr.vars[vid] = fr.names[name] = v if isinstance(v, LV) else self.new_cell(v, name); fr.order.append(name)
            for p_, v in zip(ps, argn): fr.vars[p_['id']] = fr.names[p_.get('name', '?')] = v if isinstance(v, LV) else self.new_cell(v, 'p')
            self.frames.append(fr)
            try:
                try: self.st(body_of(f)); return VOID
                except ReturnEx as e: return e.v
            finally: self.frames.pop()
        finally: self.callstack.pop()
    def fn_find(self, e, a):
        """std::find over a vector"""
        f, l = self.rv(a[0]), self.rv(a[1]); x = self.rv(a[2])
        if not (isinstance(f, It) and isinstance(l, It) and lv_eq(f.base, l.base)) or not (isz(x) or isinstance(x, int)): raise ExtractError('std::find arguments')
        o = self.load(f.base); self.check('std::find range', z3.And(0 <= Z(f.idx), Z(f.idx) <= Z(l.idx), Z(l.idx) <= Z(o.len))); self.trust('std::find')
        r = z3.Int(self.fresh_name('found')); q = z3.Int('q?')
        self.assume(z3.And(r >= Z(f.idx), r <= Z(l.idx), z3.Or(r == Z(l.idx), z3.Select(o.arr, r) == Z(x))))
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= Z(f.idx), q < r), z3.Select(o.arr, q) != Z(x)), patterns=[z3.Select(o.arr, q)]))
        return It(f.base, r)

    def fn_memmove(self, e, a):
        """memmove inside one vector"""
        d, s, n = [self.rv(x) for x in a]
        if not (isinstance(d, It) and isinstance(s, It) and lv_eq(d.base, s.base)): raise ExtractError('memmove arguments')
        o = self.load(d.base); w = max(1, o.ety.a[0] // 8) if o.ety.k == 'int' else None
        if w is None: raise ExtractError('memmove of a class')
        self.check('memmove moves whole elements', Z(n) % w == 0); m = z3.Int(self.fresh_name('moved')); self.assume(m * w == Z(n)); self.trust('memmove')
        self.check('memmove stays inside the buffer', z3.And(Z(d.idx) >= 0, Z(s.idx) >= 0, m >= 0, Z(d.idx) + m <= Z(o.len), Z(s.idx) + m <= Z(o.len)))
        b = z3.Const(self.fresh_name('moved'), o.arr.sort()); q = z3.Int('q?')
        self.assume(z3.ForAll([q], z3.Select(b, q) == z3.If(z3.And(Z(d.idx) <= q, q < Z(d.idx) + m), z3.Select(o.arr, q - Z(d.idx) + Z(s.idx)), z3.Select(o.arr, q)), patterns=[z3.Select(b, q)]))
        self.storev(d.base, V(o.ety, o.len, b)); return d

    def fn_find_if(self, e, a):
        """the first element that satisfies the predicate: the predicate's body is run on an arbitrary element"""
        f, l, o = [self.rv(x) for x in a]
        if not (isinstance(f, It) and isinstance(l, It) and lv_eq(f.base, l.base) and isinstance(o, Op) and o.tag == 'lambda'): raise ExtractError('std::find_if')
        self.trust('std::find_if'); src = self.load(f.base); lo, hi = Z(f.idx), Z(l.idx); self.check('range is valid', z3.And(lo >= 0, lo <= hi, hi <= Z(src.len)))
        if self.decide(lo == hi): return l
        rec = [c for c in kids(o.d['node']) if c.get('kind') == 'CXXRecordDecl'][0]; fn = [m for m in rec['inner'] if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()'][0]
        j = z3.Int(self.fresh_name('elem')); self.assume(z3.And(j >= lo, j < hi)); npc = len(self.store)
        phi = self.call_lambda(o, fn, [f.base.i(j)], e); phi = phi if z3.is_bool(phi) else z3.BoolVal(phi) if isinstance(phi, bool) else Z(phi) != 0
        r = z3.Int(self.fresh_name('found')); q = z3.Int('q?'); at = lambda t: z3.substitute(phi, (j, t))
        self.assume(z3.And(r >= lo, r <= hi, z3.Implies(r < hi, at(r)))); pats = [z3.Select(d, q) for _, d in vleaves(src.arr)][:1]
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < r), z3.Not(at(q))), patterns=pats) if pats else z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < r), z3.Not(at(q)))))
        return It(f.base, r)
    def fn_copy(self, e, a):
        f, l, d = [self.rv(x) for x in a]
        if not all(isinstance(x, It) for x in (f, l, d)): raise ExtractError('std::copy')
        self.trust('std::copy'); src = self.load(f.base); n = z3.simplify(Z(l.idx) - Z(f.idx))
        self.check('range is valid', z3.And(Z(f.idx) >= 0, Z(f.idx) <= Z(l.idx), Z(l.idx) <= Z(src.len)))
        o = self.load(d.base); room = z3.And(Z(d.idx) >= 0, Z(d.idx) + n <= Z(o.len))
        if self.c.copyroom: self.assume(room)          # the caller of the function provides a large enough buffer
        else: self.check('output has room', room)
        arr = self.fresh(o.ety, 'out', 1); k = z3.Int('k?'); b = Z(d.idx)
        for (p, x), (q, y), (r, t) in zip(vleaves(arr), vleaves(o.arr), vleaves(src.arr)):
            self.assume(z3.ForAll([k], z3.Select(x, k) == z3.If(z3.And(k >= b, k < b + n), z3.Select(t, k - b + Z(f.idx)), z3.Select(y, k)), patterns=[z3.Select(x, k)]))
        self.storev(d.base, V(o.ety, o.len, arr)); return It(d.base, z3.simplify(b + n))
    def mapkey(self, v):
        h = getattr(self.c, 'mapkey', None)
        return h(self.cx, v) if h else v
    def m_map_insert(self, lv, a, e):
        if len(a) != 1: raise ExtractError('map insert')
        p = self.rv(a[0]); k = Z(self.toint(self.mapkey(p.f['first']))); o = self.load(lv); was = z3.Select(o.f['mem'], k); fresh = self.set_insert(lv, k); o2 = self.load(lv)
        self.storev(lv, o2.set('val', vzip(lambda a, x: z3.If(was, a, z3.Store(a, k, coerce(x, a.range()))), o.f['val'], p.f['second']))); return S('pair', {'first': S('keyit', {'set': Ad(lv), 'key': k, 'end': False}), 'second': fresh})
    def m_map_find(self, lv, a, e):
        k = Z(self.toint(self.mapkey(self.rv(a[0])))); o = self.load(lv); return S('keyit', {'set': Ad(lv), 'key': k, 'end': z3.Not(z3.Select(o.f['mem'], k))})
    def m_map_cend(self, lv, a, e): return S('keyit', {'set': Ad(lv), 'key': 0, 'end': True})
    m_map_end = m_map_cend
    def keyseq(self, lv):
        """the keys (or entries) of a set or map, in the order of the keys, as a sequence"""
        o = self.load(lv); n = Z(o.f['size']); nm = self.fresh_name('keys'); I = z3.IntSort(); od = z3.Const(nm, z3.ArraySort(I, I)); ix = z3.Function(nm + '.at', I, I); q, r = z3.Ints('q? r?'); S_ = z3.Select
        self.trust('set/map iteration visits every key once'); self.assume(n >= 0)
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(S_(o.f['mem'], S_(od, q)), ix(S_(od, q)) == q)), patterns=[S_(od, q)]))
        self.assume(z3.ForAll([r], z3.Implies(S_(o.f['mem'], r), z3.And(ix(r) >= 0, ix(r) < n, S_(od, ix(r)) == r)), patterns=[S_(o.f['mem'], r), ix(r)]))
        if not getattr(self.c, 'mapkey', None): self.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n), S_(od, q) < S_(od, r)), patterns=[z3.MultiPattern(S_(od, q), S_(od, r))]))
        self.keyat = ix
        if o.ty == 'set': return V(parse_type('int'), n, od)
        def pick(a): x = z3.Const(self.fresh_name('vals'), z3.ArraySort(I, a.range())); self.assume(z3.ForAll([q], S_(x, q) == S_(a, S_(od, q)), patterns=[S_(x, q)])); return x
        return V(parse_type('std::pair<int, int>'), n, S('pair', {'first': od, 'second': vmap(pick, o.f['val'])}))
    def m_set_begin(self, lv, a, e):
        return It(self.new_cell(self.keyseq(lv), 'keys'), 0)
    m_set_cbegin = m_map_begin = m_map_cbegin = m_set_begin

    # ------------------------------------------------------------ constructors
    def find_ctor(self, e, quiet=False):
        try: ty = self.ety(e)
        except ExtractError:
            return None
        if ty.k != 'rec': return None
        r = self.find_record(ty.name)
        if r is None: return None
        ct = norm_type(e.get('ctorType', {}).get('qualType', ''))
        n = self.u.records[r]; cands = []
        for m in n.get('inner', []):
            if m.get('kind') == 'CXXConstructorDecl': cands.append(m)
            if m.get('kind') == 'FunctionTemplateDecl':
                cands += [x for x in m.get('inner', []) if x.get('kind') == 'CXXConstructorDecl' and has_body(x)]
        ex = [m for m in cands if norm_type(m['type']['qualType']) == ct]
        if len(ex) == 1: return ex[0]
        na = len(params_of_ct(ct))
        c2 = [m for m in cands if len(params_of(m)) == na and has_body(m)]
        if len(ex) == 0 and len(c2) == 1: return c2[0]
        return None

    def is_copy_ctor(self, e, ty):
        ct = norm_type(e.get('ctorType', {}).get('qualType', ''))
        ps = params_of_ct(ct)
        if len(ps) != 1: return False
        t = strip_const(ps[0].rstrip('&').strip())
        try: return parse_type(t, self.u) == ty or self.find_record(t) == (self.find_record(ty.name) if ty.k == 'rec' else 0)
        except ExtractError: return False

    def ex_CXXTemporaryObjectExpr(self, e): return self.ex_CXXConstructExpr(e)

    def ex_CXXConstructExpr(self, e):
        ty = self.ety(e)
        ks = [k for k in kids(e)]
        if ty.k == 'rec' and self.find_record(ty.name) is not None:
            ct = self.find_ctor(e)
            h = self.find_summary(ct) if ct is not None else None
            if ct is None or not has_body(ct) and not any(c.get('kind') == 'CXXCtorInitializer' for c in ct.get('inner', [])):
                if len(ks) == 1: return self.rv(ks[0])   # implicit / defaulted copy or move
                if len(ks) == 0: return self.default_construct(ty)
                raise ExtractError('constructor of ' + ty.name)
            if h is None and len(ks) == 1 and (ct.get('isImplicit') or ct.get('explicitlyDefaulted')) : return self.rv(ks[0])
            lv = self.new_cell(self.zero_shape(ty), 'obj')
            self.construct(e, lv, ct=ct)
            return self.load(lv)
        vals = None
        if ty.k == 'rec':
            h = getattr(self.c, 'construct_opaque', None)
            if h: return h(self.cx, ty, ks, e)
            if not ks: return Op(ty.name)
            if len(ks) == 1: return self.rv(ks[0])
            raise ExtractError('construction of ' + ty.name)
        return self.std_construct(ty, ks, e)

    def zero_shape(self, ty):
        r = self.record(ty); f = {}
        for fn, ft, node in self.u.record_fields(r):
            t = parse_type(ft)
            init = [c for c in node.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
            if init: f[fn] = None
            elif t.k in ('int', 'bool') or self.is_enum(t): f[fn] = UNSET
            elif t.k in ('ptr', 'ref'): f[fn] = UNSET
            else:
                try: f[fn] = self.zero(t)
                except ExtractError: f[fn] = UNSET
        s = S(r, f)
        # default member initialisers are applied by ctor_inits (CXXDefaultInitExpr) where the
        # constructor does not name the member
        for fn, ft, node in self.u.record_fields(r):
            if s.f[fn] is None:
                init = [c for c in node.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
                s.f[fn] = self.conv(self.rv(init[0]), parse_type(ft))
        return s

    def construct(self, e, lv, ct=None, base=False):
        if ct is None:
            ct = self.find_ctor(e)
        if ct is None or not (has_body(ct)):
            if not kids(e): return
            raise ExtractError('base constructor')
        h = self.find_summary(ct)
        args = self.bind_args(ct, kids(e))
        if h is not None: return h(self.cx, ct, lv, args, e)
        self.inlined.add(self.u.qual.get(ct['id'], 'ctor'))
        self.callstack.append(e['id'])
        try: self.call_body(ct, lv, args)
        finally: self.callstack.pop()

    def std_construct(self, ty, ks, e):
        k = ty.k
        ks = [x for x in ks if not (x.get('kind') == 'CXXDefaultArgExpr')]
        if not ks: return self.zero(ty)
        if k == 'pair' and len(ks) == 2:
            return self.mkpair(ty, ks)
        if k == 'vec':
            vs = [self.rv(x) for x in ks]
            vs = [x for x in vs if not (isinstance(x, Op) and 'allocator' in x.tag)]
            if len(vs) == 1:
                v = vs[0]
                if isinstance(v, V): return v
                if isinstance(v, Op) and v.tag == 'strlit': return self.mkstr(v)
                if isinstance(v, (int,)) or isz(v):
                    return self.const_vec(ty.a[0], v, self.zero(ty.a[0]))
                if isinstance(v, It) and ty.name == 'str': 
                    h = getattr(self.c, 'cstr', None)
                    if h: return h(self.cx, v)
                raise ExtractError('vector from %r' % (v,))
            if len(vs) == 2:
                a, b = vs
                if isinstance(a, It) and isinstance(b, It):
                    return self.subrange(a, b)
                if isinstance(a, It): return self.subrange(a, It(a.base, self.iadd(a.idx, b)))
                return self.const_vec(ty.a[0], a, b)
            raise ExtractError('vector constructor')
        if k == 'opt':
            v = self.rv(ks[0])
            if self.is_heap_type(ty.a[0]) and not isinstance(v, (S, Op)): return 0 if isinstance(v, Null) else v
            if isinstance(v, Null): return self.zero(ty)
            if isinstance(v, S) and v.ty == 'opt': return v
            if isinstance(v, Op) and v.tag == 'new': return S('opt', {'some': True, 'val': v.d['v']})
            raise ExtractError('unique_ptr from %r' % (v,))
        if len(ks) == 1:
            return self.rv(ks[0])
        if k == 'view':
            a, n = self.rv(ks[0]), self.rv(ks[1])
            return Op('view', {'it': a, 'n': n})
        raise ExtractError(f'construct {ty} from {len(ks)} args')

    def mkpair(self, ty, ks):
        out = []
        for n, t in zip(ks, ty.a):
            v = self.rv(n)
            if t.k == 'int' and (isz(v) or isinstance(v, int)):
                st = self.ety(n)
                while st.k == 'ref': st = st.a[0]
                if st.k == 'int': v = self.cast_int(v, st, t)
            out.append(self.to_type(v, t))
        return S('pair', {'first': out[0], 'second': out[1]})

    def to_type(self, v, ty):
        return self.conv(v, ty)

    def subrange(self, a, b):
        if not lv_eq(a.base, b.base): raise ExtractError('range over two containers')
        src = self.load(a.base)
        if not isinstance(src, V): raise ExtractError('range source')
        n = self.iadd(b.idx, self.neg(a.idx) if not isinstance(a.idx, int) else -a.idx)
        self.check('range is valid', z3.And(Z(a.idx) >= 0, Z(a.idx) <= Z(b.idx), Z(b.idx) <= Z(src.len)))
        if isinstance(a.idx, int) and a.idx == 0: return V(src.ety, z3.simplify(Z(n)) if not isinstance(n, int) else n, src.arr)
        arr = self.fresh(src.ety, 'sub', 1)
        self.ax_copy(arr, 0, src.arr, a.idx, n)
        return V(src.ety, n, arr)

    def idxmaps(self):
        I = z3.IntSort(); n = self.fresh_name('map')
        return z3.Function('new2old.' + n, I, I), z3.Function('old2new.' + n, I, I)

    # facts about shifted copies: dst[di + k] == src[si + k] for 0<=k<n
    def ax_copy(self, dst, di, src, si, n, lo=None, hi=None):
        k = z3.Int('k?')
        di, si, n = Z(di), Z(si), Z(n)
        off = z3.simplify(si - di)
        for (p, d), (q, s) in zip(vleaves(dst), vleaves(src)):
            self.assume(z3.ForAll([k], z3.Implies(z3.And(k >= di, k < di + n), z3.Select(d, k) == z3.Select(s, z3.simplify(k + off))), patterns=[z3.Select(d, k)]))
            if not s.eq(d):
                self.assume(z3.ForAll([k], z3.Implies(z3.And(k >= si, k < si + n), z3.Select(d, z3.simplify(k - off)) == z3.Select(s, k)), patterns=chain(s, k)))

    # ------------------------------------------------------------ vector / string / stack / list
    def vget(self, lv): return self.load(lv)

    def m_V_size(self, lv, a, e):
        n = self.load(lv).len
        if self.bv and not self.c.int64: return z3.Int2BV(Z(n), 64)
        return n
    m_V_length = m_V_size
    def m_V_empty(self, lv, a, e):
        n = self.load(lv).len
        return n == 0 if isinstance(n, int) else Z(n) == 0
    def m_V_begin(self, lv, a, e): return It(lv, 0)
    m_V_cbegin = m_V_begin
    def m_V_data(self, lv, a, e): return It(lv, 0)
    def m_V_c_str(self, lv, a, e): return It(lv, 0)
    def m_V_end(self, lv, a, e): return It(lv, self.load(lv).len)
    m_V_cend = m_V_end
    def m_V_front(self, lv, a, e):
        self.check('front() of non-empty container', Z(self.load(lv).len) > 0)
        return lv.i(z3.IntVal(0))
    def m_V_back(self, lv, a, e):
        n = self.load(lv).len
        self.check('back() of non-empty container', Z(n) > 0)
        return lv.i(z3.simplify(Z(n) - 1))
    m_V_top = m_V_back
    def m_V_at(self, lv, a, e):
        i = self.rv(a[0]); o = self.load(lv)
        if not self.decide(z3.And(Z(i) >= 0, Z(i) < Z(o.len))): raise ThrowEx('std::out_of_range')
        return lv.i(Z(i))
    def vpush(self, lv, v):
        o = self.load(lv)
        v = self.unify(v, o.ety)
        arr = self.upd(o.arr, o.len, v)
        n = o.len + 1 if isinstance(o.len, int) else z3.simplify(Z(o.len) + 1)
        self.storev(lv, V(o.ety, n, arr))
    def unify(self, v, ety):
        if isinstance(v, Op) and v.tag == 'strlit': return self.mkstr(v)
        return v
    def m_V_push_back(self, lv, a, e): self.vpush(lv, self.rv(a[0])); return VOID
    m_V_push = m_V_push_back
    def m_V_emplace_back(self, lv, a, e):
        o = self.load(lv)
        v = self.build_elem(o.ety, a, e)
        self.vpush(lv, v)
        return lv.i(z3.simplify(Z(self.load(lv).len) - 1))
    m_V_emplace = m_V_emplace_back
    def build_elem(self, ety, a, e):
        if not a: return self.zero(ety)
        if ety.k == 'pair' and len(a) == 2:
            return self.mkpair(ety, a)
        if len(a) == 1:
            v = self.rv(a[0])
            if ety.k == 'vec' and not isinstance(v, V): 
                return self.std_construct(ety, a, e)
            if ety.k == 'opt' and isinstance(v, Op) and v.tag == 'new': return S('opt', {'some': True, 'val': v.d['v']})
            if ety.k == 'rec' and not isinstance(v, S): return self.emplace_rec(ety, a, e)
            return v
        if ety.k == 'vec': return self.std_construct(ety, a, e)
        if ety.k == 'rec': return self.emplace_rec(ety, a, e)
        raise ExtractError('emplace')
    def emplace_rec(self, ety, a, e):
        r = self.record(ety); n = self.u.records[r]
        cs = [m for m in n['inner'] if m.get('kind') == 'CXXConstructorDecl' and len(params_of(m)) == len(a) and has_body(m) and not m.get('isImplicit')]
        if len(cs) != 1: raise ExtractError('emplace constructor of ' + r)
        lv = self.new_cell(self.zero_shape(ety), 'obj')
        args = self.bind_args(cs[0], a)
        self.callstack.append(e['id'])
        try: self.call_body(cs[0], lv, args)
        finally: self.callstack.pop()
        return self.load(lv)
    def m_V_pop_back(self, lv, a, e):
        o = self.load(lv)
        self.check('pop of non-empty container', Z(o.len) > 0)
        self.storev(lv, V(o.ety, o.len - 1 if isinstance(o.len, int) else z3.simplify(Z(o.len) - 1), o.arr))
        return VOID
    m_V_pop = m_V_pop_back
    def m_V_clear(self, lv, a, e):
        o = self.load(lv); self.storev(lv, V(o.ety, 0, o.arr)); return VOID
    def m_V_reserve(self, lv, a, e): self.rv(a[0]); return VOID
    m_V_shrink_to_fit = lambda self, lv, a, e: VOID
    def m_V_resize(self, lv, a, e):
        a = [x for x in a if x.get('kind') != 'CXXDefaultArgExpr']
        o = self.load(lv); n = self.rv(a[0])
        x = self.rv(a[1]) if len(a) > 1 else self.zero(o.ety)
        if isinstance(o.len, int) and isinstance(n, int) and n <= o.len:
            self.storev(lv, V(o.ety, n, o.arr)); return VOID
        arr = self.fresh(o.ety, 'rsz', 1)
        k = z3.Int('k?')
        for (p, d), (q, s), (r, xx) in zip(vleaves(arr), vleaves(o.arr), vleaves(x)):
            self.assume(z3.ForAll([k], z3.Select(d, k) == z3.If(k < Z(o.len), z3.Select(s, k), coerce(xx, d.range())), patterns=[z3.Select(d, k)]))
        self.storev(lv, V(o.ety, n, arr)); return VOID
    def m_V_assign(self, lv, a, e):
        o = self.load(lv); x, y = self.rv(a[0]), self.rv(a[1])
        if isinstance(x, It): self.storev(lv, self.subrange(x, y))
        else: self.storev(lv, self.const_vec(o.ety, x, y))
        return VOID
    def m_V_swap(self, lv, a, e):
        o = self.lvof(a[0]); x, y = self.load(lv), self.load(o)
        self.storev(lv, y); self.storev(o, x); return VOID
    def m_V_erase(self, lv, a, e):
        i = self.rv(a[0]); o = self.load(lv)
        if isz(i) or isinstance(i, int):      # string::erase(pos)
            if len(a) > 1 and a[1].get('kind') != 'CXXDefaultArgExpr': raise ExtractError('erase(pos, n)')
            self.check('erase position is inside the string', z3.And(Z(i) >= 0, Z(i) <= Z(o.len))); self.storev(lv, V(o.ety, Z(i), o.arr)); return lv
        if not isinstance(i, It) or not lv_eq(i.base, lv): raise ExtractError('erase argument')
        if len(a) == 2:
            j = self.rv(a[1])
        else: j = It(i.base, self.iadd(i.idx, 1))
        self.check('erase range is valid', z3.And(Z(i.idx) >= 0, Z(i.idx) <= Z(j.idx), Z(j.idx) <= Z(o.len)))
        d = z3.simplify(Z(j.idx) - Z(i.idx))
        if z3.is_int_value(d) and d.as_long() == 0: return i
        arr = self.fresh(o.ety, 'ers', 1)
        k = z3.Int('k?'); ii, jj = Z(i.idx), Z(j.idx)
        g, h = self.idxmaps()
        # g: new position -> old position, h: old position -> new position of the survivors
        self.assume(z3.ForAll([k], z3.And(g(k) == z3.If(k < ii, k, k + d), h(g(k)) == k), patterns=[g(k)]))
        self.assume(z3.ForAll([k], z3.And(z3.Implies(k < ii, h(k) == k), z3.Implies(k >= jj, h(k) == k - d), z3.Implies(z3.Or(k < ii, k >= jj), g(h(k)) == k)), patterns=[h(k)]))
        for (p, dd), (q, s) in zip(vleaves(arr), vleaves(o.arr)):
            self.assume(z3.ForAll([k], z3.Select(dd, k) == z3.Select(s, g(k)), patterns=[z3.Select(dd, k)]))
            self.assume(z3.ForAll([k], z3.Implies(z3.Or(k < ii, k >= jj), z3.Select(dd, h(k)) == z3.Select(s, k)), patterns=chain(s, k)))
            self.assume(z3.Select(dd, z3.simplify(ii - 1)) == simp_select(s, z3.simplify(ii - 1)))
        self.storev(lv, V(o.ety, z3.simplify(Z(o.len) - d), arr))
        return It(lv, i.idx)
    def m_V_find(self, lv, a, e):
        """string::find(character): the first occurrence or npos"""
        if len(a) > 1 and a[1].get('kind') != 'CXXDefaultArgExpr': raise ExtractError('find(c, pos)')
        o = self.load(lv); c = self.rv(a[0])
        if not (isz(c) or isinstance(c, int)): raise ExtractError('find argument')
        r = z3.Int(self.fresh_name('found')); q = z3.Int('q?'); self.trust('basic_string::find')
        self.assume(z3.Or(r == 2 ** 64 - 1, z3.And(r >= 0, r < Z(o.len), z3.Select(o.arr, r) == Z(c))))
        self.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Z(o.len), z3.Or(r == 2 ** 64 - 1, q < r)), z3.Select(o.arr, q) != Z(c)), patterns=[z3.Select(o.arr, q)]))
        return r
    def m_V_insert(self, lv, a, e):
        o = self.load(lv); i = self.rv(a[0])
        if not isinstance(i, It): raise ExtractError('insert position')
        if len(a) == 3:
            f, l = self.rv(a[1]), self.rv(a[2])
            if isinstance(f, It):
                src = self.load(f.base)
                n = z3.simplify(Z(l.idx) - Z(f.idx))
                self.check('range is valid', z3.And(Z(f.idx) >= 0, Z(f.idx) <= Z(l.idx), Z(l.idx) <= Z(src.len)))
                self.check('insert position is valid', z3.And(Z(i.idx) >= 0, Z(i.idx) <= Z(o.len)))
                if self.c.heap and term_eq(i.idx, o.len) and term_eq(f.idx, 0):
                    # append a whole prefix: no positions move
                    self.str_append(lv, V(src.ety, n, src.arr)); return It(lv, i.idx)
                arr = self.fresh(o.ety, 'ins', 1)
                k = z3.Int('k?'); ii = Z(i.idx)
                fi = Z(f.idx); off = z3.simplify(fi - ii)
                g, h = self.idxmaps()
                self.assume(z3.ForAll([k], z3.And(z3.Implies(k < ii, g(k) == k), z3.Implies(k >= ii + n, g(k) == k - n), z3.Implies(z3.Or(k < ii, k >= ii + n), h(g(k)) == k)), patterns=[g(k)]))
                self.assume(z3.ForAll([k], z3.And(h(k) == z3.If(k < ii, k, k + n), g(h(k)) == k), patterns=[h(k)]))
                for (p, dd), (q, s), (r, t) in zip(vleaves(arr), vleaves(o.arr), vleaves(src.arr)):
                    self.assume(z3.ForAll([k], z3.Select(dd, k) == z3.If(z3.And(k >= ii, k < ii + n), z3.Select(t, z3.simplify(k + off)), z3.Select(s, g(k))), patterns=[z3.Select(dd, k)]))
                    self.assume(z3.ForAll([k], z3.Select(dd, h(k)) == z3.Select(s, k), patterns=chain(s, k)))
                    self.assume(z3.ForAll([k], z3.Implies(z3.And(k >= fi, k < fi + n), z3.Select(dd, z3.simplify(k - off)) == z3.Select(t, k)), patterns=chain(t, k)))
                self.storev(lv, V(o.ety, z3.simplify(Z(o.len) + n), arr))
                return It(lv, i.idx)
            raise ExtractError('insert(n, v)')
        v = self.rv(a[1])
        if not lv_eq(i.base, lv): raise ExtractError('insert position in another container')
        self.check('insert position is valid', z3.And(Z(i.idx) >= 0, Z(i.idx) <= Z(o.len)))
        arr = self.fresh(o.ety, 'ins', 1)
        k = z3.Int('k?'); ii = Z(i.idx)
        g, h = self.idxmaps()
        self.assume(z3.ForAll([k], z3.And(z3.Implies(k < ii, g(k) == k), z3.Implies(k > ii, g(k) == k - 1), z3.Implies(k != ii, h(g(k)) == k)), patterns=[g(k)]))
        self.assume(z3.ForAll([k], z3.And(h(k) == z3.If(k < ii, k, k + 1), g(h(k)) == k), patterns=[h(k)]))
        for (p, dd), (q, s), (r, x) in zip(vleaves(arr), vleaves(o.arr), vleaves(v)):
            x = coerce(x, dd.range())
            self.assume(z3.ForAll([k], z3.Select(dd, k) == z3.If(k == ii, x, z3.Select(s, g(k))), patterns=[z3.Select(dd, k)]))
            self.assume(z3.ForAll([k], z3.Select(dd, h(k)) == z3.Select(s, k), patterns=chain(s, k)))
            self.assume(z3.Select(dd, ii) == x)
        self.storev(lv, V(o.ety, z3.simplify(Z(o.len) + 1), arr))
        return It(lv, i.idx)
    def m_V_push_front(self, lv, a, e):
        v = self.rv(a[0]); o = self.load(lv)
        arr = self.fresh(o.ety, 'pf', 1); k = z3.Int('k?')
        for (p, dd), (q, s), (r, x) in zip(vleaves(arr), vleaves(o.arr), vleaves(v)):
            x = coerce(x, dd.range())
            self.assume(z3.Select(dd, 0) == x)
            self.assume(z3.ForAll([k], z3.Implies(k > 0, z3.Select(dd, k) == z3.Select(s, k - 1)), patterns=[z3.Select(dd, k)]))
            self.assume(z3.ForAll([k], z3.Implies(k >= 0, z3.Select(dd, k + 1) == z3.Select(s, k)), patterns=chain(s, k)))
        self.storev(lv, V(o.ety, z3.simplify(Z(o.len) + 1), arr)); return VOID
    def m_V_pop_front(self, lv, a, e):
        o = self.load(lv)
        self.check('pop_front of non-empty container', Z(o.len) > 0)
        arr = self.fresh(o.ety, 'pof', 1)
        self.ax_copy(arr, 0, o.arr, 1, z3.simplify(Z(o.len) - 1))
        self.storev(lv, V(o.ety, z3.simplify(Z(o.len) - 1), arr)); return VOID
    def str_append(self, lv, b):
        o = self.load(lv)
        if isinstance(b, Op) and b.tag == 'strlit': b = self.mkstr(b)
        if isinstance(b, V):
            if isinstance(b.len, int) and b.len <= 40:
                for i in range(b.len): self.vpush(lv, self.sel(b.arr, i))
                return
            arr = self.fresh(o.ety, 'app', 1); k = z3.Int('k?'); n = Z(o.len)
            for (p, dd), (q, s), (r, t) in zip(vleaves(arr), vleaves(o.arr), vleaves(b.arr)):
                self.assume(z3.ForAll([k], z3.Select(dd, k) == z3.If(k < n, z3.Select(s, k), z3.Select(t, k - n)), patterns=[z3.Select(dd, k)]))
                self.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(dd, k) == z3.Select(s, k)), patterns=chain(s, k)))
                self.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Z(b.len)), z3.Select(dd, k + n) == z3.Select(t, k)), patterns=chain(t, k)))
            self.storev(lv, V(o.ety, z3.simplify(n + Z(b.len)), arr)); return
        self.vpush(lv, b)
    def m_V_append(self, lv, a, e):
        vs = [self.rv(x) for x in a]
        if len(vs) == 1 and isinstance(vs[0], It):
            if not self.c.cstr: raise ExtractError('append of a C string')
            self.str_append(lv, self.subrange(vs[0], self.c.cstr(self.cx, vs[0])))
        elif len(vs) == 1: self.str_append(lv, vs[0])
        elif isinstance(vs[0], It) and isinstance(vs[1], It): self.str_append(lv, self.subrange(vs[0], vs[1]))
        elif isinstance(vs[0], It): self.str_append(lv, self.subrange(vs[0], It(vs[0].base, self.iadd(vs[0].idx, vs[1]))))
        else: raise ExtractError('append')
        return lv

    # ------------------------------------------------------------ unique_ptr
    def opt_deref(self, p):
        if not isinstance(p, LV): p = self.new_cell(p)
        o = self.load(p)
        self.check('owned pointer is not null', Z(o.f['some']))
        return p.f('val')
    def m_ArithRef_get(self, lv, a, e): return self.load(lv)      # owning pointer to a heap object: its address
    m_IntNumRef_get = m_ArithRef_get
    def m_opt_get(self, lv, a, e):
        o = self.load(lv)
        if o.f['some'] is True: return Ad(lv.f('val'))
        if self.decide(o.f['some']): return Ad(lv.f('val'))
        return NULL
    def m_opt_reset(self, lv, a, e):
        o = self.load(lv); self.storev(lv, o.set('some', False)); return VOID
    def m_opt_operator_bool(self, lv, a, e): return self.load(lv).f['some']
    def m_opt_swap(self, lv, a, e):
        o = self.lvof(a[0]); x, y = self.load(lv), self.load(o)
        self.storev(lv, y); self.storev(o, x); return VOID
    def m_opt_release(self, lv, a, e): raise ExtractError('release')
    def fn_make_unique(self, e, a):
        ty = self.ety(e)
        if ty.k != 'opt': raise ExtractError('make_unique type')
        el = ty.a[0]
        h = getattr(self.c, 'make_unique', None)
        if h:
            r = h(self.cx, el, a, e)
            if r is not NotImplemented: return r
        return S('opt', {'some': True, 'val': self.build_elem(el, a, e)})

    # ------------------------------------------------------------ set / map (integer keys)
    def m_set_empty(self, lv, a, e):
        n = self.load(lv).f['size']; return n == 0 if isinstance(n, int) else n == 0
    def m_set_size(self, lv, a, e): return self.load(lv).f['size']
    m_map_empty = m_set_empty; m_map_size = m_set_size
    def set_insert(self, lv, k):
        o = self.load(lv); k = Z(self.toint(k)); m = o.f['mem']
        was = z3.Select(m, k)
        self.storev(lv, o.set('mem', z3.Store(m, k, z3.BoolVal(True))).set('size', z3.simplify(Z(o.f['size']) + z3.If(was, 0, 1))))
        self.assume(z3.Implies(was, Z(o.f['size']) >= 1))
        return z3.Not(was)
    def m_set_insert(self, lv, a, e):
        if len(a) != 1: raise ExtractError('set insert')
        k = self.rv(a[0]); fresh = self.set_insert(lv, k)
        return S('pair', {'first': S('keyit', {'set': Ad(lv), 'key': k, 'end': False}), 'second': fresh})
    def m_set_find(self, lv, a, e):
        k = Z(self.toint(self.rv(a[0]))); o = self.load(lv)
        return S('keyit', {'set': Ad(lv), 'key': k, 'end': z3.Not(z3.Select(o.f['mem'], k))})
    def m_set_count(self, lv, a, e):
        k = Z(self.toint(self.rv(a[0]))); o = self.load(lv)
        return self.toint(z3.Select(o.f['mem'], k))
    def m_set_end(self, lv, a, e): return S('keyit', {'set': Ad(lv), 'key': 0, 'end': True})
    m_set_cend = m_set_end; m_map_end = m_set_end; m_map_cend = m_set_end
    def m_set_clear(self, lv, a, e):
        o = self.load(lv); self.storev(lv, o.set('mem', z3.K(z3.IntSort(), z3.BoolVal(False))).set('size', 0)); return VOID
    def m_map_clear(self, lv, a, e): return self.m_set_clear(lv, a, e)
    def map_index(self, lv, k):
        k = Z(self.toint(k)); o = self.load(lv); vt = None
        if not self.decide(z3.Select(o.f['mem'], k)):
            raise ExtractError('map[] inserting')
        return LV(lv.cell, lv.path + ('val', ('i', k)))
    def m_pair_swap(self, lv, a, e):
        o = self.lvof(a[0]); x, y = self.load(lv), self.load(o)
        self.storev(lv, y); self.storev(o, x); return VOID

    # ------------------------------------------------------------ free functions
    def fn_swap(self, e, a):
        x, y = self.lvof(a[0]), self.lvof(a[1]); p, q = self.load(x), self.load(y)
        self.storev(x, q); self.storev(y, p); self.trust('std::swap'); return VOID
    def fn_move(self, e, a):
        if len(a) == 1: return self.ev(a[0])
        raise ExtractError('std::move algorithm')
    def fn_forward(self, e, a): return self.ev(a[0])
    def fn_addressof(self, e, a): 
        return self.ex_UnaryOperator({'opcode': '&', 'inner': [a[0]], 'type': e['type']})
    def fn_min(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1])
        return x if self.decide(self.cmp('<=', x, y, True)) else y
    def fn_max(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1])
        return x if self.decide(self.cmp('>=', x, y, True)) else y
    def fn_distance(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1]); return self.binop('-', y, x, None, None, None)
    def fn_begin(self, e, a): return It(self.lvof(a[0]), 0)
    def fn_end(self, e, a):
        lv = self.lvof(a[0]); return It(lv, self.load(lv).len)
    def fn___assert_fail(self, e, a):
        self.oblige('assertion cannot fail', False); raise PathEnd()
    def fn_memcmp(self, e, a):
        p, q, n = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
        h = getattr(self.c, 'memcmp', None)
        if h: return h(self.cx, p, q, n, e)
        raise ExtractError('memcmp')
    def fn_tie(self, e, a): raise ExtractError('tie')

def params_of_ct(ct):
    if '(' not in ct: return []
    s = ct[ct.index('(') + 1:ct.rindex(')')]
    return [x for x in split_args(s) if x and x != 'void']
