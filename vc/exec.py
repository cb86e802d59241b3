"""Symbolic executor / verification-condition generator over the clang AST.

Direct style: one run follows one path, chosen by a list of decisions; alternatives
are queued and replayed.  Loops are cut by invariants (contracts), calls use the
callee's contract when one is registered and are inlined otherwise."""
import z3, sys, os
from .front import *
from .sym import *

sys.setrecursionlimit(20000)

class PathEnd(Exception): pass
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class GotoEx(Exception):
    def __init__(self, label): self.label = label
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class ThrowEx(Exception):
    def __init__(self, ty, info=None): self.ty = ty; self.info = info
class Restart(Exception): pass
class Mismatch(ExtractError): """contract structure does not fit the code"""

class Contract:
    """One contracted function (or lemma harness over real calls)."""
    def __init__(self, name, **kw):
        self.name = name
        self.func = None          # callable(unit) -> function node
        self.setup = None         # callable(cx): build pre-state, returns (this_lv, [args])
        self.ensures = None       # callable(cx, ret)
        self.throws = None        # callable(cx, exc): None -> throwing is an obligation failure
        self.loops = []           # list of invariants callables(cx)-> list[(name, formula)]
        self.labels = {}          # label name -> invariant
        self.mode = 'int'
        self.unroll = 0           # unroll loops whose condition is concretely decidable
        self.summaries = []       # [(pred(qual,node,ex,args)->bool, handler)]
        self.hints = None
        self.unsigned_wrap_ok = True
        for k, v in kw.items():
            if not hasattr(self, k): raise Exception('bad contract attr ' + k)
            setattr(self, k, v)
    locals = None
    havoc_extra = None
    timeout = 20
    run_custom = None
    heap = ()
    axioms = None
    inline_depth = 40
    maxpaths = 4000
    before_loop = None
    replay = None
    check_overflow = True
    reach = True
    merge = False             # at a cut, forget branch facts and explore the continuation once for all arrivals in the same state
    int64 = False             # bv mode: 64-bit counters/sizes as mathematical integers with range
    copyroom = False
    ext = callptr = virt = stream = memcmp = cstr = make_unique = opmethod = construct_opaque = reinterpret = exec_class = less = mapkey = None

class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'fn', 'loc', 'path', 'timeout', 'status', 'backend', 'time', 'model', 'trivial', 'txt', 'quant')
    def __init__(self, name, hyps, goal, fn, loc, path, timeout):
        self.name = name; self.hyps = hyps; self.goal = goal; self.fn = fn; self.loc = loc; self.path = path
        self.timeout = timeout; self.status = None; self.backend = None; self.time = 0; self.model = None

class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn; self.vars = {}; self.this = this; self.names = {}; self.order = []

_hq = {}; _hqkeep = []
def has_quant(f):
    """does a quantifier occur in f (memoised; terms are kept alive so ids stay unique)"""
    r = _hq.get(f.get_id())
    if r is not None: return r
    st = [(f, False)]
    while st:
        e, done = st.pop(); i = e.get_id()
        if i in _hq: continue
        if z3.is_quantifier(e): _hq[i] = True; _hqkeep.append(e); continue
        ch = e.children()
        if not ch: _hq[i] = False; _hqkeep.append(e); continue
        if done: _hq[i] = any(_hq[c.get_id()] for c in ch); _hqkeep.append(e)
        else:
            st.append((e, True))
            for c in ch:
                if c.get_id() not in _hq: st.append((c, False))
    return _hq[f.get_id()]

class Exec:
    def __init__(self, unit, contract, contracts=()):
        self.u = unit; self.c = contract; self.contracts = list(contracts)
        self.obls = []; self.oblkeys = set()
        self.havoc = {}           # loop key -> set of (cell, leafpath)
        self.npaths = 0; self.covered = set(); self.exits = {'return': 0, 'throw': 0}
        self.assumptions = set()
        self.inlined = set(); self.contracted_calls = set(); self.loops_seen = {}
        self.bv = contract.mode == 'bv'
        self.loop_order = None
        self.decls = []           # declaration baseline of the top frame
        self.covers = []
        self.stop = False

    # ------------------------------------------------------------ top level
    def explore(self):
        """run all paths"""
        while True:
            try:
                self.obls = []; self.oblkeys = set(); self.npaths = 0
                self.exits = {'return': 0, 'throw': 0}; self.covers = []; self.cuts = {}
                work = [()]
                while work:
                    pre = work.pop()
                    self.work = work
                    self.npaths += 1
                    if self.npaths > self.c.maxpaths: raise ExtractError('too many paths')
                    self.run_path(pre)
                return
            except Restart:
                continue

    def run_path(self, prefix):
        self.prefix = list(prefix); self.dec = []
        self.pc = []; self.qf = z3.Solver(); self.qf.set('timeout', 400)
        self.store = {}; self.frames = []; self.ncell = 0; self.nfresh = 0; self.rng = {}
        self.labels = {}; self.loopstack = []; self.callstack = []
        self.ghost = {}
        self.keep = []; self.kept = []
        self.exc_handlers = 0
        cx = self.cx = Cx(self)
        c = self.c
        try:
            if c.run_custom:
                c.run_custom(cx)
                self.exits['return'] += 1
                return
            fn = c.func(self.u)
            this, args = c.setup(cx)
            cx.snapshot('old'); self.kept = list(self.pc)
            if not self.dec: self.covers.append(('precondition satisfiable', list(self.pc)))
            try:
                ret = self.call_body(fn, this, args)
            except ThrowEx as e:
                if c.throws is None:
                    self.oblige('no exception escapes', False)
                else:
                    self.exits['throw'] += 1
                    self.covers.append(('exceptional exit', list(self.pc)))
                    c.throws(cx, e)
                return
            self.exits['return'] += 1
            self.covers.append(('normal exit', list(self.pc)))
            if c.ensures: c.ensures(cx, ret)
        except PathEnd:
            pass

    # ------------------------------------------------------------ facts
    def fresh_name(self, base):
        self.nfresh += 1
        return f'{base}!{self.nfresh}'

    def assume(self, f):
        if isinstance(f, bool):
            if not f: 
                self.pc.append(z3.BoolVal(False)); self.qf.add(False)
            return
        if z3.is_true(f): return
        self.pc.append(f)
        self.qf_add(f)

    def qf_add(self, f):
        if isinstance(f, bool): self.qf.add(z3.BoolVal(f)); return
        if z3.is_and(f):
            for x in f.children():
                if not has_quant(x): self.qf.add(x)
        elif not has_quant(f): self.qf.add(f)

    def qf_valid(self, f):
        f = Z(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        self.qf.push(); self.qf.add(z3.Not(f)); r = self.qf.check(); self.qf.pop()
        return r == z3.unsat

    def decide(self, cond, what=''):
        if isinstance(cond, bool): return cond
        if isinstance(cond, int): return cond != 0
        s = z3.simplify(cond)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        k = len(self.dec)
        if k < len(self.prefix):
            b = self.prefix[k]
        else:
            self.qf.push(); self.qf.add(cond); t = self.qf.check() != z3.unsat; self.qf.pop()
            self.qf.push(); self.qf.add(z3.Not(cond)); f = self.qf.check() != z3.unsat; self.qf.pop()
            if t and f:
                self.work.append(tuple(self.dec) + (False,)); b = True
            elif t: b = True
            elif f: b = False
            else: raise PathEnd()
        self.dec.append(b)
        self.assume(cond if b else z3.Not(cond))
        return b

    def choose(self, name):
        """non-deterministic choice"""
        k = len(self.dec)
        if k < len(self.prefix): b = self.prefix[k]
        else:
            self.work.append(tuple(self.dec) + (False,)); b = True
        self.dec.append(b)
        return b

    def oblige(self, name, goal, loc=None, timeout=None):
        key = (name, tuple(self.dec), loc, len(self.pc))
        goal = Z(goal)
        if key in self.oblkeys: return
        self.oblkeys.add(key)
        if z3.is_and(goal) and goal.num_args() > 1 and False:
            pass
        self.obls.append(Obl(name, list(self.pc), goal, self.c.name, loc or self.curloc(), tuple(self.dec), timeout or self.c.timeout))

    def check(self, name, goal):
        """obligation, then assumed on the rest of the path"""
        g = Z(goal)
        if z3.is_true(z3.simplify(g)):
            return
        self.oblige(name, g)
        self.assume(g)

    def curloc(self):
        return getattr(self, '_loc', '')

    # ------------------------------------------------------------ store
    def new_cell(self, v, name='t'):
        self.ncell += 1
        c = f'{name}#{self.ncell}'
        self.store[c] = v
        return LV(c)

    def load(self, lv, ty=None):
        if lv.cell not in self.store: raise ExtractError(f'load of dead cell {lv}')
        v = self.store[lv.cell]
        for p in lv.path: v = self.step(v, p, lv)
        return v

    def step(self, v, p, lv=None):
        if isinstance(p, str):
            if isinstance(v, S) and p in v.f: return v.f[p]
            raise ExtractError(f'no field {p} in {v} ({lv})')
        idx = p[1]
        if isinstance(v, V): return self.sel(v.arr, idx)
        if isinstance(v, S) and v.ty == 'map': return S('pair', {'first': idx, 'second': self.sel(v.f['val'], idx)})
        if isinstance(v, S) and '#elems' in v.f: return self.sel(v.f['#elems'], idx)
        raise ExtractError(f'index into {v} ({lv})')

    def sel(self, arr, idx):
        idx = Z(idx)
        def g(a):
            if not isz(a): raise ExtractError('select on non-array %r' % (a,))
            return simp_select(a, idx)
        return vmap(g, arr)

    def upd(self, arr, idx, v):
        idx = Z(idx)
        return vzip(lambda a, x: a if isz(x) and x.eq(simp_select(a, idx)) else z3.Store(a, idx, coerce(x, a.range())), arr, v)

    def storev(self, lv, v):
        if lv.cell not in self.store: raise ExtractError(f'store to dead cell {lv}')
        def rec(cur, path):
            if not path: return v
            p = path[0]
            if isinstance(p, str):
                if not isinstance(cur, S): raise ExtractError(f'no field {p} in {cur}')
                return cur.set(p, rec(cur.f[p], path[1:]))
            idx = p[1]
            if isinstance(cur, V):
                return V(cur.ety, cur.len, self.upd(cur.arr, idx, rec(self.sel(cur.arr, idx), path[1:])))
            if isinstance(cur, S) and cur.ty == 'map':          # the entry of a key: its key never changes
                old = S('pair', {'first': idx, 'second': self.sel(cur.f['val'], idx)}); return cur.set('val', self.upd(cur.f['val'], idx, rec(old, path[1:]).f['second']))
            if isinstance(cur, S) and '#elems' in cur.f:
                return cur.set('#elems', self.upd(cur.f['#elems'], idx, rec(self.sel(cur.f['#elems'], idx), path[1:])))
            raise ExtractError(f'index into {cur}')
        self.store[lv.cell] = rec(self.store[lv.cell], lv.path)

    # ------------------------------------------------------------ fresh values
    def isort(self, ty):
        if ty.k == 'bool': return z3.BoolSort()
        if self.bv and ty.k == 'int' and not (self.c.int64 and ty.a[0] == 64): return z3.BitVecSort(ty.a[0])
        return z3.IntSort()

    def fresh(self, ty, name, dims=0, ptr=None, path=()):
        if isinstance(ty, str): ty = parse_type(ty)
        def leaf(sort):
            for _ in range(dims): sort = z3.ArraySort(z3.IntSort(), sort)
            return z3.Const(self.fresh_name(name), sort)
        k = ty.k
        if k in ('int', 'bool', 'enum'):
            t = leaf(self.isort(ty))
            if dims == 0 and k == 'int' and z3.is_int(t): self.note_range(t, ty, True)
            return t
        if k == 'vec':
            ln = leaf(z3.IntSort())
            if dims == 0: self.assume(ln >= 0); self.rng[ln.get_id()] = (0, (1 << 62)); self.keep.append(ln); self.assume(ln <= (1 << 62))
            return V(ty.a[0], ln, self.fresh(ty.a[0], name + '.e', dims + 1, ptr, path + ('*',)))
        if k == 'arr':
            n = int(ty.name)
            if dims == 0: return V(ty.a[0], n, self.fresh(ty.a[0], name + '.e', dims + 1, ptr, path + ('*',)))
            raise ExtractError('nested std::array')
        if k == 'pair':
            return S('pair', {'first': self.fresh(ty.a[0], name + '.first', dims, ptr, path + ('first',)),
                              'second': self.fresh(ty.a[1], name + '.second', dims, ptr, path + ('second',))})
        if k == 'opt':
            if self.is_heap_type(ty.a[0]): return leaf(z3.IntSort())
            return S('opt', {'some': leaf(z3.BoolSort()), 'val': self.fresh(ty.a[0], name + '.v', dims, ptr, path + ('val',))})
        if k == 'set':
            s = S('set', {'mem': self._lift(z3.ArraySort(z3.IntSort(), z3.BoolSort()), dims, name + '.mem'), 'size': leaf(z3.IntSort())})
            if dims == 0: self.set_wf(s)
            return s
        if k == 'map':
            key = ty.a[0]
            s = S('map', {'mem': self._lift(z3.ArraySort(z3.IntSort(), z3.BoolSort()), dims, name + '.mem'), 'size': leaf(z3.IntSort()),
                          'val': self.fresh(ty.a[1], name + '.mv', dims + 1, ptr, path + ('mv',))})
            if dims == 0: self.set_wf(s)
            return s
        if k in ('ptr', 'iter'):
            if ty.k == 'ptr' and self.is_heap_type(ty.a[0]):
                return leaf(z3.IntSort())
            if ptr:
                base = ptr(path, ty)
                if base is not None:
                    if isinstance(base, LV): return It(base, leaf(z3.IntSort()))
                    return base
            return leaf(z3.IntSort())
        if k == 'rec':
            r = self.record(ty)
            if r in self.enum_names(): return leaf(z3.IntSort())
            f = {}
            for fn, ft, node in self.u.record_fields(r):
                f[fn] = self.fresh(parse_type(ft), name + '.' + fn, dims, ptr, path + (fn,))
            return S(r, f)
        if k == 'opaque': return Op(ty.name)
        raise ExtractError(f'fresh of {ty}')

    def _lift(self, sort, dims, name):
        for _ in range(dims): sort = z3.ArraySort(z3.IntSort(), sort)
        return z3.Const(self.fresh_name(name), sort)

    def set_wf(self, s):
        """facts true of every finite set model: size consistent with membership"""
        x = z3.Int('x?')
        self.assume(s.f['size'] >= 0)
        m = s.f['mem']
        self.assume(z3.Implies(s.f['size'] == 0, z3.ForAll([x], z3.Not(z3.Select(m, x)), patterns=[z3.Select(m, x)])))
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), s.f['size'] >= 1), patterns=[z3.Select(m, x)]))

    def is_heap_type(self, ty):
        return ty.k == 'rec' and any(h in ty.name for h in self.c.heap)

    def enum_names(self):
        if not hasattr(self.u, '_enums'):
            s = set()
            def walk(n, q):
                if not isinstance(n, dict): return
                if n.get('kind') == 'EnumDecl' and n.get('name'): s.add(n['name'])
                for c in n.get('inner', []): walk(c, q)
            for t in self.u.tops: walk(t, '')
            self.u._enums = s
        return self.u._enums

    def is_enum(self, ty):
        return ty.k == 'rec' and ty.name.split('::')[-1] in self.enum_names() and self.find_record(ty.name) is None

    def find_record(self, name):
        u = self.u
        if name in u.records: return name
        if not hasattr(u, '_rcache'): u._rcache = {}
        if name in u._rcache: return u._rcache[name]
        def key(n): 
            n = re.sub(r'\btrue\b', '-1', n); n = re.sub(r'\bfalse\b', '0', n)
            n = re.sub(r'(\d)UL\b', r'\1', n)
            n = re.sub(r'\bstd::uint16_t\b', 'unsigned short', n); n = re.sub(r'\bstd::uint8_t\b', 'unsigned char', n); n = re.sub(r'\bstd::uint32_t\b', 'unsigned int', n)
            return n
        def comps(n):
            out = []; d = 0; cur = ''; i = 0
            while i < len(n):
                if n[i] == '<': d += 1
                if n[i] == '>': d -= 1
                if n[i:i+2] == '::' and d == 0: out.append(cur); cur = ''; i += 2; continue
                cur += n[i]; i += 1
            out.append(cur); return out
        def cm(a, b):  # a: query comp, b: record comp; template args prefix or absent (injected) allowed
            ma = re.match(r'^(\w+)<(.*)>$', a); mb = re.match(r'^(\w+)<(.*)>$', b)
            if not ma or not mb: return a == b
            if ma.group(1) != mb.group(1): return False
            x, y = split_args(ma.group(2)), split_args(mb.group(2))
            return len(x) <= len(y) and all(cmt(p, q) for p, q in zip(x, y))
        def cmt(p, q):
            if p == q: return True
            cp, cq = comps(p), comps(q)
            return len(cp) == len(cq) and all(cm(a, b) for a, b in zip(cp, cq)) if '<' in p and '<' in q else False
        kn = comps(key(name)); res = None; cands = []
        for r in u.records:
            if '<tmpl>' in r: continue
            kr = comps(key(r))
            if len(kr) == len(kn) and all(cm(a, b) for a, b in zip(kn, kr)): cands.append(r)
        if len(cands) >= 1:
            cands.sort(key=len); res = cands[0]
        if res is None:
            # unqualified tail match
            tail = [r for r in u.records if '<tmpl>' not in r and (r.endswith('::' + name))]
            if len(tail) == 1: res = tail[0]
        u._rcache[name] = res
        return res

    def record(self, ty):
        r = self.find_record(ty.name)
        if r is None:
            if ty.name.split('::')[-1] in self.enum_names(): return ty.name.split('::')[-1]
            raise ExtractError('unknown record type ' + ty.name)
        return r

    def note_range(self, t, ty, assume=False):
        if not isz(t) or ty.k != 'int' or not z3.is_int(t): return
        i = t.get_id()
        if i in self.rng: return
        lo, hi = int_range(ty)
        self.rng[i] = (lo, hi); self.keep.append(t)
        if not z3.is_int_value(t):
            self.assume(z3.And(t >= lo, t <= hi))

    # ------------------------------------------------------------ default values
    def zero(self, ty):
        k = ty.k
        if k == 'bool': return False
        if k in ('int',): return z3.BitVecVal(0, ty.a[0]) if self.bv and not (self.c.int64 and ty.a[0] == 64) else 0
        if k == 'pair': return S('pair', {'first': self.zero(ty.a[0]), 'second': self.zero(ty.a[1])})
        if k == 'vec': return self.empty_vec(ty.a[0])
        if k == 'arr' and ty.a[0].k == 'vec': return S('rows', {str(i): self.zero(ty.a[0]) for i in range(int(ty.name))})
        if k == 'arr': return V(ty.a[0], int(ty.name), self.fresh(ty.a[0], 'arr0', 1)) if False else self.const_vec(ty.a[0], int(ty.name), self.zero(ty.a[0]))
        if k == 'opt':
            return S('opt', {'some': False, 'val': self.fresh(ty.a[0], 'nul')})
        if k in ('ptr',):
            return 0 if self.is_heap_type(ty.a[0]) else NULL
        if k == 'iter': return NULL
        if k == 'set': return S('set', {'mem': z3.K(z3.IntSort(), z3.BoolVal(False)), 'size': 0})
        if k == 'map': 
            return S('map', {'mem': z3.K(z3.IntSort(), z3.BoolVal(False)), 'size': 0, 'val': self.fresh(ty.a[1], 'mv', 1)})
        if k == 'rec':
            if self.is_enum(ty): return 0
            return self.default_construct(ty)
        if k == 'opaque' or (k == 'rec' and self.find_record(ty.name) is None):
            if self.c.construct_opaque: return self.c.construct_opaque(self.cx, ty, [], None)
            return Op(ty.name)
        raise ExtractError(f'zero of {ty}')

    def empty_vec(self, ety):
        return V(ety, 0, self.fresh(ety, 'emp', 1))

    def const_vec(self, ety, n, v):
        arr = self.fresh(ety, 'cv', 1)
        # constant arrays leafwise
        arr = vzip(lambda a, x: z3.K(z3.IntSort(), coerce(x, a.range())), arr, v)
        return V(ety, n, arr)

    def default_construct(self, ty):
        r = self.record(ty)
        f = {}
        for fn, ft, node in self.u.record_fields(r):
            t = parse_type(ft)
            init = [c for c in node.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
            if init:
                f[fn] = self.conv_init(self.rv(init[0]), t)
            elif t.k in ('int', 'bool'): f[fn] = UNSET
            else: f[fn] = self.zero(t)
        return S(r, f)

    def conv_init(self, v, t):
        return v

    # ------------------------------------------------------------ calls
    def call_body(self, fn, this, args, argnodes=None):
        if len(self.frames) > self.c.inline_depth: raise ExtractError('inline depth (recursion?) in ' + fn.get('name', '?'))
        fr = Frame(fn, this)
        ps = params_of(fn)
        for i, p in enumerate(ps):
            if i < len(args): a = args[i]
            else:
                ini = [c for c in p.get('inner', []) if isinstance(c, dict) and 'kind' in c and not c['kind'].endswith('Attr')]
                if not ini: raise ExtractError('missing argument ' + p.get('name', '?'))
                a = self.ev(ini[0])
            qt = norm_type(p['type'].get('desugaredQualType', p['type']['qualType']))
            if qt.endswith('&'):
                if not isinstance(a, LV): a = self.new_cell(a, p.get('name', 'p'))
                lv = a
            else:
                if isinstance(a, LV): a = self.load(a)
                t = None
                try:
                    t = parse_type(qt)
                except ExtractError: t = None
                lv = self.new_cell(a, p.get('name', 'p'))
            fr.vars[p['id']] = lv
            if 'name' in p: fr.names[p['name']] = lv; fr.order.append(p['name'])
        self.frames.append(fr)
        try:
            if fn.get('kind') == 'CXXConstructorDecl': self.ctor_inits(fn, this)
            b = body_of(fn)
            if b is None: raise ExtractError('no body for ' + fn.get('name', '?'))
            try:
                self.st(b)
                ret = VOID
            except ReturnEx as e:
                ret = e.v
            return ret
        finally:
            self.frames.pop()

    def ctor_inits(self, fn, this):
        for c in fn.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer': continue
            e = c['inner'][0] if c.get('inner') else None
            if 'anyInit' in c:
                d = c['anyInit']; name = d['name']
                node = self.u.byid.get(d['id'], {})
                ft = d.get('type', {}); qt = norm_type(ft.get('desugaredQualType', ft.get('qualType', '')))
                if e is None: continue
                if qt.endswith('&'):
                    v = self.ev(e)
                    # reference member: bind as pointer
                    if not isinstance(v, LV): v = self.new_cell(v)
                    self.storev(this.f(name), Ad(v)); continue
                if e.get('kind') == 'CXXDefaultInitExpr':
                    init = [x for x in node.get('inner', []) if x.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
                    if init: self.storev(this.f(name), self.rv(init[0]))
                    continue
                self.construct_into(this.f(name), e, parse_type(qt))
            elif 'baseInit' in c:
                # base class constructor: fields are flattened, so run it on the same object
                if e is not None: self.construct_into(this, e, None, base=True)

    def construct_into(self, lv, e, ty, base=False):
        e0 = e
        while e0.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr') or \
              (e0.get('kind') == 'ImplicitCastExpr' and e0.get('castKind') in ('NoOp', 'ConstructorConversion')) or \
              (e0.get('kind') == 'CXXFunctionalCastExpr' and e0.get('castKind') == 'ConstructorConversion'):
            e0 = e0['inner'][0]
        if base and e0.get('kind') in ('CXXConstructExpr', 'CXXInheritedCtorInitExpr'):
            return self.construct(e0, lv, base=True)
        v = self.rv(e)
        self.storev(lv, v)

    # statement / expression evaluation are mixed in from interp.py / stl.py

def coerce(x, sort):
    if isinstance(x, bool):
        if sort == z3.BoolSort(): return z3.BoolVal(x)
        return z3.IntVal(int(x))
    if isinstance(x, int):
        if sort.kind() == z3.Z3_BV_SORT: return z3.BitVecVal(x, sort.size())
        if sort == z3.BoolSort(): return z3.BoolVal(x != 0)
        return z3.IntVal(x)
    if isinstance(x, Unset):
        return z3.FreshConst(sort, 'unset')
    if isinstance(x, Null): return z3.IntVal(0)
    if not isz(x): raise ExtractError(f'cannot store {x!r} in an array leaf')
    return x

def simp_select(a, idx):
    # read over write for syntactically decidable indices
    n = 0
    while n < 64 and z3.is_store(a):
        j = a.arg(1)
        if j.eq(idx): return a.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(idx): a = a.arg(0); n += 1; continue
        d = z3.simplify(j - idx)
        if z3.is_int_value(d):
            if d.as_long() == 0: return a.arg(2)
            a = a.arg(0); n += 1; continue
        break
    if z3.is_const_array(a): return a.arg(0)
    return z3.Select(a, idx)

def leafkey(v):
    """hashable structural key of a value"""
    if isinstance(v, S): return ('S', str(v.ty)) + tuple((k, leafkey(x)) for k, x in sorted(v.f.items()))
    if isinstance(v, V): return ('V', str(v.ety), leafkey(v.len), leafkey(v.arr))
    if isinstance(v, It): return ('It', leafkey(v.base) if hasattr(v, 'base') else str(v), leafkey(v.idx))
    if isz(v): return ('z', v.get_id())
    if isinstance(v, (int, bool)): return ('c', v)
    if isinstance(v, LV): return ('LV', v.cell, tuple(leafkey(p) if not isinstance(p, str) else p for p in v.path))
    if isinstance(v, tuple): return ('t',) + tuple(leafkey(x) if not isinstance(x, str) else x for x in v)
    return ('o', repr(v))

class Cx:
    """what contracts see"""
    def __init__(self, ex): self.ex = ex; self.snaps = {}; self.data = {}; self.names = {}
    def snapshot(self, name): self.snaps[name] = dict(self.ex.store)
    def fresh(self, ty, name, **kw): return self.ex.fresh(parse_type(ty) if isinstance(ty, str) else ty, name, **kw)
    def cell(self, v, name): 
        lv = self.ex.new_cell(v, name); self.names[name] = lv; return lv
    def load(self, lv, snap=None):
        if snap is None: return self.ex.load(lv)
        s = self.ex.store
        try:
            self.ex.store = self.snaps[snap] if isinstance(snap, str) else snap
            return self.ex.load(lv)
        finally: self.ex.store = s
    def old(self, lv): return self.load(lv, 'old')
    def assume(self, f): self.ex.assume(f)
    def oblige(self, n, g, **kw): self.ex.oblige(n, g, **kw)
    def lv(self, name):
        """lvalue of a local variable / parameter of an active frame, innermost first"""
        ex = self.ex
        for fr in reversed(ex.frames):
            if name in fr.names: return fr.names[name]
            if name in ('__begin', '__end', '__range'):   # hidden range-for variables carry a numeric suffix
                m = [n for n in fr.order if re.fullmatch(name + r'\d+', n)]
                if m: return fr.names[m[-1]]
        # renamed?  map by declaration order in the contracted function
        alt = ex.alias(name)
        if alt is not None:
            for fr in reversed(ex.frames):
                if alt in fr.names: return fr.names[alt]
        if name in self.names: return self.names[name]
        if os.environ.get('VP_TRACE'): print([fr.order for fr in ex.frames])
        raise Mismatch(f'contract of {ex.c.name} refers to {name}, which the code no longer has')
    def v(self, name, snap=None): return self.load(self.lv(name), snap)
    def this(self):
        for fr in self.ex.frames:
            if fr.this is not None: return fr.this
