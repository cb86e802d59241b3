"""Statement and expression semantics (C++17 subset used by lexertl)."""
import z3
from .front import *
from .sym import *
from .exec import *

WRAPPERS = ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
            'MaterializeTemporaryExpr')
LOOPS = ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')

def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))

def kids(n): return [c for c in n.get('inner', []) if isinstance(c, dict)]

class Interp(Exec):
    def ety(self, e):
        t = parse_type(qt(e), self.u)
        return self.unalias(t)

    def unalias(self, t):
        """clang does not desugar the element type of an array of, or the target of a pointer to, a member alias"""
        if t.k in ('arr', 'ptr') and t.a[0].k == 'rec' and self.frames and '::' not in t.a[0].name and '<' not in t.a[0].name:
            rec = self.u.records.get(self.u.qual.get(self.frames[-1].fn['id'], '').rsplit('::', 1)[0])
            for c in (rec or {}).get('inner', []):
                if c.get('kind') == 'TypeAliasDecl' and c.get('name') == t.a[0].name: return Ty(t.k, [parse_type(qt(c), self.u)], t.name)
        return t

    # ------------------------------------------------------------ statements
    def st(self, n):
        k = n.get('kind')
        r = n.get('range', {}).get('begin', {})
        if 'line' in r: self._loc = f"line {r['line']}"
        m = getattr(self, 'st_' + k, None) if k else None
        if m: return m(n)
        if k and (k.endswith('Expr') or k.endswith('Operator') or k.endswith('Cleanups') or k.endswith('Literal')):
            self.ev(n); return
        if k is None: return
        raise ExtractError('statement ' + str(k))

    def st_CompoundStmt(self, n):
        for c in kids(n): self.st(c)

    def st_NullStmt(self, n): pass

    def st_LabelStmt(self, n):
        key = ('label', n['name'])
        inv = self.c.labels.get(n['name'])
        if inv is None: raise Mismatch('label without invariant: ' + n['name'])
        self.enter_cut(key, inv, 'label ' + n['name'])
        self.labels[n.get('declId', n['name'])] = (key, inv, n['name'], dict(self.store), self.cut_variant)
        self.labels[n['name']] = self.labels[n.get('declId', n['name'])]
        for c in kids(n): self.st(c)

    def st_GotoStmt(self, n):
        t = n.get('targetLabelDeclId')
        if t not in self.labels: raise ExtractError('goto to unknown/forward label')
        key, inv, name, head, var = self.labels[t]
        self.close_cut(key, inv, 'label ' + name, head, var)
        raise PathEnd()

    def st_DeclStmt(self, n):
        for d in kids(n):
            if d.get('kind') == 'VarDecl': self.declare(d)
            elif d.get('kind') in ('UsingDirectiveDecl', 'UsingDecl', 'TypeAliasDecl', 'TypedefDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EnumDecl'): pass
            else: raise ExtractError('declaration ' + str(d.get('kind')))

    def declare(self, d):
        t = norm_type(qt(d))
        ini = [c for c in kids(d) if 'kind' in c and not c['kind'].endswith('Attr')]
        name = d.get('name', '_')
        fr = self.frames[-1]
        if t.endswith('&'):
            v = self.ev(ini[0])
            if not isinstance(v, LV): v = self.new_cell(v, name)
            lv = v
        else:
            if d.get('storageClass') == 'static' and ini:
                pass
            ty = self.unalias(parse_type(t, self.u))
            if ini:
                if ini[0]['kind'] == 'CXXConstructExpr' and not kids(ini[0]) and ty.k == 'int': v = UNSET
                else: v = self.conv(self.rv(ini[0]), ty)
            elif ty.k in ('int', 'bool', 'ptr') or self.is_enum(ty): v = UNSET
            else: v = self.zero(ty)
            lv = self.new_cell(v, name)
        fr.vars[d['id']] = lv
        fr.names[name] = lv
        fr.order.append(name)
        if len(self.frames) == 1:
            key = (name, t)
            if key not in self.decls: self.decls.append(key)

    def alias(self, name):
        base = self.c.locals
        if not base: return None
        names = [x[0] for x in base]
        if name not in names: return None
        ty = dict(base)[name]
        same = [x for x, t in base if t == ty]
        mine = [x for x, t in self.decls if t == ty]
        i = same.index(name)
        if len(same) == len(mine): return mine[i]
        return None

    def st_IfStmt(self, n):
        ks = kids(n)
        if n.get('hasInit'): self.st(ks[0]); ks = ks[1:]
        if n.get('hasVar'): self.st(ks[0]); ks = ks[1:]
        c = self.cond(ks[0])
        if self.decide(c):
            self.st(ks[1])
        elif n.get('hasElse') and len(ks) > 2:
            self.st(ks[2])

    def st_ReturnStmt(self, n):
        ks = kids(n)
        if not ks: raise ReturnEx(VOID)
        fn = self.frames[-1].fn
        rt = fn['type']['qualType']
        ret_ref = ks[0].get('valueCategory') == 'lvalue' and self.returns_ref(fn)
        v = self.ev(ks[0])
        if not ret_ref: v = self.val(v)
        raise ReturnEx(v)

    def returns_ref(self, fn):
        q = norm_type(fn['type']['qualType'])
        d = 0
        for i, ch in enumerate(q):
            if ch == '<': d += 1
            if ch == '>': d -= 1
            if ch == '(' and d == 0:
                return q[:i].strip().endswith('&')
        return False

    def st_BreakStmt(self, n): raise BreakEx()
    def st_ContinueStmt(self, n): raise ContinueEx()

    def st_CXXTryStmt(self, n):
        ks = kids(n)
        try:
            self.st(ks[0])
        except ThrowEx as e:
            for h in ks[1:]:
                # CXXCatchStmt: [VarDecl|{}] body
                hk = h.get('inner', [])
                body = [c for c in hk if isinstance(c, dict) and c.get('kind') == 'CompoundStmt'][-1]
                var = [c for c in hk if isinstance(c, dict) and c.get('kind') == 'VarDecl']
                if var:
                    t = norm_type(qt(var[0])).rstrip('&').strip(); t = strip_const(t)
                    if not self.exc_matches(e.ty, t): continue
                    lv = self.new_cell(e.info if e.info is not None else Op('exc'), 'exc')
                    self.frames[-1].vars[var[0]['id']] = lv
                self.cur_exc = e
                self.st(body)
                return
            raise

    def exc_matches(self, ty, t):
        if ty == t or ty.split('::')[-1] == t.split('::')[-1]: return True
        if t in ('std::exception', 'exception'): return True
        if t in ('std::runtime_error',): return 'runtime_error' in ty
        return False

    def st_SwitchStmt(self, n):
        ks = kids(n)
        v = self.rv(ks[0]); body = ks[-1]
        items = []   # (label consts or 'default' or None, stmt)
        for c in kids(body):
            labs = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                ck = kids(c)
                if c['kind'] == 'CaseStmt':
                    labs.append((self.const_int(ck[0]), self.const_int(ck[1]) if len(ck) > 2 else None)); c = ck[-1]
                else: labs.append('default'); c = ck[-1]
            items.append((labs, c))
        start = None; dflt = None
        for i, (labs, c) in enumerate(items):
            for l in labs:
                if l == 'default': dflt = i; continue
                if l[1] is None: cond = self.eq(v, l[0])
                else: cond = self.band(self.cmp('>=', v, l[0], True), self.cmp('<=', v, l[1], True))
                if self.decide(cond): start = i; break
            if start is not None: break
        if start is None: start = dflt
        if start is None: return
        try:
            for labs, c in items[start:]: self.st(c)
        except BreakEx: pass

    def const_int(self, e):
        v = self.rv(e)
        if isz(v):
            v = z3.simplify(v)
            if z3.is_bv_value(v): return v.as_long()
            return v.as_long()
        return int(v)

    # ------------------------------------------------------------ loops
    def st_WhileStmt(self, n):
        ks = kids(n)
        self.loop(n, lambda: self.cond(ks[0]), None, ks[-1])

    def st_ForStmt(self, n):
        inner = n['inner']
        init, cvar, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init.get('kind'): self.st(init)
        self.loop(n, (lambda: self.cond(cond)) if cond.get('kind') else (lambda: True),
                  (lambda: self.ev(inc)) if inc.get('kind') else None, body)

    def st_DoStmt(self, n):
        ks = kids(n)
        self.loop(n, lambda: self.cond(ks[1]), None, ks[0], do=True)

    def st_CXXForRangeStmt(self, n):
        inner = n['inner']
        # [init] range begin end cond inc loopvar body
        rng, beg, end, cond, inc, var, body = inner[-7:]
        if len(inner) > 7 and inner[0].get('kind'): self.st(inner[0])
        self.st(rng); self.st(beg); self.st(end)
        bl, el = [self.frames[-1].names.get(d['inner'][0]['name']) for d in (beg, end)]
        b, x = (self.load(l) if l is not None else None for l in (bl, el))
        if isinstance(b, It) and isinstance(x, S) and x.ty == 'keyit': self.storev(el, It(b.base, self.load(b.base).len))          # keys in sequence
        self.loop(n, lambda: self.cond(cond), lambda: self.ev(inc), body, pre=lambda: self.st(var))

    def loop_inv(self, n):
        key = (tuple(self.callstack), n['id'])
        if self.loop_order is None:
            self.loop_order = []
            fn = self.frames[0].fn
            self.static_loops(body_of(fn), (), 0, self.frames[0].fn)
        if key not in self.loop_order:
            raise Mismatch('loop not found statically')
        i = self.loop_order.index(key)
        self.loops_seen[i] = key
        if i >= len(self.c.loops): raise Mismatch(f'contract of {self.c.name} has no invariant for loop {i}')
        return i, self.c.loops[i]

    def static_loops(self, n, stack, depth, fn):
        if not isinstance(n, dict) or depth > 60: return
        k = n.get('kind')
        if k in LOOPS: self.loop_order.append((stack, n['id']))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            did = self.callee_id(n)
            f = self.u.byid.get(did) if did else None
            for c in n.get('inner', []): self.static_loops(c, stack, depth + 1, fn)
            if f is not None and f.get('kind') in FUNCS and has_body(f) and len(stack) < 12 and not self.find_contract(f) and not self.find_summary(f, static=True) \
               and not any(s == n['id'] for s in stack):
                self.static_loops(body_of(f), stack + (n['id'],), depth + 1, f)
            return
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            for c in n.get('inner', []): self.static_loops(c, stack, depth + 1, fn)
            f = self.find_ctor(n, quiet=True)
            if f is not None and has_body(f) and len(stack) < 12:
                for c in f.get('inner', []):
                    if c.get('kind') in ('CXXCtorInitializer', 'CompoundStmt'):
                        self.static_loops(c, stack + (n['id'],), depth + 1, f)
            return
        for c in n.get('inner', []):
            if k == 'LambdaExpr' and c.get('kind') in ('CXXRecordDecl', 'CompoundStmt'): continue     # the body runs where it is called
            self.static_loops(c, stack, depth + 1, fn)

    def callee_id(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c.get('kind') == 'DeclRefExpr': return c['referencedDecl']['id']
        if c.get('kind') == 'MemberExpr': return c.get('referencedMemberDecl')
        return None

    def loop(self, n, cond, inc, body, do=False, pre=None):
        i, inv = self.loop_inv(n)
        what = f'loop {i}'
        if inv == 'U':   # unrolled: complete because the condition must become false within the cap
            cnt = 0
            first = do
            while True:
                if not first:
                    if not self.decide(cond()): return
                first = False
                cnt += 1
                if cnt > max(self.c.unroll, 1): raise Mismatch(f'{what}: unroll cap exceeded')
                try:
                    if pre: pre()
                    self.st(body)
                except BreakEx: return
                except ContinueEx: pass
                if inc: inc()
        key = ('loop', tuple(self.callstack), n['id'])
        # things the invariant may need: hidden iterators etc.
        self.enter_cut(key, inv, what)
        head = dict(self.store); var = self.cut_variant
        if not do:
            if not self.decide(cond()): return
            head_after = None
        try:
            if pre: pre()
            self.st(body)
        except BreakEx: return
        except ContinueEx: pass
        if inc: inc()
        if do:
            if not self.decide(cond()): return
        self.close_cut(key, inv, what, head, var)
        raise PathEnd()

    def eval_inv(self, inv, what):
        cx = self.cx
        cx.entry = self.entry_snaps.get(what) if hasattr(self, 'entry_snaps') else None
        out = []; var = None
        for item in inv(cx):
            nm, f = item
            if nm.startswith('variant'): var = f
            else: out.append((nm, f))
        return out, var

    def enter_cut(self, key, inv, what):
        if not hasattr(self, 'entry_snaps'): self.entry_snaps = {}
        self.entry_snaps[what] = dict(self.store)
        self.cx.snaps['entry ' + what] = dict(self.store)
        items, _ = self.eval_inv(inv, what)
        for nm, f in items: self.oblige(f'{what}: invariant [{nm}] holds on entry', f)
        if getattr(inv, 'widen', None):
            # locals the contract forgets here: the first group may not be read again, the second is known only through the invariant
            hv = self.havoc.setdefault(key, set()); fr = self.frames[-1]
            for nm in inv.widen[0]:
                if nm in fr.names: hv.add((fr.names[nm].cell, (), 'UNSET'))
            for nm in inv.widen[1]:
                if nm not in fr.names: continue
                cell = fr.names[nm].cell; v = self.store[cell]
                if isinstance(v, V):
                    hv.add((cell, ('#len',), z3.IntSort())); hv.add((cell, ('#arr',), v.arr.sort()))
                elif isinstance(v, It): hv.add((cell, ('#idx',), z3.IntSort()))
                elif isinstance(v, Null): pass
                else: hv.add((cell, (), z3.BoolSort() if isinstance(v, bool) or isz(v) and z3.is_bool(v) else z3.IntSort()))
        if self.c.merge:
            hav = {}
            for cell, path, sort in self.havoc.get(key, ()): hav.setdefault(cell, []).append(path)
            sig = [tuple(f.get_id() for f in self.kept)]
            def one(v, cell):
                for pth in hav.get(cell, ()): v = v if isinstance(v, Null) and pth == ('#idx',) else vset_leaf(v, pth, 0)
                return leafkey(v)
            for cell in self.cx.snaps['old']:
                if cell in self.store: sig.append((cell, one(self.store[cell], cell)))
            for fr in self.frames:
                for nm in fr.order:
                    lv = fr.names[nm]
                    sig.append((nm, one(self.store[lv.cell], lv.cell) if lv.cell in self.store and not lv.path else leafkey(lv)))
            k2 = (key, tuple(sig))
            self.allkeep = getattr(self, 'allkeep', []); self.allkeep.append((list(self.kept), dict(self.store)))
            if self.cuts.setdefault(k2, tuple(self.dec)) != tuple(self.dec): raise PathEnd()   # continuation already explored from here
            self.pc = list(self.kept); self.qf = z3.Solver(); self.qf.set('timeout', 400)
            for f in self.pc: self.qf_add(f)
        mark = len(self.pc)
        for cell, path, sort in sorted(self.havoc.get(key, ()), key=str):
            if cell not in self.store: continue
            v = self.store[cell]
            if isinstance(sort, str): self.store[cell] = UNSET; continue
            if isinstance(v, Null) and path == ('#idx',): continue
            c = z3.Const(self.fresh_name('h.' + cell.split('#')[0]), sort)
            self.store[cell] = vset_leaf(v, path, c)
            if path and path[-1] == '#len' and sort == z3.IntSort(): self.assume(z3.And(c >= 0, c <= (1 << 62)))
        # sets that were havocked
        for cell in {h[0] for h in self.havoc.get(key, ())}:
            if cell in self.store: self.assume_set_wf(self.store[cell])
        for h in self.c.havoc_extra or (): h(self.cx, key)
        self.before_items = None
        items, var = self.eval_inv(inv, what)
        for nm, f in items: self.assume(f)
        self.cut_variant = var
        if self.c.merge: self.kept += self.pc[mark:]

    def assume_set_wf(self, v):
        if isinstance(v, S):
            if v.ty in ('set', 'map') and 'mem' in v.f and z3.is_array(v.f['mem']) and (not isz(v.f['size']) or z3.is_int(v.f['size'])):
                if isz(v.f['size']): self.set_wf(v)
            else:
                for x in v.f.values(): self.assume_set_wf(x)

    def close_cut(self, key, inv, what, head, var):
        self.diff(key, head)
        self.covers.append((what + ': an iteration can complete', list(self.pc)))
        items, var2 = self.eval_inv(inv, what)
        for nm, f in items: self.oblige(f'{what}: invariant [{nm}] is preserved', f)
        if var is not None:
            self.oblige(f'{what}: variant decreases', z3.And(var >= 0, var2 < var))

    def diff(self, key, head):
        hv = self.havoc.setdefault(key, set()); new = False; self.diffkey = key
        for cell, v0 in head.items():
            v1 = self.store.get(cell)
            if v1 is v0 or v1 is None: continue
            for (p, a, b) in self.leafdiff(v0, v1, (), cell):
                t = b if isz(b) else (a if isz(a) else None)
                if t is not None: sort = t.sort()
                elif isinstance(b, bool) or isinstance(a, bool): sort = z3.BoolSort()
                elif isinstance(b, int) or isinstance(a, int): sort = z3.IntSort()
                elif isinstance(b, Unset): continue
                else: raise Mismatch(f'loop changes {cell}{p} in an unsupported way ({a} -> {b})')
                if (cell, p, sort) not in hv: hv.add((cell, p, sort)); new = True
        if new: raise Restart()

    def leafdiff(self, a, b, path, cell):
        if a is b: return
        if isinstance(a, S) and isinstance(b, S) and set(a.f) == set(b.f):
            for k in a.f: yield from self.leafdiff(a.f[k], b.f[k], path + (k,), cell)
            return
        if isinstance(a, V) and isinstance(b, V):
            if not term_eq(a.len, b.len): yield (path + ('#len',), a.len, b.len)
            yield from self.leafdiff(a.arr, b.arr, path + ('#arr',), cell)
            return
        if isinstance(a, It) and isinstance(b, It):
            if not lv_eq(a.base, b.base): raise Mismatch(f'loop moves iterator {cell}{path} to another container')
            if not term_eq(a.idx, b.idx): yield (path + ('#idx',), a.idx, b.idx)
            return
        if isinstance(a, (Null, Ad, Op, Void)) and type(a) is type(b):
            if isinstance(a, Ad) and not lv_eq(a.lv, b.lv): raise Mismatch(f'loop re-targets pointer {cell}')
            if isinstance(a, Op) and a is not b:
                for k in set(a.d) | set(b.d):
                    yield from self.leafdiff(a.d.get(k), b.d.get(k), path + (k,), cell)
            return
        if isinstance(a, Unset) and isinstance(b, Unset): return
        if isinstance(a, Unset) and (isinstance(b, (It, Null, Ad)) or isinstance(b, S) and b.ty == 'keyit'): return            # unusable at the loop head, so whatever an iteration leaves in it is never read
        if path == () and isinstance(a, Null) and (isinstance(b, (It, Ad)) or isinstance(b, S) and b.ty == 'keyit'):
            hv = self.havoc.setdefault(self.diffkey, set())
            hv.add((cell, (), 'UNSET')); raise Restart()
        if isinstance(a, (It, Null, Ad)) or isinstance(b, (It, Null, Ad)):
            raise Mismatch(f'loop changes kind of pointer {cell}{path}: {a} -> {b}')
        if not term_eq(a, b): yield (path, a, b)

    # ------------------------------------------------------------ values
    def val(self, v, ty=None):
        if isinstance(v, LV):
            x = self.load(v)
            return x
        return v

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, LV):
            v = self.load(v)
            if isz(v): self.note_load(v, e)
        return v

    def note_load(self, v, e):
        try: t = self.ety(e)
        except ExtractError: return
        if t.k == 'ref': t = t.a[0]
        self.note_range(v, t)

    def lvof(self, e):
        v = self.ev(e)
        if isinstance(v, LV): return v
        return self.new_cell(v)

    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, Null): return False
        if isinstance(v, (It, Ad)): return True
        if isz(v):
            if z3.is_bool(v): return v
            if z3.is_bv(v): return v != 0
            return v != 0
        if isinstance(v, S) and v.ty == 'opt': return v.f['some']
        if isinstance(v, Op):
            f = v.d.get('bool')
            if f is not None: return f
        raise ExtractError(f'bool of {v}')

    def cond(self, e): return self.tobool(self.rv(e))

    def toint(self, v):
        if isinstance(v, bool): return int(v)
        if isz(v) and z3.is_bool(v):
            r = z3.If(v, z3.IntVal(1), z3.IntVal(0)); self.rng[r.get_id()] = (0, 1); self.keep.append(r)
            return r
        return v

    def bnot(self, a): return (not a) if isinstance(a, bool) else z3.Not(a)
    def band(self, a, b):
        if isinstance(a, bool): return b if a else False
        if isinstance(b, bool): return a if b else False
        return z3.And(a, b)
    def bor(self, a, b):
        if isinstance(a, bool): return True if a else b
        if isinstance(b, bool): return True if b else a
        return z3.Or(a, b)

    # ------------------------------------------------------------ integer arithmetic
    def bounds(self, t):
        if isinstance(t, bool): return (int(t), int(t))
        if isinstance(t, int): return (t, t)
        if z3.is_int_value(t): v = t.as_long(); return (v, v)
        r = self.rng.get(t.get_id())
        if r: return r
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in t.children():
                b = self.bounds(c)
                if b is None: return None
                lo += b[0]; hi += b[1]
            return (lo, hi)
        if k == z3.Z3_OP_SUB and t.num_args() == 2:
            a, b = self.bounds(t.arg(0)), self.bounds(t.arg(1))
            if a and b: return (a[0] - b[1], a[1] - b[0])
        if k == z3.Z3_OP_UMINUS:
            a = self.bounds(t.arg(0))
            if a: return (-a[1], -a[0])
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            a, b = self.bounds(t.arg(0)), self.bounds(t.arg(1))
            if a and b:
                c = [x * y for x in a for y in b]; return (min(c), max(c))
        if k == z3.Z3_OP_ITE:
            a, b = self.bounds(t.arg(1)), self.bounds(t.arg(2))
            if a and b: return (min(a[0], b[0]), max(a[1], b[1]))
        if k in (z3.Z3_OP_MOD,) and z3.is_int_value(t.arg(1)): return (0, t.arg(1).as_long() - 1)
        if k in (z3.Z3_OP_IDIV,) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            a = self.bounds(t.arg(0))
            if a and a[0] >= 0: return (a[0] // t.arg(1).as_long(), a[1] // t.arg(1).as_long())
        return None

    def fit(self, r, ty, what='', cast=False):
        """bring mathematical integer r into the range of C++ integer type ty"""
        lo, hi = int_range(ty); bits, signed = ty.a
        if isinstance(r, bool): r = int(r)
        if isinstance(r, int):
            r %= (1 << bits)
            if signed and r > hi: r -= (1 << bits)
            return r
        b = self.bounds(r)
        if b and b[0] >= lo and b[1] <= hi: return r
        inr = z3.And(r >= lo, r <= hi)
        if self.qf_valid(inr):
            return r
        if signed and not cast:
            if self.c.check_overflow: self.check('no signed overflow ' + what, inr)
            return r
        m = 1 << bits
        if not signed:
            if b and -m <= b[0] and b[1] < 2 * m:
                t = r
                if b[0] < 0: t = z3.If(r < 0, r + m, t)
                if b[1] > hi: t = z3.If(r > hi, r - m, t)
            else: t = r % m
        else:
            t = z3.If((r % m) > hi, (r % m) - m, r % m)
        # name the wrapped value so that its range is known
        c = z3.Int(self.fresh_name('w'))
        self.assume(c == t); self.assume(z3.And(c >= lo, c <= hi)); self.rng[c.get_id()] = (lo, hi); self.keep.append(c)
        return c

    def bvc(self, v, ty):
        if isinstance(v, bool): return z3.BitVecVal(int(v), ty.a[0])
        if isinstance(v, int): return z3.BitVecVal(v, ty.a[0])
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, ty.a[0]), z3.BitVecVal(0, ty.a[0]))
        if z3.is_int(v): raise ExtractError('Int term in bv mode')
        return v

    def cast_int(self, v, src, dst):
        if isinstance(v, (It, Ad, Null)): raise ExtractError('pointer to int')
        if isinstance(v, Unset): raise ExtractError('use of an uninitialised value')
        if self.bv and self.c.int64 and dst.a[0] == 64:
            if isz(v) and z3.is_bv(v):
                sg = src.k == 'int' and src.a[1]
                w = z3.simplify(v)
                if z3.is_bv_value(w): v = w.as_signed_long() if sg else w.as_long()
                else:
                    v = z3.BV2Int(v, sg); self.rng[v.get_id()] = int_range(src); self.keep.append(v)
            return self.fit(self.toint(v), dst, cast=True)
        if self.bv and (isz(v) and z3.is_bv(v)):
            n, m = v.size(), dst.a[0]
            if n == m: return v
            if m < n: return z3.simplify(z3.Extract(m - 1, 0, v))
            sgn = src.k == 'int' and src.a[1]
            return z3.simplify(z3.SignExt(m - n, v) if sgn else z3.ZeroExt(m - n, v))
        v = self.toint(v)
        return self.fit(v, dst, cast=True)

    def arith(self, op, a, b, ty):
        """ty: the (promoted) operand/result type"""
        if isinstance(a, Unset) or isinstance(b, Unset): raise ExtractError('arithmetic on uninitialised value')
        if self.bv and not (isinstance(a, int) and isinstance(b, int)) and not (isz(a) and z3.is_int(a)) and not (isz(b) and z3.is_int(b)):
            return self.arith_bv(op, a, b, ty)
        a, b = self.toint(a), self.toint(b)
        if isinstance(a, int) and isinstance(b, int):
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: int(a / b) if abs(a) < 2**52 and abs(b) < 2**52 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
                 '%': lambda: a - b * ((abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)), '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                 '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            return self.fit(r, ty, op)
        if op == '+': return self.fit(Z(a) + Z(b), ty, op)
        if op == '-': return self.fit(Z(a) - Z(b), ty, op)
        if op == '*':
            h = getattr(self.c, 'mul', None)
            if not isinstance(a, int) and not isinstance(b, int) and getattr(self, 'mulhook', None):
                return self.mulhook(a, b, ty)
            return self.fit(Z(a) * Z(b), ty, op)
        if op in ('/', '%'):
            if not (isinstance(b, int) and b > 0): self.check('divisor is not zero', Z(b) != 0)
            if getattr(self, 'divhook', None) and not isinstance(b, int):
                return self.divhook(op, a, b, ty)
            ba, bb = self.bounds(a), self.bounds(b)
            if ba and ba[0] >= 0 and bb and bb[0] >= 0:
                r = Z(a) / Z(b) if op == '/' else Z(a) % Z(b)
                if ba: self.rng[r.get_id()] = (0, ba[1]); self.keep.append(r)
                return r
            if ty is not None and ty.k == "int" and not ty.a[1]:       # an unsigned value is never negative
                return Z(a) / Z(b) if op == '/' else Z(a) % Z(b)
            raise ExtractError('signed division')
        if op in ('<<', '>>') and not isinstance(b, int):
            sb = z3.simplify(b)
            if z3.is_int_value(sb): b = sb.as_long()
        if op == '<<' and isinstance(b, int): return self.fit(Z(a) * (1 << b), ty, op)
        if op == '>>' and isinstance(b, int):
            ba = self.bounds(a)
            r = Z(a) / z3.IntVal(1 << b)
            return r
        if op == '>>' and not isinstance(b, int):
            raise ExtractError('variable shift')
        if op == '&':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                ba = self.bounds(a)
                if ba and ba[0] >= 0 or b >= 0: return self.maskint(a, b)
            raise ExtractError('bitwise and of two symbolic values (int mode)')
        if op == '|':
            h = getattr(self, 'orhook', None)
            if h: return h(a, b, ty)
            r = self.disjoint_or(a, b)
            if r is not None: return r
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0:      # one bit: set it
                a = Z(a); self.check('bitwise or of a non-negative number', a >= 0); return z3.If((a / b) % 2 == 1, a, a + b)
            a, b = Z(a), Z(b); lo, hi = int_range(ty); r = z3.Function('BITOR', z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            self.check('bitwise or of non-negative numbers', z3.And(a >= 0, b >= 0)); self.assume(z3.And(r >= a, r >= b, r <= a + b, r <= hi)); return r
        raise ExtractError('operator ' + op)

    def maskint(self, a, m):
        if m == 0: return 0
        parts = []; i = 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1: j += 1
                x = Z(a) / z3.IntVal(1 << i) if i else Z(a)
                parts.append((x % (1 << (j - i))) * (1 << i) if i else x % (1 << (j - i)))
                i = j
            else: i += 1
        r = parts[0]
        for p in parts[1:]: r = r + p
        self.rng[r.get_id()] = (0, m); self.keep.append(r)
        return r

    def disjoint_or(self, a, b):
        # x*2^k | y with y < 2^k
        for x, y in ((a, b), (b, a)):
            by = self.bounds(y)
            if by and by[0] >= 0:
                k = by[1].bit_length()
                if self.qf_valid(Z(x) % (1 << k) == 0) and self.qf_valid(Z(x) >= 0): return Z(x) + Z(y)
        return None

    def arith_bv(self, op, a, b, ty):
        if isz(a) and z3.is_bool(a): a = self.bvc(a, ty)
        if isz(b) and z3.is_bool(b): b = self.bvc(b, ty)
        n = a.size() if isz(a) else b.size()
        if not isz(a): a = z3.BitVecVal(int(a), n)
        if not isz(b): b = z3.BitVecVal(int(b), n)
        if b.size() != a.size():
            if op in ('<<', '>>'):
                b = z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else z3.Extract(a.size() - 1, 0, b)
            else: raise ExtractError('bv size mismatch')
        sg = ty.a[1]
        if op == '+':
            if sg and self.c.check_overflow: self.check('no signed overflow +', z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
            return z3.simplify(a + b)
        if op == '-':
            if sg and self.c.check_overflow: self.check('no signed overflow -', z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
            return z3.simplify(a - b)
        if op == '*': return z3.simplify(a * b)
        if op == '&': return z3.simplify(a & b)
        if op == '|': return z3.simplify(a | b)
        if op == '^': return z3.simplify(a ^ b)
        if op == '<<':
            self.check('shift amount in range', z3.ULT(b, n)); return z3.simplify(a << b)
        if op == '>>':
            self.check('shift amount in range', z3.ULT(b, n)); return z3.simplify(a >> b if sg else z3.LShR(a, b))
        if op == '/': return a / b if sg else z3.UDiv(a, b)
        if op == '%': return z3.SRem(a, b) if sg else z3.URem(a, b)
        raise ExtractError('bv operator ' + op)

    def cmp(self, op, a, b, signed=True):
        if isinstance(a, Unset) or isinstance(b, Unset): raise ExtractError('comparison of uninitialised value')
        if isinstance(a, (It, Ad, Null)) or isinstance(b, (It, Ad, Null)): return self.cmp_ptr(op, a, b)
        if isz(a) and z3.is_bv(a) or isz(b) and z3.is_bv(b):
            n = a.size() if isz(a) and z3.is_bv(a) else b.size()
            if not isz(a): a = z3.BitVecVal(int(a), n)
            if not isz(b): b = z3.BitVecVal(int(b), n)
            if z3.is_bool(a): a = z3.If(a, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
            if z3.is_bool(b): b = z3.If(b, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
            if op == '==': return a == b
            if op == '!=': return a != b
            if signed: return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return {'<': z3.ULT(a, b), '<=': z3.ULE(a, b), '>': z3.UGT(a, b), '>=': z3.UGE(a, b)}[op]
        if (isz(a) and z3.is_bool(a) or isinstance(a, bool)) and (isz(b) and z3.is_bool(b) or isinstance(b, bool)):
            if isinstance(a, bool) and isinstance(b, bool): return (a == b) if op == '==' else (a != b)
            if op == '==': return Z(a) == Z(b)
            if op == '!=': return z3.Xor(Z(a), Z(b))
        a, b = self.toint(a), self.toint(b)
        if isinstance(a, int) and isinstance(b, int):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if not (isz(a) or isinstance(a, int)) or not (isz(b) or isinstance(b, int)):
            raise ExtractError(f'comparison of {a} and {b}')
        ba, bb = self.bounds(a), self.bounds(b)
        if ba and bb:
            if op == '<' and ba[1] < bb[0]: return True
            if op == '<' and ba[0] >= bb[1]: return False
            if op == '>' and ba[0] > bb[1]: return True
            if op == '>' and ba[1] <= bb[0]: return False
            if op == '>=' and ba[0] >= bb[1]: return True
            if op == '<=' and ba[1] <= bb[0]: return True
            if op in ('==', '!=') and (ba[1] < bb[0] or bb[1] < ba[0]): return op == '!='
        a, b = Z(a), Z(b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]

    def eq(self, a, b): return self.cmp('==', a, b)

    def cmp_ptr(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if not lv_eq(a.base, b.base):
                if op in ('==', '!=') and a.base.cell != b.base.cell: return op == '!='
                raise ExtractError('comparison of iterators of different containers')
            return self.cmp(op, a.idx, b.idx)
        if isinstance(a, Null) and isinstance(b, Null): return op in ('==', '<=', '>=')
        if isinstance(a, Null) or isinstance(b, Null):
            o = b if isinstance(a, Null) else a
            if isz(o) or isinstance(o, int): return self.cmp(op, o, 0)
            if op == '==': return False
            if op == '!=': return True
        if isinstance(a, Ad) and isinstance(b, Ad):
            same = lv_eq(a.lv, b.lv)
            if op == '==': return same
            if op == '!=': return not same
        raise ExtractError(f'pointer comparison {a} {op} {b}')

    def conv(self, v, ty):
        """adjust a value to a declared type (bool/int mixing only)"""
        if ty.k == 'bool' and not (isinstance(v, bool) or (isz(v) and z3.is_bool(v))): return self.tobool(v) if not isinstance(v, Unset) else v
        if isinstance(v, Null) and ty.k == 'ptr' and self.is_heap_type(ty.a[0]): return 0
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        k = e.get('kind')
        r = e.get('range', {}).get('begin', {})
        if 'line' in r: self._loc = f"line {r['line']}"
        while k in WRAPPERS or k == 'CXXDefaultArgExpr' or k == 'CXXDefaultInitExpr':
            if k == 'ConstantExpr' and 'value' in e and self.ety(e).k in ('int', 'bool'):
                v = e['value']
                if v in ('true', 'false'): return v == 'true'
                try:
                    v = int(v)
                    return v
                except ValueError: pass
            ks = kids(e)
            if not ks:
                raise ExtractError('empty ' + k)
            e = ks[0] if k != 'SubstNonTypeTemplateParmExpr' else ks[-1]
            k = e.get('kind')
        m = getattr(self, 'ex_' + str(k), None)
        if m is None: raise ExtractError('expression ' + str(k))
        return m(e)

    def ex_IntegerLiteral(self, e): return self.lit(int(e['value']), e)
    def ex_CharacterLiteral(self, e): return self.lit(int(e['value']), e)
    def lit(self, v, e):
        t = self.ety(e)
        if t.k == 'int':
            bits, sg = t.a
            v %= 1 << bits
            if sg and v >= 1 << (bits - 1): v -= 1 << bits
            if self.bv and not (self.c.int64 and bits == 64): return z3.BitVecVal(v, bits)
        return v
    def ex_CXXBoolLiteralExpr(self, e): return e['value'] in (True, 'true')
    def ex_CXXNullPtrLiteralExpr(self, e): return NULL
    def ex_GNUNullExpr(self, e): return NULL
    def ex_ImplicitValueInitExpr(self, e): return self.zero(self.ety(e))
    def ex_CXXScalarValueInitExpr(self, e): return self.zero(self.ety(e))

    def ex_StringLiteral(self, e):
        raw = e.get('value', '""')
        return Op('strlit', {'raw': raw, 'chars': parse_strlit(raw)})

    def strlit_ptr(self, o):
        ch = o.d['chars'] + [0]
        arr = z3.K(z3.IntSort(), z3.IntVal(0))
        for i, c in enumerate(ch): arr = z3.Store(arr, i, c)
        lv = self.new_cell(V(Ty('int', (8, True)), len(ch), arr), 'strlit')
        return It(lv, 0)

    def ex_DeclRefExpr(self, e):
        d = e['referencedDecl']
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            for fr in reversed(self.frames):
                if d['id'] in fr.vars: return fr.vars[d['id']]
            node = self.u.byid.get(d['id'])
            if node is not None:   # namespace-scope / static constant
                ini = [c for c in kids(node) if 'kind' in c and not c['kind'].endswith('Attr')]
                if ini and ('const' in qt(node)):
                    if d['id'] not in self.ghost: self.ghost[d['id']] = self.new_cell(self.rv(ini[0]), 'static_' + d.get('name', ''))
                    return self.ghost[d['id']]
            if d.get('name') == 'ignore': return self.new_cell(Op('ignore'))
            raise ExtractError('unknown variable ' + d.get('name', '?'))
        if d['kind'] == 'EnumConstantDecl':
            if d['id'] in self.u.enumconst: 
                v = self.u.enumconst[d['id']]
                if self.bv: return z3.BitVecVal(v, 32)
                return v
            known = {'in': 8, 'out': 16, 'binary': 4, 'hex': 8, 'dec': 2}
            return Op('enum:' + d.get('name', ''))
        if d['kind'] in FUNCS: return Op('fn', {'id': d['id'], 'name': d.get('name')})
        if d['kind'] == 'BindingDecl': raise ExtractError('structured binding')
        raise ExtractError('reference to ' + d['kind'])

    def ex_CXXThisExpr(self, e):
        for fr in reversed(self.frames):
            if fr.this.cell.startswith('heap:') and len(fr.this.path) == 1: return fr.this.path[0][1]
            return Ad(fr.this)

    def ex_MemberExpr(self, e):
        base = kids(e)[0]
        name = e.get('name')
        if e.get('isArrow'):
            p = self.rv(base)
            lv = self.deref(p, base)
        else:
            v = self.ev(base)
            lv = v if isinstance(v, LV) else self.new_cell(v)
        md = e.get('referencedMemberDecl')
        node = self.u.byid.get(md)
        if node is not None and node.get('kind') in FUNCS: return lv
        if node is not None and node.get('kind') == 'VarDecl':
            return self.ex_DeclRefExpr({'referencedDecl': {'kind': 'VarDecl', 'id': md, 'name': name}})
        cur = self.load(lv)
        if isinstance(cur, S) and name in cur.f:
            v = cur.f[name]
            if node is not None and norm_type(node.get('type', {}).get('qualType', '')).endswith('&') and isinstance(v, Ad): return v.lv
            return lv.f(name)
        if isinstance(cur, (Op,)) and name in cur.d: return lv
        raise ExtractError(f'member {name} of {cur}')

    def heap_lv(self, addr, ty):
        cell = 'heap:' + self.heap_class(ty)
        if cell not in self.store: raise ExtractError('no heap for ' + str(ty))
        self.check('pointer is not null', Z(addr) != 0)
        return LV(cell, (('i', Z(addr)),))

    def heap_class(self, ty):
        for h in self.c.heap:
            if h in ty.name: return h
        raise ExtractError('heap class of %s' % ty)

    def deref(self, p, e=None):
        if isinstance(p, Ad): return p.lv
        if isinstance(p, It):
            n = self.cont_len(p.base)
            self.check('dereference in bounds', z3.And(Z(p.idx) >= 0, Z(p.idx) < Z(n)))
            return p.base.i(Z(p.idx))
        if isinstance(p, Null):
            self.oblige('null pointer is not dereferenced', False); raise PathEnd()
        if isinstance(p, LV): return p
        if isinstance(p, S) and p.ty == 'opt': raise ExtractError('deref of owned pointer value')
        if isinstance(p, Op) and p.tag == 'strlit': return self.deref(self.strlit_ptr(p))
        if isinstance(p, Op) and 'deref' in p.d: return p.d['deref'](self)
        if (isz(p) or isinstance(p, int)) and e is not None:
            t = self.ety(e)
            if t.k in ('ptr', 'opt'): return self.heap_lv(p, t.a[0])
        raise ExtractError(f'dereference of {p}')

    def cont_len(self, base):
        c = self.load(base)
        if isinstance(c, V): return c.len
        if isinstance(c, S) and '#len' in c.f: return c.f['#len']
        raise ExtractError(f'length of {c}')

    def ex_ArraySubscriptExpr(self, e):
        a, i = kids(e)
        p = self.ev(a); i = self.rv(i)
        if isinstance(p, LV):
            c = self.load(p)
            if isinstance(c, V): p = It(p, 0)
            elif isinstance(c, S) and c.ty == 'rows': p = Ad(p)
            else: p = c
        if isinstance(p, Op) and p.tag == 'strlit': p = self.strlit_ptr(p)
        if isinstance(p, It): return self.deref(It(p.base, self.iadd(p.idx, i)))
        if isinstance(p, Ad): 
            if isinstance(self.load(p.lv), S) and self.load(p.lv).ty == 'rows':          # array of containers, constant subscript
                if isz(i) and z3.is_int_value(i): i = i.as_long()
                if not isinstance(i, int) or str(i) not in self.load(p.lv).f: raise ExtractError('subscript of an array of containers')
                return p.lv.f(str(i))
            raise ExtractError('subscript of object pointer')
        raise ExtractError(f'subscript of {p}')

    def iadd(self, a, b):
        if self.bv:
            if isz(b) and z3.is_bv(b): b = z3.simplify(z3.BV2Int(b, True))
            if isz(b) and z3.is_int_value(b): b = b.as_long()
        if isinstance(a, int) and isinstance(b, int): return a + b
        return Z(a) + Z(b)

    def ex_ImplicitCastExpr(self, e): return self.cast(e)
    def ex_CStyleCastExpr(self, e): return self.cast(e)
    def ex_CXXStaticCastExpr(self, e): return self.cast(e)
    def ex_CXXConstCastExpr(self, e): return self.cast(e)
    def ex_CXXFunctionalCastExpr(self, e): return self.cast(e)
    def ex_CXXReinterpretCastExpr(self, e):
        h = getattr(self.c, 'reinterpret', None)
        if h: return h(self.cx, e)
        raise ExtractError('reinterpret_cast')

    def cast(self, e):
        ck = e.get('castKind'); sub = kids(e)[0]
        if ck == 'LValueToRValue':
            v = self.ev(sub)
            if isinstance(v, LV):
                x = self.load(v)
                if isz(x): self.note_load(x, e)
                if isinstance(x, Unset):
                    raise ExtractError('read of an uninitialised variable')
                return x
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'UserDefinedConversion',
                  'ConstructorConversion', 'Dynamic', 'BitCast', 'BuiltinFnToFnPtr'):
            return self.ev(sub)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(sub)
            if isinstance(v, LV):
                c = self.load(v)
                if isinstance(c, V): return It(v, 0)
                if isinstance(c, S) and c.ty == 'rows': return Ad(v)
                return c
            return v
        if ck == 'IntegralCast':
            v = self.rv(sub)
            if isinstance(v, Op): return v
            s, d = self.ety(sub), self.ety(e)
            if d.k != 'int' : return v
            if s.k == 'rec': s = Ty('int', (32, True))
            return self.cast_int(v, s, d)
        if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean': return self.tobool(self.rv(sub))
        if ck == 'NullToPointer': return NULL
        if ck == 'IntegralToPointer' and str(self.rv(kids(e)[0])) == '-1': return Ad(LV('MAP_FAILED'))
        if ck == 'IntegralToPointer' and str(self.rv(kids(e)[0])) == '0': return NULL
        if ck == 'ToVoid': self.ev(sub); return VOID
        raise ExtractError('cast ' + str(ck))

    def ex_UnaryOperator(self, e):
        op = e['opcode']; sub = kids(e)[0]
        if op == '!': return self.bnot(self.tobool(self.rv(sub)))
        if op == '&':
            v = self.ev(sub)
            if not isinstance(v, LV): raise ExtractError('address of rvalue')
            if v.path and isinstance(v.path[-1], tuple): return It(LV(v.cell, v.path[:-1]), v.path[-1][1])
            if v.cell.startswith('heap:'): return v.path[0][1]
            return Ad(v)
        if op == '*':
            p = self.rv(sub)
            return self.deref(p, sub)
        if op in ('++', '--'):
            lv = self.ev(sub); t = self.ety(sub)
            old = self.load(lv); self.note_load(old, sub) if isz(old) else None
            d = 1 if op == '++' else -1
            if isinstance(old, It): new = self.ptr_add(old, d)
            elif t.k == 'int':
                one = 1
                pt = t if t.a[0] >= 32 else Ty('int', (32, True))
                if self.bv and not (self.c.int64 and t.a[0] == 64):
                    o = self.cast_int(old, t, pt) if isz(old) else old
                    new = self.arith('+' if d > 0 else '-', o, z3.BitVecVal(1, pt.a[0]), pt)
                    new = self.cast_int(new, pt, t)
                else:
                    new = self.arith('+' if d > 0 else '-', old, 1, pt)
                    new = self.fit(new, t, cast=True)
            else: raise ExtractError(f'++ on {old}')
            self.storev(lv, new)
            return old if e.get('isPostfix') else lv
        v = self.rv(sub)
        t = self.ety(e)
        if op == '-': return self.arith('-', 0 if not self.bv else z3.BitVecVal(0, t.a[0]), v, t)
        if op == '+': return self.toint(v)
        if op == '~':
            if self.bv and isz(v): return z3.simplify(~v)
            v = self.toint(v)
            if isinstance(v, int): return self.fit(~v, t, cast=True)
            return self.fit(-Z(v) - 1, t, cast=True)
        raise ExtractError('unary ' + op)

    def ptr_add(self, p, d):
        if isinstance(p, It): return It(p.base, self.iadd(p.idx, d))
        if isinstance(p, Ad): raise ExtractError('arithmetic on object pointer')
        raise ExtractError(f'pointer arithmetic on {p}')

    def ex_BinaryOperator(self, e):
        op = e['opcode']; l, r = kids(e)
        if op == '=': return self.assign(l, r)
        if op == ',': self.ev(l); return self.ev(r)
        if op == '&&':
            a = self.tobool(self.rv(l))
            return self.tobool(self.rv(r)) if self.decide(a) else False
        if op == '||':
            a = self.tobool(self.rv(l))
            return True if self.decide(a) else self.tobool(self.rv(r))
        a = self.rv(l); b = self.rv(r)
        return self.binop(op, a, b, self.ety(l), self.ety(r), self.ety(e))

    def binop(self, op, a, b, tl, tr, te):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            sg = tl.a[1] if tl.k == 'int' else True
            if isinstance(a, S) or isinstance(b, S): raise ExtractError('struct comparison')
            return self.cmp(op, a, b, sg)
        if isinstance(a, Op) and a.tag == 'strlit': a = self.strlit_ptr(a)
        if isinstance(a, It) and isinstance(b, It) and op == '-':
            if not lv_eq(a.base, b.base): raise ExtractError('difference of unrelated iterators')
            if isinstance(a.idx, int) and isinstance(b.idx, int): return a.idx - b.idx
            r = Z(a.idx) - Z(b.idx)
            self.rng[r.get_id()] = (-(1 << 62), 1 << 62); self.keep.append(r)
            if self.bv: return z3.Int2BV(r, 64)
            return r
        if isinstance(a, It): return It(a.base, self.iadd(a.idx, b if op == '+' else self.neg(b)))
        if isinstance(b, It) and op == '+': return It(b.base, self.iadd(b.idx, a))
        return self.arith(op, a, b, te)

    def neg(self, b):
        if isinstance(b, int): return -b
        if z3.is_bv(b): return -z3.BV2Int(b, True)
        return -Z(b)

    def assign(self, l, r):
        v = self.rv(r)
        lv = self.ev(l)
        if not isinstance(lv, LV): raise ExtractError('assignment to rvalue')
        v = self.conv(v, self.ety(l))
        self.storev(lv, v)
        return lv

    def ex_CompoundAssignOperator(self, e):
        op = e['opcode'][:-1]; l, r = kids(e)
        b = self.rv(r)
        lv = self.ev(l)
        a = self.load(lv); tl = self.ety(l)
        if isz(a): self.note_load(a, l)
        if isinstance(a, It):
            self.storev(lv, self.binop(op, a, b, tl, self.ety(r), tl)); return lv
        ct = e.get('computeResultType', {}); ct = parse_type(ct.get('desugaredQualType', ct.get('qualType', 'int')))
        if ct.k != 'int': ct = tl
        la = self.cast_int(a, tl, ct) if ct.k == 'int' else a
        res = self.arith(op, la, b, ct)
        if tl.k == 'int': res = self.cast_int(res, ct, tl)
        self.storev(lv, self.conv(res, tl))
        return lv

    def ex_ConditionalOperator(self, e):
        c, a, b = kids(e)
        if self.decide(self.cond(c)): return self.ev(a)
        return self.ev(b)

    def ex_UnaryExprOrTypeTraitExpr(self, e):
        if e.get('name') == 'sizeof':
            t = e.get('argType')
            if t: ty = parse_type(t.get('desugaredQualType', t.get('qualType')), self.u)
            else:
                ty = self.ety(kids(e)[0])
            v = self.sizeof(ty)
            return z3.BitVecVal(v, 64) if self.bv and not self.c.int64 else v
        raise ExtractError('trait ' + str(e.get('name')))

    def sizeof(self, ty):
        if ty.k == 'int': return ty.a[0] // 8
        if ty.k == 'bool': return 1
        if ty.k == 'ref': return self.sizeof(ty.a[0])
        if ty.k == 'rec':
            # type parameter spelled by name: resolve through aliases is not attempted
            raise ExtractError('sizeof ' + ty.name)
        raise ExtractError('sizeof %r' % ty)

    def ex_CXXThrowExpr(self, e):
        ks = kids(e)
        if not ks: raise self.cur_exc
        t = qt(ks[0])
        raise ThrowEx(strip_const(norm_type(t)), None)

    def ex_InitListExpr(self, e):
        ty = self.ety(e)
        ks = kids(e)
        if ty.k == 'arr':
            n = int(ty.name)
            vals = [self.rv(k) for k in ks]
            if len(vals) == 1 and isinstance(vals[0], V): return vals[0]
            v = self.const_vec(ty.a[0], n, self.zero(ty.a[0]))
            for i, x in enumerate(vals): v = V(v.ety, v.len, self.upd(v.arr, i, x))
            return v
        if ty.k in ('int', 'bool', 'ptr'): return self.rv(ks[0]) if ks else self.zero(ty)
        if ty.k == 'rec':
            r = self.record(ty); s = self.default_construct(ty) if False else None
            f = {}
            fl = self.u.record_fields(r)
            for (fn, ft, node), k in zip(fl, ks): f[fn] = self.rv(k)
            return S(r, f)
        if ty.k == 'pair':
            return self.mkpair(ty, ks)
        raise ExtractError(f'init list for {ty}')

    def ex_CXXStdInitializerListExpr(self, e):
        v = self.ev(kids(e)[0])
        return self.val(v)

    def ex_LambdaExpr(self, e):
        ks = kids(e); inits = [c for c in ks if c.get('kind') not in ('CXXRecordDecl', 'CompoundStmt')]
        inside = set(); used = []
        def walk(n):
            if not isinstance(n, dict): return
            if n.get('kind') in ('VarDecl', 'ParmVarDecl'): inside.add(n['id'])
            if n.get('kind') == 'DeclRefExpr' and n['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl') and n['referencedDecl']['id'] not in [x for x, _ in used]: used.append((n['referencedDecl']['id'], n['referencedDecl'].get('name', '?')))
            for c in n.get('inner', []): walk(c)
        for m in kids(ks[0]):
            if m.get('kind') == 'CXXMethodDecl': inside.update(x['id'] for x in kids(m) if x.get('kind') == 'ParmVarDecl')
        for c in ks:
            if c.get('kind') == 'CompoundStmt': walk(c)
        caps = [(i, n) for i, n in used if i not in inside]
        refs = [c.get('type', {}).get('qualType', '').endswith('&') for c in kids(ks[0]) if c.get('kind') == 'FieldDecl']
        if len(caps) == 1 and len(inits) == 1 and refs == [True]: return Op('lambda', {'node': e, 'caps': [(caps[0][0], caps[0][1], self.ev(inits[0]))]})
        if len(caps) != 1 or len(inits) != 1 or any(refs):
            if caps or inits: raise ExtractError('lambda with several captures %r' % ((caps, [i.get('kind') for i in inits], refs),))
            return Op('lambda', {'node': e, 'caps': []})
        return Op('lambda', {'node': e, 'caps': [(caps[0][0], caps[0][1], self.rv(inits[0]))]})

    # calls, constructors: see stl.py

def parse_strlit(raw):
    s = raw
    i = s.index('"'); s = s[i + 1:s.rindex('"')]
    out = []; i = 0
    esc = {'n': 10, 't': 9, 'r': 13, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            if d in esc: out.append(esc[d]); i += 2
            elif d == 'x':
                j = i + 2
                while j < len(s) and s[j] in '0123456789abcdefABCDEF': j += 1
                out.append(int(s[i + 2:j], 16)); i = j
            elif d in '01234567':
                j = i + 1
                while j < len(s) and j < i + 4 and s[j] in '01234567': j += 1
                out.append(int(s[i + 1:j], 8)); i = j
            else: raise ExtractError('string escape')
        else:
            for b in c.encode(): out.append(b)
            i += 1
    return out
