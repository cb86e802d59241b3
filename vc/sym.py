"""Types and symbolic values."""
import re, z3
from .front import ExtractError, norm_type

# ---------------------------------------------------------------- types
INTS = {
 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
 'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
 'wchar_t': (32, True), 'char32_t': (32, False), 'char16_t': (16, False), 'char8_t': (8, False),
 'std::size_t': (64, False), 'size_t': (64, False), 'std::ptrdiff_t': (64, True), 'ptrdiff_t': (64, True),
 'uint8_t': (8, False), 'uint16_t': (16, False), 'uint32_t': (32, False), 'uint64_t': (64, False),
 'std::uint16_t': (16, False), 'std::uint32_t': (32, False), 'std::uint64_t': (64, False),
 'std::streamsize': (64, True), 'difference_type': (64, True), 'size_type': (64, False),
}

class Ty:
    __slots__ = ('k', 'a', 'name')
    def __init__(self, k, a=(), name=''): self.k = k; self.a = tuple(a); self.name = name
    def __repr__(self): return f'{self.k}{list(self.a) if self.a else ""}{self.name}'
    def __eq__(self, o): return isinstance(o, Ty) and (self.k, self.a, self.name) == (o.k, o.a, o.name)
    def __hash__(self): return hash((self.k, self.a, self.name))

def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def strip_const(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        if s.startswith('const ') : s = s[6:].strip(); ch = True
        if s.endswith('const') and not s.endswith('_const') and (len(s) == 5 or s[-6] in ' *&>'):
            s = s[:-5].strip(); ch = True
        if s.endswith('__restrict'): s = s[:-10].strip(); ch = True
    return s

_cache = {}
def parse_type(s, unit=None):
    s0 = s
    if s0 in _cache: return _cache[s0]
    s = strip_const(norm_type(s))
    r = _parse(s, unit)
    _cache[s0] = r
    return r

def _parse(s, unit):
    if s.endswith('&&'): return Ty('ref', [parse_type(s[:-2], unit)])
    if s.endswith('&'): return Ty('ref', [parse_type(s[:-1], unit)])
    if s.endswith('*'): return Ty('ptr', [parse_type(s[:-1], unit)])
    if s in INTS: return Ty('int', INTS[s], '')
    if s in ('bool', '_Bool'): return Ty('bool')
    if s == 'void': return Ty('void')
    if s in ('std::nullptr_t', 'nullptr_t'): return Ty('null')
    m = re.match(r'^([\w:]+)<(.*)>$', s)
    # arrays
    m2 = re.match(r'^(.*)\[(\d+)\]$', s)
    if m2: return Ty('arr', [parse_type(m2.group(1), unit)], m2.group(2))
    if m and balanced(m.group(2)):
        n, a = m.group(1), split_args(m.group(2))
        b = n.split('::')[-1]
        P = lambda i: parse_type(a[i], unit)
        if n.startswith('std::') or n in ('vector', 'pair', 'unique_ptr', 'set', 'map', 'basic_string') or n.startswith('__gnu_cxx'):
            if b == 'vector': return Ty('vec', [P(0)])
            if b == 'basic_string': return Ty('vec', [P(0)], 'str')
            if b == 'basic_string_view': return Ty('view', [P(0)])
            if b == 'pair': return Ty('pair', [P(0), P(1)])
            if b == 'stack': return Ty('vec', [P(0)], 'stack')
            if b in ('list', 'deque'): return Ty('vec', [P(0)], b)
            if b == 'set': return Ty('set', [P(0)])
            if b == 'map': return Ty('map', [P(0), P(1)])
            if b in ('unique_ptr',): return Ty('opt', [P(0)])
            if b == 'array': return Ty('arr', [P(0)], a[1])
            if b in ('__normal_iterator',): return Ty('iter', [P(0)])
            if b in ('_List_iterator', '_List_const_iterator', 'reverse_iterator', 'back_insert_iterator',
                     '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Bit_iterator', '_Bit_const_iterator'):
                return Ty('iter', [], s)
            if b in ('initializer_list',): return Ty('vec', [P(0)], 'init')
            return Ty('opaque', [], s)
    return Ty('rec', [], s)

def balanced(s):
    d = 0
    for c in s:
        if c == '<': d += 1
        if c == '>': d -= 1
        if d < 0: return False
    return d == 0

def int_range(ty):
    bits, signed = ty.a
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

# ---------------------------------------------------------------- values
class S:
    """struct value"""
    __slots__ = ('ty', 'f')
    def __init__(self, ty, f): self.ty = ty; self.f = f
    def __repr__(self): return f'S<{self.ty}>{self.f}'
    def get(self, n): return self.f[n]
    def set(self, n, v): d = dict(self.f); d[n] = v; return S(self.ty, d)

class V:
    """vector-like value: len + (lifted) element value"""
    __slots__ = ('ety', 'len', 'arr')
    def __init__(self, ety, ln, arr): self.ety = ety; self.len = ln; self.arr = arr
    def __repr__(self): return f'V<{self.ety}>(len={self.len}, {self.arr})'

class It:
    """iterator / pointer into the container at lvalue base"""
    __slots__ = ('base', 'idx')
    def __init__(self, base, idx): self.base = base; self.idx = idx
    def __repr__(self): return f'It({self.base},{self.idx})'

class Ad:
    """pointer to a single object"""
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv
    def __repr__(self): return f'Ad({self.lv})'

class Null:
    def __repr__(self): return 'Null'
NULL = Null()

class Void:
    def __repr__(self): return 'Void'
VOID = Void()

class Unset:
    """indeterminate (uninitialised) scalar"""
    def __repr__(self): return 'Unset'
UNSET = Unset()

class Op:
    """opaque object"""
    __slots__ = ('tag', 'd')
    def __init__(self, tag, d=None): self.tag = tag; self.d = d or {}
    def __repr__(self): return f'Op({self.tag})'

class LV:
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def __repr__(self): return f'LV({self.cell}{"".join("." + str(p) if isinstance(p, str) else "[" + str(p[1]) + "]" for p in self.path)})'
    def f(self, n): return LV(self.cell, self.path + (n,))
    def i(self, e): return LV(self.cell, self.path + (('i', e),))

def lv_eq(a, b):
    if a.cell != b.cell or len(a.path) != len(b.path): return False
    for p, q in zip(a.path, b.path):
        if isinstance(p, str) or isinstance(q, str):
            if p != q: return False
        elif not term_eq(p[1], q[1]): return False
    return True

def term_eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b and type(a) == type(b)
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        a, b = Z(a), Z(b)
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return a is b

def Z(x):
    """python value -> z3"""
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x

def isz(x): return z3.is_expr(x)

def vmap(f, v):
    if isinstance(v, S): return S(v.ty, {k: vmap(f, x) for k, x in v.f.items()})
    if isinstance(v, V): return V(v.ety, f(v.len), vmap(f, v.arr))
    if isinstance(v, It): return It(v.base, f(v.idx))
    if isinstance(v, (Ad, Null, Op, Unset, Void)): return v
    return f(v)

def vzip(f, a, b):
    if isinstance(a, S):
        if not isinstance(b, S): raise ExtractError(f'shape mismatch {a} / {b}')
        return S(a.ty, {k: vzip(f, x, b.f[k]) for k, x in a.f.items()})
    if isinstance(a, V):
        if not isinstance(b, V): raise ExtractError(f'shape mismatch {a} / {b}')
        return V(a.ety, f(a.len, b.len), vzip(f, a.arr, b.arr))
    if isinstance(a, It) and isinstance(b, It) and lv_eq(a.base, b.base): return It(a.base, f(a.idx, b.idx))
    if isinstance(a, (It, Ad, Null, Op, Unset, Void)) or isinstance(b, (It, Ad, Null, Op, Void)):
        if isinstance(a, Ad) and isinstance(b, Ad) and lv_eq(a.lv, b.lv): return a
        if type(a) is type(b) and isinstance(a, (Null, Unset, Void)): return a
        if isinstance(a, Op) and isinstance(b, Op): return b
        raise ExtractError(f'cannot merge {a} / {b}')
    return f(a, b)

def vleaves(v, path=()):
    """yields (path, leaf)"""
    if isinstance(v, S):
        for k, x in v.f.items(): yield from vleaves(x, path + (k,))
    elif isinstance(v, V):
        yield path + ('#len',), v.len
        yield from vleaves(v.arr, path + ('#arr',))
    elif isinstance(v, It):
        yield path + ('#idx',), v.idx
    else:
        yield path, v

def vset_leaf(v, path, x):
    if not path: return x
    p = path[0]
    if isinstance(v, S): return v.set(p, vset_leaf(v.f[p], path[1:], x))
    if isinstance(v, V):
        if p == '#len': return V(v.ety, x, v.arr)
        return V(v.ety, v.len, vset_leaf(v.arr, path[1:], x))
    if isinstance(v, It): return It(v.base, x)
    raise ExtractError(f'bad leaf path {path} in {v}')
