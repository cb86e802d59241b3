"""memory_file: open / close / destructor against a model of open, fstat, mmap, munmap and close."""
from .common import *
DRIVER = r'''
#include <lexertl/memory_file.hpp>
template class lexertl::basic_memory_file<char>;
template class lexertl::basic_memory_file<wchar_t>;
template class lexertl::basic_memory_file<char32_t>;
'''
def make(ch, w):
    R = 'lexertl::basic_memory_file<%s>' % ch; out = []
    def os(cx, f, snap=None): return cx.load(cx.data['os'].f(f), snap)
    def put(cx, **kv):
        for k_, v in kv.items(): cx.ex.storev(cx.data['os'].f(k_), v)
    def world(cx):
        d = cx.data; d['os'] = cx.cell(S('os', {'mapped': z3.Bool('mapped'), 'len': z3.Int('maplen'), 'open': z3.Bool('fdopen'), 'fd': z3.Int('fd')}), 'os'); d['map'] = cx.cell(Op('mapping'), 'mapping')
        d['path'] = cx.cell(Op('path'), 'path'); d['exists'] = z3.Bool('file_opens'); d['stats'] = z3.Bool('file_stats'); d['maps'] = z3.Bool('file_maps'); d['fsize'] = z3.Int('file_size'); cx.assume(z3.And(d['fsize'] >= 0, d['fsize'] < 2 ** 62)); d['log'] = []
    def obj(cx):
        """an object in any state its operations can leave it in (the class invariant)"""
        world(cx); d = cx.data; isnull = cx.ex.choose('null'); n = z3.Int('_size0'); ln = z3.Int('_length0'); fh = z3.Int('_fh0')
        names = [fn for fn, ft, node in cx.ex.u.record_fields(cx.ex.find_record(R))]
        f = {'_data': NULL if isnull else Ad(d['map']), '_size': n, '_fh': fh}
        if '_length' in names: f['_length'] = ln
        d['len'] = '_length' in names; this = cx.cell(S(cx.ex.find_record(R), f), 'this'); d['this'] = this
        cx.assume(z3.And(fh >= -1, *[g for _, g in inv(cx)])); return this
    def inv(cx):
        d = cx.data; o = cx.load(d['this']); p = o.f['_data']; has = not isinstance(p, Null)
        return [('a mapping is held exactly when data() is not null', z3.And(B(cx, os(cx, 'mapped')) == has, z3.BoolVal(not has or (isinstance(p, Ad) and same_lv(p.lv, d['map']))))),
                ('size() is the size of the mapping', Z(o.f['_size']) == (Z(os(cx, 'len')) / w if has else 0)), ('the mapping has a length', z3.Implies(B(cx, os(cx, 'mapped')), Z(os(cx, 'len')) > 0))] + \
               ([('the length in bytes is known', Z(o.f['_length']) == (Z(os(cx, 'len')) if has else 0))] if d['len'] else []) + \
               [('the handle is open exactly when it is held', z3.And(B(cx, os(cx, 'open')) == (Z(o.f['_fh']) > -1), z3.Implies(Z(o.f['_fh']) > -1, Z(os(cx, 'fd')) == Z(o.f['_fh'])), Z(o.f['_fh']) >= -1))]
    # --- the operating system
    def x_open(cx, a, e):
        ex = cx.ex; p = ex.rv(a[0]); cx.oblige('the file named is opened', z3.BoolVal(isinstance(p, Ad) and same_lv(p.lv, cx.data['path']))); cx.oblige('the file is opened for reading', Z(ex.rv(a[1])) == 0)
        cx.oblige('no handle is lost', z3.Not(B(cx, os(cx, 'open')))); fd = z3.Int(ex.fresh_name('fd')); cx.assume(fd >= 0)
        if ex.decide(cx.data['exists']): put(cx, open=z3.BoolVal(True), fd=fd); return fd
        return z3.IntVal(-1)
    def x_fstat(cx, a, e):
        ex = cx.ex; cx.oblige('fstat asks about the open handle', z3.And(B(cx, os(cx, 'open')), Z(ex.rv(a[0])) == Z(os(cx, 'fd')))); p = ex.rv(a[1])
        if ex.decide(cx.data['stats']): ex.storev(p.lv.f('st_size'), cx.data['fsize']); return z3.IntVal(0)
        return z3.IntVal(-1)
    def x_mmap(cx, a, e):
        ex = cx.ex; v = [ex.rv(x) for x in a]; d = cx.data
        cx.oblige('no mapping is lost', z3.Not(B(cx, os(cx, 'mapped'))))
        cx.oblige('the whole file is mapped from its start, readable', z3.And(Z(v[1]) == d['fsize'], Z(v[2]) == 1, Z(v[4]) == Z(os(cx, 'fd')), B(cx, os(cx, 'open')), Z(v[5]) == 0, z3.BoolVal(isinstance(v[0], Null) or (z3.is_int_value(Z(v[0])) and Z(v[0]).as_long() == 0))))
        if ex.decide(z3.And(d['fsize'] > 0, d['maps'])): put(cx, mapped=z3.BoolVal(True), len=d['fsize']); return Ad(d['map'])
        return Ad(LV('MAP_FAILED'))
    def x_munmap(cx, a, e):
        p, n = [cx.ex.rv(x) for x in a]; cx.oblige('the whole mapping is released', z3.And(z3.BoolVal(isinstance(p, Ad) and same_lv(p.lv, cx.data['map'])), B(cx, os(cx, 'mapped')), Z(n) == Z(os(cx, 'len')))); put(cx, mapped=z3.BoolVal(False)); return z3.IntVal(0)
    def x_close(cx, a, e):
        h = cx.ex.rv(a[0]); cx.oblige('the handle that is held is closed', z3.And(B(cx, os(cx, 'open')), Z(h) == Z(os(cx, 'fd')))); put(cx, open=z3.BoolVal(False)); return z3.IntVal(0)
    def opaque(cx, ty, ks, e): return S('stat', {'st_size': z3.Int(cx.ex.fresh_name('garbage'))})
    X = dict(ext={'open': x_open, 'fstat': x_fstat, 'mmap': x_mmap, 'munmap': x_munmap, 'close': x_close}, construct_opaque=opaque)
    def check_inv(cx):
        for n, g in inv(cx): cx.oblige(n, g)
    def e_open(cx, r):
        d = cx.data; o = cx.load(d['this']); check_inv(cx); has = not isinstance(o.f['_data'], Null); ok = z3.And(d['exists'], d['stats'], d['maps'], d['fsize'] > 0)
        cx.oblige('a file that can be mapped is mapped, anything else gives a null mapping', z3.BoolVal(has) == ok); cx.oblige('data() and size() show the file', z3.Implies(ok, z3.And(Z(os(cx, 'len')) == d['fsize'], Z(o.f['_size']) == d['fsize'] / w)))
        cx.oblige('an empty or missing file has size 0', z3.Implies(z3.Not(ok), Z(o.f['_size']) == 0))
    def e_close(cx, r): o = cx.load(cx.data['this']); check_inv(cx); cx.oblige('nothing is mapped any more', z3.And(z3.Not(B(cx, os(cx, 'mapped'))), z3.BoolVal(isinstance(o.f['_data'], Null)), Z(o.f['_size']) == 0)); cx.oblige('the handle is closed', z3.Not(B(cx, os(cx, 'open'))))
    def s_obj(cx): return obj(cx), []
    def s_open(cx): t = obj(cx); return t, [Ad(cx.data['path'])]
    def ff(name, npar):
        def f(u):
            o = [n for q, n in u.funcs if q == R + '::' + name and len(params_of(n)) == npar]
            if not o: raise ExtractError(R + '::' + name + ' not found')
            return o[0]
        return f
    out.append(Contract(ch + ' open', func=ff('open', 1), setup=s_open, ensures=e_open, **X))
    out.append(Contract(ch + ' close', func=ff('close', 0), setup=s_obj, ensures=e_close, **X))
    out.append(Contract(ch + ' destructor', func=ff('~basic_memory_file', 0), setup=s_obj, ensures=e_close, **X))
    def s_new(cx):
        world(cx); d = cx.data; cx.assume(z3.And(z3.Not(B(cx, os(cx, 'mapped'))), z3.Not(B(cx, os(cx, 'open'))))); d['len'] = '_length' in [fn for fn, ft, node in cx.ex.u.record_fields(cx.ex.find_record(R))]
        this = cx.cell(cx.ex.zero_shape(Ty('rec', [], cx.ex.find_record(R))), 'this'); d['this'] = this; return this, [Ad(d['path'])]
    def ctor(u):
        o = [n for q, n in u.funcs if n.get('kind') == 'CXXConstructorDecl' and q.startswith(R + '::') and len(params_of(n)) == 1 and 'char *' in n['type']['qualType']]
        if not o: raise ExtractError('constructor not found')
        return o[0]
    out.append(Contract(ch + ' constructor', func=ctor, setup=s_new, ensures=e_open, **X))
    def s_get(cx): return obj(cx), []
    def e_data(cx, r): o = cx.load(cx.data['this']); p = o.f['_data']; r = cx.ex.val(r); cx.oblige('data() is the mapping', z3.BoolVal(type(r) == type(p) and (isinstance(p, Null) or same_lv(r.lv, p.lv)))); check_inv(cx)
    def e_size(cx, r): cx.oblige('size() is the number of characters', Z(cx.ex.val(r)) == Z(cx.load(cx.data['this']).f['_size'])); check_inv(cx)
    out.append(Contract(ch + ' data', func=ff('data', 0), setup=s_get, ensures=e_data, **X)); out.append(Contract(ch + ' size', func=ff('size', 0), setup=s_get, ensures=e_size, **X))
    return out
cs = make('char', 1) + make('wchar_t', 4) + make('char32_t', 4)
GROUPS = [dict(driver=DRIVER, contracts=cs)]
LEVEL = 'proof'
SEARCH = ['L27.cpp']
BUDGET = 6
RULE = 'random sequences of construct, open, close, reopen and destroy over files of sizes around page boundaries, empty and missing files and a directory, for three character types: bytes, size, open handles and live mappings compared; non-trivial: at least two opens'
ASSUMPTIONS = ['POSIX open/fstat/mmap/munmap/close behave as documented (a zero-length mmap fails; a successful mmap shows the bytes of the file)', 'the Windows branch is not compiled here and not covered', 'the file does not change between fstat and mmap']
