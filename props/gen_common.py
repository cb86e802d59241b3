"""shared by the properties of generator::build and its parts"""
import re
from .common import *
from vc.exec import ThrowEx
DRIVER = r'''
#include <lexertl/generator.hpp>
using namespace lexertl;
template<class G, class R, class S> void f(const R& r, S& s) { G::build(r, s); }
using r8 = basic_rules<char, char, std::uint8_t>; using s8 = basic_state_machine<char, std::uint8_t>;
template void f<generator, rules, state_machine>(const rules&, state_machine&);
template void f<char_generator, rules, char_state_machine>(const rules&, char_state_machine&);
using r32 = basic_rules<char, char32_t>; template void f<basic_generator<r32, u32state_machine>, r32, u32state_machine>(const r32&, u32state_machine&);
template void f<basic_generator<r8, s8>, r8, s8>(const r8&, s8&);
'''
I, Bo = z3.IntSort(), z3.BoolSort(); ARR = z3.ArraySort(I, I); SEL = z3.Select
# instance: the generator's machine and rules as clang spells them (ids of 16 bits may or may not be spelled out)
U16 = '(, unsigned short)?'
INST = {'table, 16 bit ids': ('basic_rules<char, char%s>' % U16, 'basic_state_machine<char%s>' % U16, 16),
        'table, 8 bit ids': ('basic_rules<char, char, unsigned char>', 'basic_state_machine<char, unsigned char>', 8),
        'table, wide characters': ('basic_rules<char, char32_t%s>' % U16, 'basic_state_machine<char32_t%s>' % U16, 16),
        'character machine': ('basic_rules<char, char%s>' % U16, 'basic_char_state_machine<char%s(, (true|-1))?>' % U16, 16)}
def par(node): return str([norm(p) for p in params_of(node)])
def spell(q): return q.replace('std::uint16_t', 'unsigned short').replace('std::uint8_t', 'unsigned char').replace('uint16_t', 'unsigned short').replace('uint8_t', 'unsigned char')
def gfind(inst, name, npar=None, pred=None):
    rx = re.compile('lexertl::basic_generator<lexertl::%s, lexertl::%s,.*>::%s$' % (INST[inst][0], INST[inst][1], name))
    def f(u):
        o = [n for q, n in u.funcs if rx.match(spell(q)) and (npar is None or len(params_of(n)) == npar) and (pred is None or pred(n))]
        if not o: raise ExtractError('generator::%s not found' % name)
        return o[0]
    return f
def mfind(inst, name, npar=None):
    rx = re.compile('lexertl::%s::%s$' % (INST[inst][1], name))
    def f(u):
        o = [n for q, n in u.funcs if rx.match(spell(q)) and (npar is None or len(params_of(n)) == npar)]
        if not o: raise ExtractError('machine::%s not found' % name)
        return o[0]
    return f
def recname(ex, inst, pat):
    """record of the unit whose spelling matches"""
    rx = re.compile(pat)
    for q in list(ex.u.records):
        if rx.match(spell(q)): return q
    raise ExtractError('no record ' + pat)
def same_tree(a, b):
    if isinstance(a, S): return z3.And([same_tree(a.f[x], b.f[x]) for x in a.f] or [z3.BoolVal(True)])
    if isinstance(a, V): return z3.And(Z(a.len) == Z(b.len), same_tree(a.arr, b.arr))
    if isinstance(a, Op): return z3.BoolVal(isinstance(b, Op) and a.tag == b.tag)
    return Z(a) == Z(b)
def sub(name): return lambda q, n: q.endswith('::' + name)
def noop(cx, f, this, args, site): return None
def stream(cx, op, lv, node, e): return lv
def opm(cx, o, name, lv, argn, e):
    if name == 'str': return Op('text')
    raise ExtractError('%s.%s' % (o.tag, name))
