"""helpers shared by the property files"""
import z3
from vc.exec import *
from vc.sym import *
from vc.front import params_of, ExtractError
k, j = z3.Ints('k j')
def norm(n): return n['type'].get('desugaredQualType', n['type']['qualType'])
def finder(qual, npar=None, pred=None):
    def f(u):
        o = [n for q, n in u.funcs if q == qual and (npar is None or len(params_of(n)) == npar) and (pred is None or pred(n))]
        if not o: raise ExtractError('%s not found' % qual)
        return o[0]
    return f
def sig(*subs): return lambda n: all(s in n['type']['qualType'] for s in subs)
def B(cx, r): return Z(cx.ex.tobool(r))
def fall(lo, hi, body, trig=None):
    """forall k in [lo,hi): body(k)"""
    q = z3.Int('k'); b = body(q)
    return z3.ForAll([q], z3.Implies(z3.And(Z(lo) <= q, q < Z(hi)), b), patterns=trig(q)) if trig else z3.ForAll([q], z3.Implies(z3.And(Z(lo) <= q, q < Z(hi)), b))
def same_lv(a, b): return isinstance(a, LV) and isinstance(b, LV) and str(a) == str(b)
