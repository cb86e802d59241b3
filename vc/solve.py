"""Discharges obligations: z3 first, cvc5 second, in a process pool."""
import os, subprocess, time, tempfile, multiprocessing as mp, z3

CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'

def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()

def run_z3(txt, timeout, mbqi, seed=0, **opts):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', int(timeout * 1000))
    if not mbqi:
        s.set('auto_config', False); s.set('smt.mbqi', False)
    s.set('random_seed', seed)
    for k, v in opts.items(): s.set(k.replace('__', '.'), v)
    s.from_string(txt)
    t = time.time()
    try:
        r = s.check()
        rs = str(r); m = None
        if r == z3.sat:
            try: m = str(s.model())[:4000]
            except Exception: m = None
        why = s.reason_unknown() if r == z3.unknown else ''
    except z3.Z3Exception as e:
        rs, m, why = 'unknown', None, str(e)
    return rs, m, time.time() - t, why

def run_cvc5(txt, timeout):
    t = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--quiet', p], capture_output=True, text=True, timeout=timeout + 10)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired: out = 'unknown'
    finally: os.unlink(p)
    if out not in ('sat', 'unsat'): out = 'unknown'
    return out, time.time() - t

NFAIL = mp.Value('i', 0)
def work(job):
    idx, txt, timeout, quant = job
    if NFAIL.value >= 10: timeout = min(timeout, 6)       # enough has failed for a verdict: do not spend minutes on each further failure
    if NFAIL.value >= 40: timeout = min(timeout, 3)
    r = work1(idx, txt, timeout, quant)
    if r[1] != 'proved':
        with NFAIL.get_lock(): NFAIL.value += 1
    return r

def work1(idx, txt, timeout, quant):
    tot = 0
    Z = 'z3 ' + z3.get_version_string()
    rs, m, t, why = run_z3(txt, min(timeout, 2 if quant else 5), not quant); tot += t
    if rs == 'unsat': return idx, 'proved', Z, tot, None
    if rs == 'sat' and not quant: return idx, 'refuted', Z, tot, m
    if quant:
        for o in ({'smt__arith__solver': 2}, {'smt__case_split': 3}):
            rs, m, t, why = run_z3(txt, min(timeout, 4), False, 1, **o); tot += t
            if rs == 'unsat': return idx, 'proved', Z, tot, None
    out, t = run_cvc5(txt, timeout); tot += t
    if out == 'unsat': return idx, 'proved', 'cvc5 1.1.2', tot, None
    rs2, m2, t, why = run_z3(txt, timeout, False, 7); tot += t
    if rs2 == 'unsat': return idx, 'proved', 'z3 ' + z3.get_version_string(), tot, None
    if NFAIL.value >= 10: return idx, 'unknown', 'z3+cvc5', tot, why
    rs3, m3, t, why = run_z3(txt, timeout, True); tot += t
    if rs3 == 'unsat': return idx, 'proved', 'z3 ' + z3.get_version_string(), tot, None
    if rs3 == 'sat': return idx, 'refuted', 'z3 ' + z3.get_version_string(), tot, m3
    return idx, 'unknown', 'z3+cvc5', tot, why

def prepare(o):
    """serialise an obligation (in the process that generated it)"""
    from .exec import has_quant
    g = z3.simplify(o.goal)
    if z3.is_true(g):
        o.status = 'proved'; o.backend = 'simplifier'; o.txt = None; o.quant = False
    else:
        o.quant = any(has_quant(h) for h in o.hyps) or has_quant(o.goal)
        o.txt = to_smt2(o.hyps, o.goal)
    o.hyps = None; o.goal = None
    return o

def _ij(a): fn, i, j = a; return i, fn(j)
def pmap(fn, jobs, procs, stall):
    """results in order; a pool that makes no progress for `stall` seconds (a worker died or hangs) is replaced once, what still has no result is None"""
    res = [None] * len(jobs); todo = list(range(len(jobs)))
    for _ in range(2):
        if not todo: break
        pool = mp.get_context('fork').Pool(min(procs, len(todo)))
        try:
            it = pool.imap_unordered(_ij, [(fn, i, jobs[i]) for i in todo], chunksize=1)
            for _ in range(len(todo)): i, r = it.next(timeout=stall); res[i] = r
        except mp.TimeoutError: pass
        finally: pool.terminate(); pool.join()
        todo = [i for i in todo if res[i] is None]
    return res

def discharge(obls, procs=8, deadline=None, quick=False):
    jobs = []; seen = {}; dup = []
    for i, o in enumerate(obls):
        if o.status == 'proved': continue
        if o.txt in seen: dup.append((o, obls[seen[o.txt]])); continue
        seen[o.txt] = i
        jobs.append((i, o.txt, o.timeout if not quick else 5, o.quant))
    if jobs:
        for r in pmap(work, jobs, procs, 240):
            if r: idx, st, be, t, m = r; o = obls[idx]; o.status, o.backend, o.time, o.model = st, be, t, m
    for o, p in dup: o.status, o.backend, o.time, o.model = p.status, p.backend, 0, p.model
    return obls

def satisfiable(hyps, timeout=5):
    """reachability guard: 'no' only when the hypotheses are contradictory"""
    s = z3.Solver(); s.set('timeout', int(timeout * 1000))
    for h in hyps: s.add(h)
    r = s.check()
    return {'unsat': 'no', 'sat': 'yes'}.get(str(r), 'unknown')
