#!/usr/bin/env python3
"""Property runner: extraction -> VC generation -> discharge -> replay/bounded search -> evidence."""
import sys, os, json, time, importlib, subprocess, pickle, hashlib, multiprocessing as mp, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
import z3
from vc.front import *
from vc.sym import *
from vc.exec import *
from vc.stl import Std
from vc import solve

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
EVID = os.path.join(ROOT, 'evidence')

class Search:
    """bounded stand-in + replay searcher: C++ harness over the real headers, executable
    specification as oracle."""
    def __init__(self, pid, srcs, budget, flags=()):
        self.pid = pid; self.srcs = srcs; self.budget = budget; self.flags = list(flags)
        self.fails = []; self.stats = {}; self.err = None; self.samples = []; self.out = ''
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    # a child process, not a thread: the solver pools fork
    def start(self):
        self.res = self.tmp + '.res'; self.proc = mp.get_context('fork').Process(target=self.child); self.proc.start()
    def child(self):
        try: self._run()
        except Exception as e: self.err = 'search: %r' % e
        finally: shutil.rmtree(self.tmp, ignore_errors=True)
        with open(self.res + '~', 'wb') as f: pickle.dump((self.fails, self.stats, self.err, self.samples), f)
        os.rename(self.res + '~', self.res)
    def join(self):
        self.proc.join(self.budget * 3 + 300)
        if self.proc.is_alive(): self.proc.kill(); self.proc.join()
        try:
            with open(self.res, 'rb') as f: self.fails, self.stats, self.err, self.samples = pickle.load(f)
            os.unlink(self.res)
        except OSError: self.err = 'search ended without a result'
        shutil.rmtree(self.tmp, ignore_errors=True)
    def _run(self):
        t0 = time.time()
        procs = []
        for i, s in enumerate(self.srcs):
            exe = os.path.join(self.tmp, 's%d' % i)
            cmd = ['/usr/bin/clang++', '-std=c++17', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-fno-sanitize=unsigned-integer-overflow',
                   '-I' + REPO + '/include', '-I' + os.path.join(ROOT, 'search'), *self.flags, s, '-o', exe]
            procs.append((s, exe, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        exes = []
        for s, exe, cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode: self.err = 'harness %s does not compile: %s' % (os.path.basename(s), o[-1500:]); continue
            exes.append((s, exe))
        self.compile_s = time.time() - t0
        run = []
        shards = max(1, 4 // max(1, len(exes)))
        for s, exe in exes:
            for sh in range(shards):
                env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=99:print_stacktrace=1')
                run.append((s, subprocess.Popen([exe, str(SEED * 1000 + sh), str(self.budget), TIER, str(sh), str(shards)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=self.tmp, errors='replace')))
        for s, p in run:
            try: o, _ = p.communicate(timeout=self.budget * 3 + 120)
            except subprocess.TimeoutExpired:
                p.kill(); o, _ = p.communicate(); self.err = 'search timed out in ' + os.path.basename(s)
                last = [l for l in o.split('\n') if l.startswith('CASE ')]
                continue
            self.out += o
            sawstats = False; lastcase = ''
            for l in o.split('\n'):
                if l.startswith('STAT '):
                    sawstats = True
                    for kv in l[5:].split():
                        k, v = kv.split('='); self.stats[k] = self.stats.get(k, 0) + int(v)
                elif l.startswith('FAIL '):
                    self.fails.append((os.path.basename(s), l[5:]))
                elif l.startswith('SAMPLE '):
                    if len(self.samples) < 12: self.samples.append(l[7:])
                elif l.startswith('CASE '): lastcase = l[5:]
            if p.returncode not in (0, 1) or (not sawstats and not [1 for f in self.fails if f[0] == os.path.basename(s)]):
                # crash inside the library code (assertion, sanitizer)
                tail = [l for l in o.split('\n') if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'SUMMARY' in l]
                cur = os.path.join(self.tmp, 'current-%d' % p.pid)
                case = open(cur, errors='replace').read().split('\0')[0] if os.path.exists(cur) else lastcase
                self.fails.append((os.path.basename(s), 'key=crash case=%s rc=%s %s' % (case.strip(), p.returncode, ' | '.join(tail[:4]))))

def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l[len('known: property=%s ' % pid):]
                key, _, desc = rest.partition(' ')
                out.append((key.replace('key=', ''), desc))
    return out

def gen(job):
    """generate the obligations of one contract (runs in a worker process)"""
    pid, i = job; unit, c = TODO[i]
    R = {'structural': [], 'covers_n': 0, 'covers_bad': [], 'covers_unk': 0}
    structural = R['structural']
    parse_type.__globals__['_cache'].clear()
    ts = time.time()
    ex = c.exec_class(unit, c) if getattr(c, 'exec_class', None) else Std(unit, c)
    base = os.path.join(ROOT, 'props', 'locals', '%s.%s.json' % (pid, c.name.replace('/', '_').replace(' ', '_')))
    if os.path.exists(base) and not os.environ.get('VP_REBASE'): c.locals = [tuple(x) for x in json.load(open(base))]
    try:
        ex.explore()
    except (ExtractError, Mismatch) as e:
        structural.append('%s: %s (at %s)' % (c.name, e, ex.curloc()))
        if os.environ.get('VP_TRACE'): traceback.print_exc(limit=-6)
        return R
    except RecursionError as e:
        structural.append('%s: recursion' % c.name); return R
    except (z3.Z3Exception, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        # the code no longer has a shape this contract can be applied to
        structural.append('%s: %s: %s (at %s)' % (c.name, type(e).__name__, e, ex.curloc()))
        if os.environ.get('VP_TRACE'): traceback.print_exc(limit=-6)
        return R
    if os.environ.get('VP_REBASE') and ex.decls:
        os.makedirs(os.path.dirname(base), exist_ok=True); json.dump(ex.decls, open(base, 'w'))
    # vacuity guards
    if not ex.obls: structural.append('%s: no obligations generated (vacuous)' % c.name); return R
    byname = {}
    for nm, hy in ex.covers:
        R['covers_n'] += 1
        byname.setdefault(nm, []).append(hy)
    for nm, hs in byname.items():
        # vacuous only when every path to this point has contradictory hypotheses
        res = []
        for hy in sorted(hs, key=len)[:12]:
            res.append(solve.satisfiable(hy, 2))
            if res[-1] != 'no': break
        if all(r == 'no' for r in res) and len(res) == len(hs): R['covers_bad'].append('%s: %s' % (c.name, nm))
        elif res[-1] == 'unknown': R['covers_unk'] += 1
    if ex.exits['return'] + ex.exits['throw'] == 0: structural.append('%s: no exit reached (vacuous)' % c.name); return R
    R['obls'] = [solve.prepare(o) for o in ex.obls]
    R['assumptions'] = ex.assumptions; R['inlined'] = ex.inlined; R['called'] = ex.contracted_calls
    R['func'] = {'function': c.name, 'paths': ex.npaths, 'loops_cut': len(ex.loops_seen), 'obligations': len(ex.obls), 'vcgen_s': round(time.time() - ts, 2)}
    return R

TODO = []
def main(pid):
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    budget = getattr(mod, 'BUDGET', 8) if TIER == 'quick' else getattr(mod, 'BUDGET_THOROUGH', 120)
    if os.environ.get('VP_BUDGET'): budget = int(os.environ['VP_BUDGET'])
    srcs = [os.path.join(ROOT, 'search', s) for s in getattr(mod, 'SEARCH', [])]
    srch = None
    if srcs and not os.environ.get('VP_NOSEARCH'):
        srch = Search(pid, srcs, budget, getattr(mod, 'SEARCH_FLAGS', ())); srch.start()
    funcs = []; structural = []; obls = []; trusted = set(getattr(mod, 'TRUSTED', [])); inl = set(); called = set(); cmds = []
    vac = []; covers_n = 0; covers_bad = []; covers_unk = 0
    solver_t = 0.0
    units = {}; todo = []
    for grp in ([] if os.environ.get('VP_NOPROOF') else mod.GROUPS):
        try:
            key = grp['driver']
            if key not in units:
                d = tempfile.mkdtemp(prefix='vp-drv-')
                p = os.path.join(d, 'driver.cpp'); open(p, 'w').write(key)
                try: units[key] = Unit(p, grp.get('filter', 'lexertl'))
                finally: shutil.rmtree(d, ignore_errors=True)
                cmds.append(units[key].cmd)
            unit = units[key]
        except ExtractError as e:
            structural.append('extraction: %s' % e); continue
        for c in grp['contracts']:
            if os.environ.get('VP_ONLY') and os.environ['VP_ONLY'] not in c.name: continue
            todo.append((unit, c))
    global TODO
    TODO = todo
    jobs = [(pid, i) for i in range(len(todo))]
    if len(jobs) > 1:
        results = solve.pmap(gen, jobs, 8, 400)
        results = [r or {'structural': ['%s: obligation generation did not finish' % todo[i][1].name], 'covers_n': 0, 'covers_bad': [], 'covers_unk': 0} for i, r in enumerate(results)]
    else: results = [gen(j) for j in jobs]
    for r in results:
        structural += r['structural']; covers_n += r['covers_n']; covers_bad += r['covers_bad']; covers_unk += r['covers_unk']
        if r.get('func'):
            obls += r['obls']; trusted |= r['assumptions']; inl |= r['inlined']; called |= r['called']; funcs.append(r['func'])
            if os.environ.get('VP_V'): print('  vcgen %-50s paths=%d obl=%d %.1fs' % (r['func']['function'], r['func']['paths'], r['func']['obligations'], r['func']['vcgen_s']), flush=True)
    ts = time.time()
    solve.discharge(obls)
    solve_wall = time.time() - ts
    bad = [o for o in obls if o.status != 'proved']
    backends = {}
    for o in obls: backends[o.backend or '?'] = backends.get(o.backend or '?', 0) + 1; solver_t += o.time
    if os.environ.get('VP_V'):
        if os.environ['VP_V'] == '2':
            for o in obls: print('   OBL %s [%s] %s: %s path=%s' % (o.status, o.backend, o.fn, o.name, ''.join('T' if b else 'F' for b in o.path)))
        slow = sorted(obls, key=lambda o: -o.time)[:8]
        for o in slow: print('   slow %.1fs %s %s: %s' % (o.time, o.status, o.fn, o.name))
        for o in bad: print('   NOT PROVED [%s] %s: %s (%s) path=%s' % (o.status, o.fn, o.name, o.loc, ''.join('T' if b else 'F' for b in o.path)))
        for s in structural: print('   STRUCTURAL', s)
        for s in covers_bad: print('   VACUOUS', s)
        if os.environ.get('VP_DUMP'):
            for i, o in enumerate(bad):
                open('/tmp/w/bad%d.smt2' % i, 'w').write(o.txt or '')
    if srch: srch.join()
    # ---------------- verdict
    known = known_findings(pid); viol = []; known_hit = []
    if srch:
        for src, f in srch.fails:
            key = f.split()[0].replace('key=', '') if f.startswith('key=') else ''
            hit = [k for k in known if k[0] == key]
            if hit:
                if hit[0] not in known_hit: known_hit.append(hit[0])
            else: viol.append((src, f))
    nf = len(bad); lines = []; rc = 0
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, 'replay-%s.txt' % pid)
    if os.path.exists(replay): os.remove(replay)
    for k, d in known: lines.append('KNOWN-FINDING: property=%s %s' % (pid, d))
    proof_failed = bool(bad) and not structural
    if viol or covers_bad and False:
        with open(replay, 'w') as f:
            f.write('property %s is violated on the current tree of %s\n' % (pid, REPO))
            for src, x in viol[:50]: f.write('concrete failing input (harness search/%s, run against the real headers):\n  %s\n' % (src, x))
            f.write('\nundischarged obligations: %d\n' % nf)
            for o in bad[:40]: f.write('  [%s] %s :: %s (%s)\n' % (o.status, o.fn, o.name, o.loc)); f.write('     model: %s\n' % (o.model or '-')) if o.model else None
            for s in structural: f.write('contract does not fit the code any more: %s\n' % s)
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay)); rc = 1
    elif bad and (not structural):
        with open(replay, 'w') as f:
            f.write('property %s: %d of %d proof obligations generated from the current tree are no longer discharged; the searcher found no failing input\n' % (pid, nf, len(obls)))
            for o in bad[:60]:
                f.write('FAILED OBLIGATION [%s] function=%s obligation=%s at %s backend=%s\n' % (o.status, o.fn, o.name, o.loc, o.backend))
                if o.model: f.write('  solver output: %s\n' % o.model)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)); rc = 1
    proved = not bad and not structural and bool(obls)
    if proved and covers_bad:
        structural += ['vacuous: ' + x for x in covers_bad]; proved = False
    st = srch.stats if srch else {}
    cov = {'obligations': len(obls), 'discharged': len(obls) - nf, 'checker_cmd': 'python3-vt -m vc.run %s  (clang AST of /repo -> VCs -> z3, cvc5)' % pid,
           'trusted_base': ['clang 18 AST of the real headers', 'vc/ verification-condition generator', 'z3 ' + z3.get_version_string() + ' and cvc5 1.1.2'] + sorted(trusted),
           'functions_under_contract': funcs, 'functions_inlined': sorted(inl), 'functions_used_by_contract': sorted(called),
           'backends': backends, 'solver_time_s': round(solver_t, 2), 'solve_wall_s': round(solve_wall, 2),
           'reachability_guards': covers_n, 'reachability_unknown': covers_unk, 'vacuous': covers_bad,
           'not_provable_on_this_tree': structural,
           'undischarged': ['[%s] %s: %s' % (o.status, o.fn, o.name) for o in bad[:40]],
           'bounded_stand_in': getattr(mod, 'BOUNDED', ''),
           'evaluations': st.get('evaluations', 0), 'distinct_nontrivial': st.get('distinct', 0),
           'rule': getattr(mod, 'RULE', ''), 'samples': srch.samples if srch else [], 'search_error': (srch.err if srch else None),
           'extraction_cmd': cmds}
    level = mod.LEVEL if proved or not mod.GROUPS else 'exploration'
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + (['UNPROVED on this tree, only the bounded search ran: ' + '; '.join(structural)] if structural else []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + (1 if rc and not viol else 0)}
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s: %d/%d obligations discharged over %d functions (%s), solver %.1fs; search %s evaluations; structural=%d; wall %.1fs' % (
        pid, len(obls) - nf, len(obls), len(funcs), ', '.join('%s:%d' % x for x in sorted(backends.items())), solver_t, st.get('evaluations', 0), len(structural), time.time() - t0))
    for s in structural: print('  note: ' + s)
    if srch and srch.err:
        print('  note: ' + srch.err)
    # nothing decided anything: that is an error of the check, not a pass
    if rc == 0 and not proved and (srch is None or srch.err or st.get('evaluations', 0) == 0): 
        print('ERROR: neither proof nor search produced an answer'); return 2
    return rc

if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
