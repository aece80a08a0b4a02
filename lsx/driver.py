"""Runs the harnesses of one property: builds, explores, replays, validates, writes the evidence file."""
import os, sys, time, json, re, subprocess, hashlib, traceback, random
from concurrent.futures import ThreadPoolExecutor
from . import build as B_, run as R_, explore as X_
ROOT = B_.ROOT
NPROC = int(os.environ.get('VERIF_NPROC', '8'))

class Run:
    """one harness with one or more parameter tuples.
    tier: 'q' (quick and thorough) or 't' (thorough only)
    reach: ids every parameter tuple must reach on some path (vacuity guard); reach_any: over all tuples of this run
    optional: an undecided result is reported in the evidence and claims nothing; otherwise it is an error of the check"""
    def __init__(self, bin_, fn, params=((),), tier='q', reach=(1,), reach_any=(), what='', budget=None, optional=False, features='', **cfg):
        self.bin = bin_; self.fn = fn; self.params = [tuple(p) for p in params]; self.tier = tier
        self.reach = set(reach); self.reach_any = set(reach_any); self.what = what; self.budget = budget
        self.optional = optional; self.features = features; self.cfg = cfg

def say(*a):
    print(*a, flush=True)

def case_text(run, params, values, known=()):
    o = ['# %s %s %s' % (run.bin, run.fn, run.features)]
    o += ['p %d %d' % (i, p) for i, p in enumerate(params)]
    o += ['k %d' % k for k in known]
    o += ['v %d' % v for v in values]
    return '\n'.join(o) + '\n'

def native(exe, fn, text, timeout=20):
    """(outcome, detail, reach, notes) of one concrete run of the real code"""
    try:
        p = subprocess.run([exe, fn], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env={'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0'})
    except subprocess.TimeoutExpired:
        return ('timeout', 'no result within %ds' % timeout, {}, [])
    reach = {}; notes = []; last = ''
    for l in p.stdout.decode('utf-8', 'replace').split('\n'):
        w = l.split()
        if not w: continue
        if w[0] == 'REACH' and len(w) == 2: reach[int(w[1])] = reach.get(int(w[1]), 0) + 1
        elif w[0] == 'NOTE' and len(w) == 3: notes.append((int(w[1]), int(w[2])))
        elif w[0] in ('OK', 'ASSERT', 'ASSUME', 'NOVALUE', 'RANGE', 'NOHARNESS'): last = l.strip()
    if p.returncode == 0 and last == 'OK': return ('ok', '', reach, notes)
    if p.returncode == 3 and last.startswith('ASSERT'): return ('assert', last, reach, notes)
    if p.returncode == 4: return ('assume', last, reach, notes)
    if p.returncode in (5, 6): return ('badcase', last, reach, notes)
    err = p.stderr.decode('utf-8', 'replace').strip()[:600]
    if p.returncode == 101: return ('panic', err, reach, notes)
    return ('crash', 'exit %d %s' % (p.returncode, err), reach, notes)

def functions_of(mod, cov):
    """source functions with executed blocks -> number of distinct source locations executed symbolically"""
    out = {}
    seen = set()
    for fn, dbg in cov:
        for d in dbg:
            seen.add(d)
    scope_cache = {}
    def scope(k):
        r = scope_cache.get(k)
        if r is not None: return r
        l = mod.metaline(k) or ''
        if 'DISubprogram(' in l:
            n = re.search(r'name: "([^"]*)"', l); ln = re.search(r'linkageName: "([^"]*)"', l); f = re.search(r'file: !(\d+)', l)
            fl = mod.metaline(f.group(1)) if f else ''
            fm = re.search(r'filename: "([^"]*)"', fl or '')
            dm = re.search(r'directory: "([^"]*)"', fl or '')
            r = (n.group(1) if n else '?', ((dm.group(1) + '/') if dm and not (fm and fm.group(1).startswith('/')) else '') + (fm.group(1) if fm else ''))
        else:
            m = re.search(r'scope: !(\d+)', l)
            r = scope(m.group(1)) if m else ('?', '')
        scope_cache[k] = r
        return r
    for d in seen:
        k = d
        n = 0
        while k and n < 40:
            l = mod.metaline(k) or ''
            m = re.search(r'scope: !(\d+)', l)
            if not m: break
            name, f = scope(m.group(1))
            if '/repo/workspace' in f:
                key = f.split('/repo/workspace/')[-1] + '::' + name
                ln = re.search(r'line: (\d+)', l)
                out.setdefault(key, set()).add(ln.group(1) if ln else '0')
            m = re.search(r'inlinedAt: !(\d+)', l)
            k = m.group(1) if m else None
            n += 1
    return {k: len(v) for k, v in sorted(out.items())}

def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    try:
        l = json.load(open(p))
    except FileNotFoundError:
        return []
    return [x for x in l.get('findings', []) if x['property'] == pid]

class Check:
    def __init__(self, pid, spec, tier, seed):
        self.pid = pid; self.spec = spec; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.rng = random.Random(seed)
        self.violations = []; self.errors = []; self.undecided = []
        self.rows = []; self.samples = []
        self.tot = dict(paths=0, decisions=0, queries=0, solver_s=0.0, asserts=0, assert_q=0, validated=0, instrs=0, replayed=0)
        self.functions = {}
        self.stubs = set()
        self.native = {}
        self.known = known_findings(pid)

    def left(self):
        lim = 840 if self.tier == 'quick' else 6 * 3600
        return lim - (time.time() - self.t0)

    def build(self, runs):
        bins = sorted({(r.bin, r.features) for r in runs})
        self.ir = {}
        ex = ThreadPoolExecutor(8)
        jobs = {}
        for b, f in bins:
            jobs[('ir', b, f)] = ex.submit(B_.build_ir, b, f)
        def nat(b, f):
            return (B_.build_native(b, 'dev', f), B_.build_native(b, 'user', f))
        for b, f in bins:
            jobs[('nat', b, f)] = ex.submit(nat, b, f)
        self.natjobs = {(b, f): jobs[('nat', b, f)] for b, f in bins}
        for b, f in bins:
            self.ir[(b, f)] = jobs[('ir', b, f)].result()

    def exe(self, run):
        k = (run.bin, run.features)
        if k not in self.native:
            self.native[k] = self.natjobs[k].result()
        return self.native[k]

    def go(self):
        runs = [r for r in self.spec['runs'] if r.tier == 'q' or self.tier == 'thorough']
        try:
            self.build(runs)
        except RuntimeError as e:
            self.errors.append('build: ' + str(e))
            return self.finish()
        say('%s: built in %.1fs' % (self.pid, time.time() - self.t0))
        self.report_known(runs)
        self.active = {k['known'] for k in self.known}
        cur = None
        for r in sorted(runs, key=lambda r: (r.bin, r.features)):
            if cur is None or cur[0] != (r.bin, r.features):
                cur = ((r.bin, r.features), R_.Engine(self.ir[(r.bin, r.features)]))
            E = cur[1]
            reached_any = set()
            incomplete = False
            for p in r.params:
                if self.violations and len(self.violations) >= 3: break
                bud = r.budget or (240 if self.tier == 'quick' else 1800)
                bud = min(bud, self.left() - 20)
                if bud < 5:
                    (self.undecided if r.optional else self.errors).append('%s%r: no time left' % (r.fn, p)); incomplete = True
                    continue
                cfg = {'params': dict(enumerate(p)), 'timeout': 10, 'hard_timeout': 60, 'known': self.active, 'slice': 0.25, 'seed': self.seed}
                cfg.update(r.cfg)
                try:
                    res = X_.explore(E, r.fn, cfg, nproc=NPROC, budget=bud, log=say)
                except Exception:
                    self.errors.append('%s%r: engine: %s' % (r.fn, p, traceback.format_exc()[-1500:])); incomplete = True
                    continue
                self.account(E, r, p, res)
                reached_any |= set(res.reached)
                if not res.complete: incomplete = True
            if r.reach_any - reached_any and not self.violations and not incomplete:
                self.errors.append('%s: vacuous: %r never reached' % (r.fn, sorted(r.reach_any - reached_any)))
        return self.finish()

    def report_known(self, runs):
        self.kf = 0
        for k in self.known:
            for r in runs:
                if r.bin == k['bin'] and r.fn == k['harness']:
                    dev, user = self.exe(r)
                    txt = case_text(r, k.get('params', []), k['values'])
                    o = native(dev, r.fn, txt); u = native(user, r.fn, txt)
                    if o[0] in ('assert', 'panic', 'crash', 'timeout') or u[0] in ('assert', 'panic', 'crash', 'timeout'):
                        say('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                        self.kf += 1
                    break

    def account(self, E, r, p, res):
        row = {'harness': r.fn, 'bin': r.bin, 'params': list(p), 'what': r.what, 'complete': bool(res.complete), 'paths': res.paths, 'ended_ok': res.ok,
               'panics': res.panics, 'assumed_out': res.assumed_out, 'branch_decisions': res.decisions, 'instructions': res.instrs, 'assertions': res.asserts,
               'assertion_queries': res.assert_q, 'queries': res.stats.get('queries', 0), 'solver_s': round(res.stats.get('solver_s', 0.0), 2),
               'backends': res.stats.get('by', {}), 'wall_s': round(res.wall, 2), 'reached': {str(k): v for k, v in sorted(res.reached.items())}}
        self.rows.append(row)
        t = self.tot
        t['paths'] += res.paths; t['decisions'] += res.decisions; t['queries'] += res.stats.get('queries', 0); t['solver_s'] += res.stats.get('solver_s', 0.0)
        t['asserts'] += res.asserts; t['assert_q'] += res.assert_q; t['instrs'] += res.instrs
        self.stubs |= set(str(x) for x in res.stubs)
        for k, v in functions_of(E.mod, res.cov).items():
            self.functions[k] = max(self.functions.get(k, 0), v)
        say('%s: %s%r paths=%d ok=%d decisions=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs%s' % (
            self.pid, r.fn, p, res.paths, res.ok, res.decisions, res.asserts, row['queries'], row['solver_s'], res.wall,
            '' if res.complete else ' INCOMPLETE'))
        # counterexamples: replay against the real code
        dev, user = self.exe(r)
        unrepro = 0
        for f in res.fails[:6]:
            txt = case_text(r, p, f['values'], self.active)
            o = native(dev, r.fn, txt); u = native(user, r.fn, txt)
            t['replayed'] += 1
            bad = ('assert', 'panic', 'crash', 'timeout')
            if o[0] in bad or u[0] in bad:
                self.violate(r, p, f, txt, o, u)
            else:
                unrepro += 1
                self.errors.append('%s%r: counterexample did not reproduce: %r dev=%r user=%r' % (r.fn, p, f, o[:2], u[:2]))
        if res.inconclusive or not res.complete:
            if not res.fails:
                m = '%s%r: undecided: %s' % (r.fn, p, '; '.join(str(x)[:400] for x in res.inconclusive[:4]))
                (self.undecided if r.optional else self.errors).append(m)
        elif not res.fails:
            miss = r.reach - set(res.reached)
            if miss:
                self.errors.append('%s%r: vacuous: %r never reached' % (r.fn, p, sorted(miss)))
        # validation: the same inputs through the real code must behave as the symbolic path said
        ss = list(res.samples)
        self.rng.shuffle(ss)
        nv = 12 if self.tier == 'quick' else 40
        for s in ss[:nv]:
            txt = case_text(r, p, s['values'], self.active)
            for exe in (dev, user):
                o = native(exe, r.fn, txt)
                want_notes = [(i, v & R_.M64) for i, v in s['notes']]
                if o[0] != 'ok' or o[2] != s['reach'] or o[3] != want_notes:
                    bad = ('assert', 'panic', 'crash', 'timeout')
                    if o[0] in bad:
                        self.violate(r, p, {'kind': 'native', 'id': -1, 'values': s['values']}, txt, o, o)
                    else:
                        self.errors.append('%s%r: encoding mismatch on %r: native %r, symbolic %r %r' % (r.fn, p, s['values'], o, s['reach'], want_notes))
                    break
            else:
                t['validated'] += 1
        if ss and len(self.samples) < 12:
            s = ss[0]
            self.samples.append({'harness': r.fn, 'params': list(p), 'inputs': s['values'][:40], 'outcome': s['outcome'], 'reached': {str(k): v for k, v in s['reach'].items()}})

    def violate(self, r, p, f, txt, o, u):
        d = os.path.join(B_.WORK, 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(txt.encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s-%s.case' % (self.pid, r.fn, h))
        if any(v['replay'] == path for v in self.violations): return
        with open(path, 'w') as g:
            g.write('# property %s; replay: python3-vt /verif/check.py --replay %s\n# dev build: %s %s\n# user build: %s %s\n' % (
                self.pid, path, o[0], o[1].replace('\n', ' | '), u[0], u[1].replace('\n', ' | ')))
            g.write(txt)
        self.violations.append({'harness': r.fn, 'params': list(p), 'kind': f['kind'], 'id': f.get('id'), 'replay': path, 'dev': o[:2], 'user': u[:2]})
        say('VIOLATION property=%s replay=%s' % (self.pid, path))
        say('  %s%r values=%r dev=%r user=%r' % (r.fn, p, f['values'][:24], o[:2], u[:2]))

    def finish(self):
        t = self.tot
        wall = time.time() - self.t0
        if not self.violations and not self.errors and not t['validated']:
            self.errors.append('no path was validated against the real code')
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': t['paths'], 'transitions': t['decisions'], 'traces_validated_against_impl': t['validated'],
                           'samples': self.samples, 'exhaustive': not self.errors and not self.violations and not self.undecided,
                           'method': 'symbolic execution of the optimised LLVM IR that rustc emits from /repo (overflow checks on); every feasible path of each harness; '
                                     'states = symbolic paths, transitions = branch decisions put to the solver or settled by its models',
                           'functions_encoded': self.functions, 'bounds': self.spec['bounds'], 'outside': self.spec['outside'],
                           'instructions_executed': t['instrs'], 'assertions_evaluated': t['asserts'], 'assertion_queries': t['assert_q'],
                           'solver_queries': t['queries'], 'solver_s': round(t['solver_s'], 2), 'counterexamples_replayed': t['replayed'],
                           'runs': self.rows, 'undecided': self.undecided, 'errors': [e[:1000] for e in self.errors],
                           'known_findings': getattr(self, 'kf', 0)},
              'assumptions': self.spec.get('assumptions', []) + ['stubs: ' + ', '.join(sorted(self.stubs)) if self.stubs else 'no function stubbed'],
              'wall_s': round(wall, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for u in self.undecided: say('UNDECIDED (not claimed): ' + u)
        for e in self.errors: say('ERROR: ' + e)
        code = 1 if self.violations else 2 if self.errors else 0
        say('%s: %s; %d paths, %d queries, %.1fs solver, %d validated, %.1fs' % (
            self.pid, {0: 'holds within the bounds', 1: 'VIOLATED', 2: 'no verdict'}[code], t['paths'], t['queries'], t['solver_s'], t['validated'], wall))
        return code
