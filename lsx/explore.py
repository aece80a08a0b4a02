"""Explores every feasible path of one harness; several processes, complete unless reported otherwise."""
import os, sys, time, copy, traceback, multiprocessing as mp, random, gc, signal
from . import run as R_, term as T_
from .term import T, ev

sys.setrecursionlimit(20000)

class Result:
    def __init__(self):
        self.paths = 0; self.ok = 0; self.assumed_out = 0; self.panics = 0
        self.forks = 0; self.instrs = 0; self.asserts = 0; self.assert_q = 0
        self.decisions = 0; self.maxdepth = 0
        self.fails = []         # (kind, ident, values, params)
        self.inconclusive = []
        self.reached = {}
        self.samples = []       # (values, outcome)
        self.stats = {}
        self.cov = set()
        self.stubs = set()
        self.wall = 0.0
        self.complete = True
    def merge(self, d):
        for k in ('paths', 'ok', 'assumed_out', 'panics', 'forks', 'instrs', 'asserts', 'assert_q', 'decisions'):
            setattr(self, k, getattr(self, k) + d[k])
        self.maxdepth = max(self.maxdepth, d['maxdepth'])
        self.fails += d['fails']
        for x in d['inconclusive']:
            if len(self.inconclusive) < 50: self.inconclusive.append(x)
        if d['inconclusive']: self.complete = False
        for k, v in d['reached'].items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.samples += d['samples']

def values_of(S, model):
    """input values in call order, as the native sym_* functions will return them (64-bit, extended)"""
    out = []
    for i in range(S.nsym):
        n = T_.SYMS[i]
        v = model.get(i, 0)
        if n.a[3]:
            v = T_.sgn(v, n.w)
        out.append(v)
    return out

def run_path(S, fn, args, prefix, model, cfg):
    S.reset(prefix, model)
    kind, info = 'ok', None
    try:
        fn(*args)
    except R_.PathEnd as e:
        kind, info = e.kind, e.info
    except R_.EngineError as e:
        kind, info = 'engine', str(e)
    except RecursionError:
        kind, info = 'engine', 'recursion'
    return kind, info

def worker(eng, hname, cfg, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    solver = R_.Solver(cfg)
    S = R_.State(eng, solver, cfg)
    fn = eng.compile(hname)
    gc.disable()
    slice_s = cfg.get('slice', 0.4)
    keep = cfg.get('samples_per_slice', 1)
    lastcov = None; lastmap = -1
    while True:
        try:
            item = conn.recv()
        except EOFError:
            return
        if item is None:
            return
        stack = [item]
        d = {k: 0 for k in ('paths', 'ok', 'assumed_out', 'panics', 'forks', 'instrs', 'asserts', 'assert_q', 'decisions', 'maxdepth')}
        d['fails'] = []; d['inconclusive'] = []; d['reached'] = {}; d['samples'] = []
        t0 = time.time()
        try:
            while stack and time.time() - t0 < slice_s:
                prefix, model = stack.pop()
                if len(T_._tab) > cfg.get('term_limit', 600000):
                    T_.reset_terms(); solver.cache.clear(); gc.collect()
                    S.facts = {}
                kind, info = run_path(S, fn, (), prefix, model, cfg)
                if cfg.get('trace'):
                    print('PATH', kind, info, 'dec', len(S.trace), 'n', S.n, 'forks', S.nforks, flush=True)
                d['paths'] += 1
                d['instrs'] += S.n; d['asserts'] += S.asserts; d['assert_q'] += S.assert_q; d['forks'] += S.nforks
                d['decisions'] += len(S.trace) - len(prefix); d['maxdepth'] = max(d['maxdepth'], len(S.trace))
                for k, v in S.reached.items(): d['reached'][k] = d['reached'].get(k, 0) + v
                stack += S.forks
                for x in S.inconclusive: d['inconclusive'].append(x)
                if kind == 'ok':
                    d['ok'] += 1
                    if len(d['samples']) < keep:
                        memo = {}
                        notes = []
                        for i, v in S.notes:
                            notes.append((i, ev(v, S.model, memo) if v.__class__ is T else v))
                        d['samples'].append({'values': values_of(S, S.model), 'outcome': 'ok', 'notes': notes, 'reach': dict(S.reached)})
                elif kind == 'assume':
                    d['assumed_out'] += 1
                elif kind == 'violation':
                    f = S.fails[-1]
                    d['fails'].append({'kind': 'assert', 'id': info, 'values': values_of(S, f[2])})
                elif kind == 'panic':
                    d['panics'] += 1
                    # the panic is reachable: the model satisfies the path condition
                    ok = all(ev(c, S.model, S.memo) for c in S.pc)
                    if not ok:
                        d['inconclusive'].append(('panic-model', str(info)))
                    else:
                        d['fails'].append({'kind': 'panic', 'id': -1, 'info': [str(x)[:200] for x in info], 'values': values_of(S, S.model)})
                elif kind == 'inconclusive':
                    if not S.inconclusive: d['inconclusive'].append((kind, str(info)))
                else:
                    d['inconclusive'].append((kind, str(info)))
                if len(d['fails']) > 20:
                    break
        except Exception as e:
            d['inconclusive'].append(('crash', traceback.format_exc()[-1500:]))
        cov = bytes(eng.C[:len(eng.covmap)])
        conn.send(('part', stack, d, time.time() - t0, {'stats': copy.deepcopy(solver.st.asdict()), 'stubs': list(eng.used_stubs),
                   'cov': cov if cov != lastcov else None, 'covmap': eng.covmap if len(eng.covmap) != lastmap else None}))
        lastcov = cov; lastmap = len(eng.covmap)

def explore(eng, hname, cfg, nproc=8, budget=600, log=None):
    """returns Result"""
    res = Result()
    t0 = time.time()
    eng.compile(hname)
    # warm-up in the parent so that children share compiled code
    ctx = mp.get_context('fork')
    T_.reset_terms()
    if cfg.get('warm', True):
        sv = R_.Solver(dict(cfg, timeout=0.01, hard_timeout=0.01, warm=1))
        class Warm(R_.State):
            pass
        S = R_.State(eng, sv, dict(cfg, path_timeout=20))
        # concrete warm-up: every symbol takes its default value
        S.sym_value = lambda w, lo, hi, signed, S=S: warm_value(S, w, lo, hi, signed)
        try:
            kind, info = run_path(S, eng.compile(hname), (), [], {}, cfg)
        except Exception as e:
            pass
        T_.reset_terms()
    gc.collect(); gc.freeze()
    work = [([], {})]
    procs = []
    conns = []
    for k in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(eng, hname, cfg, b), daemon=True)
        p.start(); b.close()
        procs.append(p); conns.append(a)
    idle = list(range(nproc))
    busy = {}
    last = {}
    stop = False
    maxfails = cfg.get('maxfails', 5)
    lastlog = t0
    try:
        while True:
            while work and idle and not stop:
                k = idle.pop()
                it = work.pop()
                conns[k].send(it)
                busy[k] = time.time()
            if not busy:
                break
            ready = mp.connection.wait([conns[k] for k in busy], timeout=1.0)
            now = time.time()
            if log and now - lastlog > 15:
                lastlog = now
                log('  %s: %.0fs paths=%d queue=%d busy=%d fails=%d inc=%d' % (hname, now - t0, res.paths, len(work), len(busy), len(res.fails), len(res.inconclusive)))
            for c in ready:
                k = conns.index(c)
                try:
                    m = c.recv()
                except EOFError:
                    res.inconclusive.append(('worker died', k)); res.complete = False
                    busy.pop(k, None)
                    continue
                busy.pop(k, None)
                idle.append(k)
                _, stack, d, dt, info = m
                o = last.get(k)
                if o:
                    for f in ('cov', 'covmap'):
                        if info[f] is None: info[f] = o[f]
                last[k] = info
                res.merge(d)
                work += stack
            if len(res.fails) >= maxfails:
                stop = True; break
            if now - t0 > budget:
                res.complete = False
                res.inconclusive.append(('budget', 'time budget %ds exhausted, %d items left' % (budget, len(work) + len(busy))))
                stop = True; break
            if len(res.inconclusive) >= cfg.get('max_inconclusive', 10):
                stop = True; res.complete = False; break
        stats = {'by': {}}
        for k, i in last.items():
            for a, v in i['stats'].items():
                if a == 'by':
                    for be, l in v.items():
                        x = stats['by'].setdefault(be, [0, 0, 0.0])
                        for j in range(3): x[j] += l[j]
                else:
                    stats[a] = stats.get(a, 0) + v
            for j, b in enumerate(i['cov']):
                if b:
                    res.cov.add((i['covmap'][j][0], tuple(i['covmap'][j][1])))
            res.stubs |= set(i['stubs'])
        res.stats = stats
    finally:
        for p in procs:
            if p.is_alive():
                p.terminate()
        for p in procs:
            p.join(2)
    if work and not res.fails:
        res.complete = False
    res.wall = time.time() - t0
    return res

def warm_value(S, w, lo, hi, signed):
    i = S.nsym
    S.nsym += 1
    lo = T_.sgn(lo, 64) if signed else lo
    hi = T_.sgn(hi, 64) if signed else hi
    return (0 if lo <= 0 <= hi else lo) & R_.M64
