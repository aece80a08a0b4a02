"""Runtime of the symbolic executor: memory, path state, branching, solver queries."""
import re, sys, time, struct, math, os
import z3
from . import term as T_
from .term import T, ev
from .ir import Module, size_of, field_off
from . import gen as G_

M64 = (1 << 64) - 1

class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind; self.info = info
class EngineError(Exception):
    pass

class Obj:
    __slots__ = ('size', 'cells', 'fill', 'alive', 'name')
    def __init__(self, size, fill=None, name=''):
        self.size = size; self.cells = {}; self.fill = fill; self.alive = True; self.name = name

def byte_of(v, i):
    """i-th little-endian byte of a cell value"""
    if v.__class__ is int:
        return (v >> (8 * i)) & 255
    if v.__class__ is float:
        return (T_.f2b(v) >> (8 * i)) & 255
    if v.w == 'd':
        v = T_.d2i(v)
        if v.__class__ is int:
            return (v >> (8 * i)) & 255
    w = v.w
    return T_.trunc(T_.lshr(v, 8 * i, w), w, 8) if w > 8 else v

class Engine:
    """one per process; holds the module and compiled functions"""
    GBASE = 1
    FBASE = 1 << 24
    DBASE = 1 << 26

    def __init__(self, path):
        self.mod = Module(path)
        self.covmap = []
        self.C = bytearray(1 << 20)
        self.gids = {}
        self.glist = []
        self.fids = {}
        self.flist = []
        self.fnames = {}
        self.compiled = {}
        self.env = {}
        self.S = None
        self.aliases = {}
        for g, txt in self.mod.globals.items():
            m = re.search(r'\balias\b', txt.split('{')[0][:200]) if ' alias ' in txt[:120] else None
            if m:
                k = re.search(r'@("?)([^",]+)\1', txt[m.end():])
                self.aliases[g] = k.group(2)
        self._setup_env()

    def resolve_alias(self, n):
        while n in self.aliases:
            n = self.aliases[n]
        return n

    # --- names & addresses
    def fname(self, name):
        n = self.fnames.get(name)
        if n is None:
            n = 'F%d' % len(self.fnames)
            self.fnames[name] = n
            def stub(*a, _name=name, _n=n):
                f = self.compile(_name)
                return f(*a)
            self.env[n] = stub
        return n

    def compile(self, name):
        if name in self.compiled:
            return self.compiled[name]
        f = self.mod.get(name)
        g = G_.Gen(self, f)
        src = g.compile()
        if len(self.covmap) > len(self.C):
            raise EngineError('covmap')
        loc = {}
        exec(compile(src, '<%s>' % name[:60], 'exec'), self.env, loc)
        fn = loc['FUNC']
        self.env[self.fname(name)] = fn
        self.compiled[name] = fn
        return fn

    def gaddr(self, name):
        name = self.resolve_alias(name)
        if name in self.mod.funcs or name in self.mod.decls:
            i = self.fids.get(name)
            if i is None:
                i = self.FBASE + len(self.flist)
                self.fids[name] = i
                self.flist.append(name)
            return i << 32
        i = self.gids.get(name)
        if i is None:
            if name not in self.mod.globals:
                raise EngineError('global ' + name)
            i = self.GBASE + len(self.glist)
            self.gids[name] = i
            self.glist.append(name)
        return i << 32

    def constaddr(self, t, v):
        k = v[0]
        if k == 'g':
            return self.gaddr(v[1])
        if k == 'c': return v[1]
        if k in ('z', 'u'): return 0
        if k == 'ce':
            if v[1] == 'gep':
                _, _, bt, base, idx = v
                a = self.constaddr(('p',), base)
                off = 0
                tt = bt
                for n, (it, iv) in enumerate(idx):
                    x = iv[1] if iv[0] == 'c' else 0
                    if x >> (it[1] - 1): x -= 1 << it[1]
                    if n == 0:
                        off += x * size_of(tt)
                    elif tt[0] == 's':
                        off += field_off(tt, x); tt = tt[1][x]
                    else:
                        tt = tt[2]; off += x * size_of(tt)
                return (a + off) & M64
            if v[1] == 'cast':
                _, _, op, st, x, dt = v
                a = self.constaddr(st, x)
                if dt[0] == 'i':
                    a &= (1 << dt[1]) - 1
                return a
            if v[1] == 'bin':
                _, _, op, tt, a, b = v
                a = self.constaddr(tt, a); b = self.constaddr(tt, b)
                w = tt[1]
                r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b}[op]
                return r & ((1 << w) - 1)
        raise EngineError('constaddr %r' % (v,))

    def init_global(self, oid):
        name = self.glist[oid - self.GBASE]
        txt = self.mod.globals[name]
        p = G_.P(txt)
        ext = False
        while True:
            w = p.peekword()
            if w in ('constant', 'global'):
                p.word(); break
            if w == 'external' or w == 'extern_weak': ext = True
            if w == 'thread_local':
                p.word()
                if p.peek() == '(':
                    p.i = p.s.index(')', p.i) + 1
                continue
            if not w:
                if p.peek() == '(':
                    p.i = p.s.index(')', p.i) + 1
                    continue
                raise EngineError('global syntax ' + txt[:80])
            p.word()
        t = G_.parse_type(p, self.mod.named)
        o = Obj(size_of(t), 0, name)
        if not ext:
            v = G_.parse_value(p, t, self.mod.named)
            self._ginit(o, 0, t, v)
        return o

    def _ginit(self, o, off, t, v):
        k = v[0]
        if k in ('z', 'u'):
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 's':
                for i, (tt, vv) in enumerate(v[1]):
                    self._ginit(o, off + field_off(t, i), tt, vv)
            else:
                sz = size_of(t[2])
                for i, (tt, vv) in enumerate(v[1]):
                    self._ginit(o, off + i * sz, tt, vv)
            return
        if t[0] == 'f':
            if t[1] == 32:
                o.cells[off] = (4, T_.f2b32(v[1]))
            else:
                o.cells[off] = (8, v[1])
            return
        o.cells[off] = (size_of(t), self.constaddr(t, v))

    # --- interception of library functions (stated in every evidence file)
    STUBS = [
        (re.compile(r'5alloc3fmt6format12format_inner'), 'I_format'),
        (re.compile(r'7hashmap_random_keys'), 'I_randkeys'),
    ]
    def intercept(self, name):
        if name in ('sym_value', 'sym_assume', 'sym_assert', 'sym_reach', 'sym_note', 'sym_param', 'sym_known'):
            return 'S.' + name
        for r, f in self.STUBS:
            if r.search(name):
                self.used_stubs.add(name)
                return f
        if name in LIBC:
            return 'S.c_' + name
        return None
    used_stubs = set()

    def _setup_env(self):
        e = self.env
        e['NAN'] = math.nan
        e['INF'] = math.inf
        e['T'] = T
        e['C'] = self.C
        for n in ('add', 'sub', 'mul', 'and_', 'or_', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'zext', 'sext', 'trunc',
                  'icmp', 'ctlz', 'cttz', 'ctpop', 'scmp', 'ucmp', 'iabs', 'fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'fneg', 'fabs_',
                  'fcopysign', 'fround', 'fcmp', 'd2int'):
            e['T_' + n] = getattr(T_, n)
        e['X_umax'] = T_.umax; e['X_umin'] = T_.umin; e['X_smax'] = T_.smax; e['X_smin'] = T_.smin

        def i2f(a, w, signed, fw):
            if fw == 64:
                return T_.i2d(a, w, signed)
            if a.__class__ is not T:
                import numpy
                a = T_.sgn(a, w) if signed else a
                if abs(a) >> 64: raise EngineError('f32 of a wide integer')
                return float(numpy.float32(numpy.int64(a) if a < 1 << 63 else numpy.uint64(a)))
            if w > 53 and (max(-a.slo, a.shi) if signed else a.uhi) > 1 << 53:
                raise EngineError('symbolic f32 of a wide integer')
            return T_.f32r(T_.i2d(a, w, signed))
        e['i2f'] = i2f
        def f2i(a, w, signed, fw):
            return T_.d2int(a, w, signed, False)
        e['f2i'] = f2i
        e['fpext'] = lambda a: a
        fptrunc = T_.f32r
        e['fptrunc'] = fptrunc
        # one operation in double precision, rounded to single, is the correctly rounded single precision operation
        def f32op(op, a, b):
            if op not in ('fadd', 'fsub', 'fmul', 'fdiv'): raise EngineError('f32 ' + op)
            return fptrunc(getattr(T_, op)(a, b))
        e['f32op'] = f32op
        def f32intr(op, *a):
            if op == 'sqrt': return fptrunc(T_.fsqrt(a[0]))
            if op == 'fabs': return T_.fabs_(a[0])
            if op == 'copysign': return T_.fcopysign(a[0], a[1])
            if op in ('floor', 'ceil', 'trunc', 'round'): return T_.fround(op, a[0])
            raise EngineError('f32 ' + op)
        e['f32intr'] = f32intr

        def tw(t):
            return t[1] if t[0] == 'i' else (64 if t[0] == 'p' else None)
        def bitcast(v, t, u):
            if t[0] == 'f' and u[0] == 'i':
                return T_.d2i(v) if t[1] == 64 else T_.d2i32(v)
            if t[0] == 'i' and u[0] == 'f':
                return T_.bits2d(v) if u[1] == 64 else T_.b32d(v)
            if t[0] == 'v':
                ew = t[2][1]
                acc = 0
                tot = ew * t[1]
                for i, x in enumerate(v):
                    if t[2][0] == 'f': x = T_.d2i(x)
                    acc = T_.or_(acc, T_.shl(T_.zext(x, ew, tot), ew * i, tot), tot)
                v = acc; t = ('i', tot)
            elif t[0] == 'f':
                v = T_.d2i(v); t = ('i', 64)
            if u[0] == 'v':
                ew = u[2][1]
                out = []
                for i in range(u[1]):
                    x = T_.trunc(T_.lshr(v, ew * i, t[1]), t[1], ew)
                    out.append(T_.bits2d(x) if u[2][0] == 'f' else x)
                return tuple(out)
            if u[0] == 'f':
                return T_.bits2d(v)
            return v
        e['bitcast'] = bitcast
        def insv(a, v, idx):
            l = list(a)
            if len(idx) == 1:
                l[idx[0]] = v
            else:
                l[idx[0]] = insv(l[idx[0]], v, idx[1:])
            return tuple(l)
        e['insv'] = insv
        e['shuf'] = lambda a, b, m: tuple((a + b)[i] for i in m)
        def vbin(op, a, b, w):
            f = getattr(T_, op)
            return tuple(f(x, y, w) for x, y in zip(a, b))
        e['vbin'] = vbin
        def sel(c, x, y, w):
            if c.__class__ is not T:
                return x if c else y
            if w.__class__ is tuple:
                return tuple(sel(c, p, q, ww) for p, q, ww in zip(x, y, w))
            return T_.ite(c, x, y, 'd' if w == 'f' else w)
        e['sel'] = sel
        e['vsel'] = lambda c, x, y, w: tuple(sel(k, p, q, w) for k, p, q in zip(c, x, y))
        def sat(op):
            def f(a, b, w):
                M = (1 << w) - 1; h = 1 << (w - 1)
                if op == 'uadd':
                    r = T_.add(a, b, w)
                    return T_.ite(T_.icmp('ult', r, a, w), M, r, w)
                if op == 'usub':
                    return T_.ite(T_.icmp('ult', a, b, w), 0, T_.sub(a, b, w), w)
                ww = w + 1
                A = T_.sext(a, w, ww); B = T_.sext(b, w, ww)
                r = T_.add(A, B, ww) if op == 'sadd' else T_.sub(A, B, ww)
                MM = (1 << ww) - 1
                return T_.ite(T_.icmp('slt', r, (-h) & MM, ww), h, T_.ite(T_.icmp('sgt', r, h - 1, ww), h - 1, T_.trunc(r, ww, w), w), w)
            return f
        for o in ('uadd', 'usub', 'sadd', 'ssub'):
            e['X_%s_sat' % o] = sat(o)
        def ovf(op, a, b, w):
            o = op[1:]
            f = {'add': T_.add, 'sub': T_.sub, 'mul': T_.mul}[o]
            r = f(a, b, w)
            if op == 'uadd':
                c = T_.icmp('ult', r, a, w)
                al, ah = T_.urange(a); bl, bh = T_.urange(b)
                if ah + bh < 1 << w: c = 0
                return (r, c)
            if op == 'usub':
                return (r, T_.icmp('ult', a, b, w))
            ww = w * 2 if o == 'mul' else w + 1
            x = T_.sext if op[0] == 's' else T_.zext
            big = f(x(a, w, ww), x(b, w, ww), ww)
            if op[0] == 's':
                lo, hi = T_.srange(big, ww)
                if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1): return (r, 0)
                return (r, T_.not_(T_.icmp('eq', T_.sext(T_.trunc(big, ww, w), w, ww), big, ww)))
            lo, hi = T_.urange(big)
            if hi < 1 << w: return (r, 0)
            return (r, T_.icmp('ugt', big, (1 << w) - 1, ww))
        e['X_ovf'] = ovf
        def bswap(a, w):
            r = 0
            for i in range(w // 8):
                r = T_.or_(r, T_.shl(T_.and_(T_.lshr(a, 8 * i, w), 255, w), w - 8 - 8 * i, w), w)
            return r
        e['X_bswap'] = bswap
        def bitrev(a, w):
            r = 0
            for i in range(w):
                r = T_.or_(r, T_.shl(T_.and_(T_.lshr(a, i, w), 1, w), w - 1 - i, w), w)
            return r
        e['X_bitreverse'] = bitrev
        def fshl(a, b, c, w):
            if c.__class__ is T:
                raise EngineError('symbolic fshl')
            c %= w
            if c == 0: return a
            return T_.or_(T_.shl(a, c, w), T_.lshr(b, w - c, w), w)
        def fshr(a, b, c, w):
            if c.__class__ is T:
                raise EngineError('symbolic fshr')
            c %= w
            if c == 0: return b
            return T_.or_(T_.shl(a, w - c, w), T_.lshr(b, c, w), w)
        e['X_fshl'] = fshl; e['X_fshr'] = fshr
        def fminmax(op, a, b):
            if a.__class__ is not T and b.__class__ is not T:
                if op in ('minimum', 'maximum') and (a != a or b != b): return math.nan
                if a != a: return b
                if b != b: return a
                return min(a, b) if op.startswith('min') else max(a, b)
            c = T_.fcmp('olt', a, b)
            r = T_.ite(c, a, b, 'd') if op.startswith('min') else T_.ite(c, b, a, 'd')
            na, nb = T_.isnan(a), T_.isnan(b)
            r = T_.ite(na, b, T_.ite(nb, a, r, 'd'), 'd')
            return r
        e['X_fminmax'] = fminmax
        def fma(a, b, c):
            raise EngineError('fma')
        e['X_fma'] = fma
        def reduce(op, v, w):
            f = {'add': T_.add, 'mul': T_.mul, 'and': T_.and_, 'or': T_.or_, 'xor': T_.xor, 'umax': T_.umax, 'umin': T_.umin,
                 'smax': T_.smax, 'smin': T_.smin}[op]
            r = v[0]
            for x in v[1:]:
                r = f(r, x, w)
            return r
        e['X_reduce'] = reduce

    def bind(self, S):
        self.S = S
        e = self.env
        e['S'] = S
        for n in ('br', 'swi', 'ldi', 'ldd', 'sti', 'mcpy', 'mset', 'cc', 'ldagg', 'stagg', 'ldf', 'stf', 'cmpx', 'I_format', 'I_randkeys'):
            e[n] = getattr(S, n)

LIBC = {'dlsym', 'open', 'poll', 'close', 'read', 'malloc', 'free', 'calloc', 'realloc', 'posix_memalign', 'aligned_alloc', 'memcmp', 'bcmp', 'memcpy', 'memmove', 'memset', 'strlen',
        'syscall', 'getrandom', 'getenv', 'write', 'sqrt', 'abort', 'exp', 'pow', '__errno_location',
        'atan2', 'sin', 'cos', 'floor', 'ceil', 'ldexp', 'memchr', 'clock_gettime', '__rust_alloc'}

class Stats:
    def __init__(self):
        self.queries = 0; self.sat = 0; self.unsat = 0; self.unknown = 0
        self.solver_s = 0.0; self.trivial = 0; self.by = {}; self.cache = 0
    def asdict(self):
        return dict(self.__dict__)

_hp = {}
def c_has_product(n):
    """does the term contain a product of two symbolic factors"""
    st = [n]; seen = set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op in ('mul', 'fmul') and x.a[0].__class__ is T and x.a[1].__class__ is T:
            return True
        for y in x.a:
            if y.__class__ is T: st.append(y)
    return False

class Solver:
    """decides conjunctions of terms; several back ends"""
    def __init__(self, cfg):
        self.cfg = cfg
        self.st = Stats()
        self.cache = {}
        self.fd = None
        if cfg.get('fd'):
            from . import fd
            self.fd = fd.Fd(cfg['fd'])
        self.nsym = 0

    def slice(self, pc, goal):
        """constraints transitively sharing symbols with the goal"""
        syms = set(goal.syms)
        rest = list(pc)
        out = []
        changed = True
        while changed and rest:
            changed = False
            nr = []
            for c in rest:
                if c.syms & syms:
                    out.append(c); changed = changed or not (c.syms <= syms)
                    syms |= c.syms
                else:
                    nr.append(c)
            rest = nr
        out.sort(key=lambda c: c.id)
        return out, syms

    def check(self, pc, goal, hint=None, hard=False):
        """is pc & goal satisfiable (pc satisfiable)?  returns ('unsat',None) / ('sat',model) / ('unknown',None)
        model assigns the symbols of the slice only."""
        if goal.__class__ is not T:
            return ('sat', {}) if goal else ('unsat', None)
        if self.fd:
            t0 = time.time()
            r = self.fd.check(pc, goal, [T_.SYMS[i] for i in range(self.nsym)])
            dt = time.time() - t0
            if r is not None:
                self.st.queries += 1
                self.st.solver_s += dt
                b = self.st.by.setdefault('fd', [0, 0, 0.0])
                b[0] += 1; b[1] += 1; b[2] += dt
                if r[0] == 'sat':
                    self.st.sat += 1
                    if self.st.sat % 500 == 0 and not self._verify(list(pc) + [goal], r[1]): raise RuntimeError('finite-domain model is no model')
                else:
                    self.st.unsat += 1
                    if self.st.unsat % self.cfg.get('recheck', 10000) == 0: self._recheck(pc, goal)
                return r
        cons, syms = self.slice(pc, goal)
        key = (tuple(c.id for c in cons), goal.id)
        r = self.cache.get(key)
        if r is not None and not (hard and r[0] == 'unknown'):
            self.st.cache += 1
            return r
        if cons:
            g = T_.subst(goal, T_.facts_of(cons))
            if g.__class__ is not T:
                if not g: r = ('unsat', None); self.cache[key] = r; self.st.cache += 1; return r
                # the goal follows from the constraints: any model of them will do
            else:
                goal = g
        t0 = time.time()
        self.st.queries += 1
        if self.cfg.get('vv'): print('   >', len(cons), T_.show(goal, self.cfg['vv']), flush=True)
        r = self._solve(cons + [goal], syms, hard)
        dt = time.time() - t0
        self.st.solver_s += dt
        if r[0] == 'sat': self.st.sat += 1
        elif r[0] == 'unsat': self.st.unsat += 1
        else: self.st.unknown += 1
        if self.cfg.get('verbose') and dt > self.cfg.get('slow', 2):
            print('   query %.1fs %s %s syms=%d cons=%d %s' % (dt, r[0], r[2] if len(r) > 2 else '', len(syms), len(cons), T_.show(goal, 4)[:200]), flush=True)
        self.cache[key] = r
        return r

    def _recheck(self, pc, goal):
        """a share of the unsatisfiable verdicts of the finite-domain procedure is put to z3 as well"""
        cons, syms = self.slice(pc, goal)
        t0 = time.time()
        r = None
        try:
            r = self._be_int(cons + [goal], syms, 0.5)
            if r[0] not in ('sat', 'unsat'): r = self._be_nl(cons + [goal], syms, 1)
        except T_.NoInt: pass
        try:
            if r is None: r = self._be_bv(cons + [goal], syms, 0.5)
        except (T_.NoInt, z3.Z3Exception):
            pass
        b = self.st.by.setdefault('fd verdicts put to z3 too', [0, 0, 0.0])
        b[0] += 1; b[2] += time.time() - t0
        if r is not None and r[0] == 'unsat': b[1] += 1
        if r is not None and r[0] == 'sat' and r[1] is not None: raise RuntimeError('finite-domain verdict contradicted by z3')

    def _verify(self, cons, m):
        memo = {}
        for c in cons:
            if not ev(c, m, memo):
                return False
        return True

    def _solve(self, cons, syms, hard):
        hasf = any(c.hasf for c in cons)
        order = self.cfg.get('backends')
        if order is None:
            order = ['int', 'nl', 'fb', 'bv'] if hasf else ['int', 'nl', 'bv']
        tmo = self.cfg.get('hard_timeout', 60) if hard else self.cfg.get('timeout', 10)
        dead = set()
        rounds = [t for t in self.cfg.get('rounds', (0.7, 4, 20)) if t < tmo] + [tmo]
        for t in rounds:
            for be in order:
                if be in dead: continue
                t0 = time.time()
                r = None
                try:
                    r = getattr(self, '_be_' + be)(cons, syms, t)
                except T_.NoInt:
                    dead.add(be)
                except z3.Z3Exception as e:
                    dead.add(be)
                    if self.cfg.get('verbose'): print('z3', be, e)
                b = self.st.by.setdefault(be, [0, 0, 0.0])
                b[0] += 1; b[2] += time.time() - t0
                if r is not None and r[0] in ('sat', 'unsat'):
                    b[1] += 1
                    return r
                if r is not None and r[0] == 'dead':
                    dead.add(be)
        return ('unknown', None)

    def _model(self, zm, syms, isint):
        m = {}
        for i in syms:
            n = T_.SYMS[i]
            w = n.w
            if w == 1:
                v = zm.eval(z3.Bool('s%d' % i), model_completion=True)
                m[i] = 1 if z3.is_true(v) else 0
                continue
            v = zm.eval(z3.Int('s%d' % i) if isint else z3.BitVec('s%d' % i, w), model_completion=False)
            try:
                m[i] = v.as_long() & ((1 << w) - 1)
            except Exception:
                lo, hi = n.a[1], n.a[2]
                m[i] = (lo if not (lo <= 0 <= hi) else 0) & ((1 << w) - 1)
        return m

    def _be_int(self, cons, syms, tmo):
        """products abstracted to bounded variables: only unsat (or a verified model) counts"""
        r = self._int(cons, syms, 'abs', tmo)
        if r[0] == 'sat' and r[1] is None:
            return ('dead', None)
        return r
    def _be_nl(self, cons, syms, tmo):
        if not any(c_has_product(c) for c in cons):
            return ('dead', None)
        return self._int(cons, syms, 'nl', tmo)

    def _int(self, cons, syms, mode, tmo):
        L = T_.IntLower(mode)
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000))
        for c in cons:
            s.add(L.boolean(c))
        for c in L.side:
            s.add(c)
        r = s.check()
        if r == z3.unsat:
            return ('unsat', None, 'int-' + mode)
        if r == z3.sat:
            m = self._model(s.model(), syms, True)
            if self._verify(cons, m):
                return ('sat', m, 'int-' + mode)
            return ('sat', None) if mode == 'abs' else ('unknown', None)
        return ('unknown', None)

    def _be_fb(self, cons, syms, tmo):
        """floating-point arithmetic uninterpreted, comparisons exact on bit patterns: only unsat (or a verified model) counts"""
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(tmo * 1000))
        for c in cons: s.add(T_.bvf(c, None))
        for c in T_.bvf_facts(cons): s.add(c)
        for c in T_.sym_constraints_bv(syms): s.add(c)
        r = s.check()
        if r == z3.unsat: return ('unsat', None, 'fb')
        if r == z3.sat:
            m = self._model(s.model(), syms, False)
            if self._verify(cons, m): return ('sat', m, 'fb')
            return ('dead', None)
        return ('unknown', None)

    def _be_bv(self, cons, syms, tmo):
        s = z3.SolverFor('QF_BV') if not any(c.hasf for c in cons) else z3.Tactic('qffpbv').solver()
        s.set('timeout', int(tmo * 1000))
        for c in cons:
            s.add(T_.bv(c, 1))
        for c in T_.sym_constraints_bv(syms):
            s.add(c)
        r = s.check()
        if r == z3.unsat:
            return ('unsat', None, 'bv')
        if r == z3.sat:
            m = self._model(s.model(), syms, False)
            if self._verify(cons, m):
                return ('sat', m, 'bv')
            return ('unknown', None)
        return ('unknown', None)

    def _be_kissat(self, cons, syms, tmo):
        from . import sat
        return sat.solve(self, cons, syms, tmo)

class State:
    """execution of one path"""
    def __init__(self, eng, solver, cfg):
        self.E = eng
        self.solver = solver
        self.cfg = cfg
        eng.bind(self)
        self.stub_calls = set()

    def reset(self, prefix, model):
        self.objs = {}
        self.nextobj = Engine.DBASE
        self.n = 0
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # decisions taken (bool)
        self.pc = []
        self.facts = {}
        self.model = dict(model)
        self.memo = {}
        self.nsym = 0
        self.forks = []          # (prefix, model)
        self.nforks = 0
        self.asserts = 0
        self.assert_q = 0
        self.fails = []
        self.reached = {}
        self.notes = []
        self.inconclusive = []
        self.t_end = time.time() + self.cfg.get('path_timeout', 300)
        self.assumed = []

    # ---- symbols
    def sym_value(self, w, lo, hi, signed):
        """fresh symbol of width w (returned in 64 bits, sign/zero extended)"""
        i = self.nsym
        self.nsym += 1
        self.solver.nsym = self.nsym
        lo = T_.sgn(lo, 64) if signed else lo
        hi = T_.sgn(hi, 64) if signed else hi
        if lo == hi:
            if i not in self.model: self.model[i] = lo & ((1 << w) - 1)
            T_.sym(i, w, lo, hi, bool(signed))
            return lo & M64
        s = T_.sym(i, w, lo, hi, bool(signed))
        if i not in self.model:
            d = 0 if lo <= 0 <= hi else lo
            dd = self.cfg.get('seedvals')
            if dd and i < len(dd):
                d = dd[i]
            self.model[i] = d & ((1 << w) - 1)
        if w == 64:
            return s
        return T_.sext(s, w, 64) if signed else T_.zext(s, w, 64)

    def sym_assume(self, c):
        if c.__class__ is not T:
            if not c:
                raise PathEnd('assume')
            return
        if self.facts.get(c.id) is True:
            return
        if self.facts.get(c.id) is False:
            raise PathEnd('assume')
        v = ev(c, self.model, self.memo)
        if not v:
            r = self.solver.check(self.pc, c)
            if r[0] == 'unsat':
                raise PathEnd('assume')
            if r[0] == 'unknown':
                r = self.solver.check(self.pc, c, hard=True)
                if r[0] == 'unsat':
                    raise PathEnd('assume')
                if r[0] == 'unknown':
                    self.inconclusive.append('assume')
                    raise PathEnd('inconclusive', 'assume')
            self.setmodel(r[1])
        self.add(c)

    def setmodel(self, m):
        self.model = dict(self.model)
        self.model.update(m)
        self.memo = {}

    def add(self, c):
        self._fact(c)
        self.pc_add(c)
    def _parts(self, c):
        """conjuncts of c, one level"""
        if c.op == 'and' and c.w == 1:
            return c.a
        if c.op == 'not' and c.a[0].op == 'or' and c.a[0].w == 1:
            return tuple(T_.not_(x) for x in c.a[0].a)
        return None
    def _fact(self, c):
        if c.__class__ is T:
            self.facts[c.id] = True
            n = T_.not_(c)
            if n.__class__ is T:
                self.facts[n.id] = False
            p = self._parts(c)
            if p:
                for x in p: self._fact(x)
    def pc_add(self, c):
        if c.__class__ is T:
            p = self._parts(c)
            if p:
                for x in p: self.pc_add(x)
            else:
                self.pc.append(c)

    def br(self, c):
        if c.__class__ is not T:
            return bool(c)
        f = self.facts.get(c.id)
        if f is not None:
            return f
        k = self.pos
        if k < len(self.prefix):
            d = self.prefix[k]
            if d.__class__ is tuple:
                raise EngineError('replay misaligned (br)')
            self.pos += 1
            self.trace.append(d)
            self.add(c if d else T_.not_(c))
            return d
        if time.time() > self.t_end:
            raise PathEnd('inconclusive', 'path timeout')
        v = bool(ev(c, self.model, self.memo))
        other = T_.not_(c) if v else c
        r = self.solver.check(self.pc, other)
        if r[0] == 'unknown':
            r = self.solver.check(self.pc, other, hard=True)
            if r[0] == 'unknown':
                self.inconclusive.append(('fork', T_.show(c, 3)[:200]))
        if r[0] == 'sat':
            self.nforks += 1
            m = dict(self.model); m.update(r[1])
            self.forks.append((self.trace + [not v], m))
        self.pos += 1
        self.trace.append(v)
        if r[0] == 'unsat':
            # implied: remember as a fact, no need to grow the path condition
            self._fact(c if v else T_.not_(c))
            if self.cfg.get('keep_implied'):
                self.pc.append(c if v else T_.not_(c))
        else:
            self.add(c if v else T_.not_(c))
        return v

    def swi(self, x, w, cases):
        for k in cases:
            c = T_.icmp('eq', x, k, w)
            if c.__class__ is int:
                if c: return k
                continue
            if self.br(c):
                return k
        return -1

    def cc(self, x):
        """concretise by case split (complete: every feasible value gets its own path)"""
        if x.__class__ is not T:
            return x
        n = 0
        while True:
            k = self.pos
            if k < len(self.prefix) and self.prefix[k].__class__ is tuple:
                v0 = ev(x, self.model, self.memo)
                c = T_.icmp('eq', x, v0, x.w)
                if c.__class__ is int or self.facts.get(c.id) is True:
                    return v0
                v, d = self.prefix[k]
                c = T_.icmp('eq', x, v, x.w)
                self.pos += 1
                self.trace.append((v, d))
                self.add(c if d else T_.not_(c))
                if d:
                    return v
                continue
            v = ev(x, self.model, self.memo)
            c = T_.icmp('eq', x, v, x.w)
            if c.__class__ is int:
                if c: return v
                raise EngineError('cc')
            if self.facts.get(c.id) is True:
                return v
            if k < len(self.prefix):
                raise EngineError('replay misaligned (cc)')
            other = T_.not_(c)
            r = self.solver.check(self.pc, other)
            if r[0] == 'unknown':
                r = self.solver.check(self.pc, other, hard=True)
            if r[0] == 'unknown':
                self.inconclusive.append(('fork', 'cc'))
            if r[0] == 'unsat':
                self._fact(c)
                self.pos += 1
                self.trace.append((v, True))
                return v
            if r[0] == 'sat':
                self.nforks += 1
                m = dict(self.model); m.update(r[1])
                self.forks.append((self.trace + [(v, False)], m))
            self.pos += 1
            self.trace.append((v, True))
            self.add(c)
            return v

    # ---- verdicts
    def sym_assert(self, c, ident):
        self.asserts += 1
        if c.__class__ is not T:
            if not c:
                self.fails.append(('assert', ident, dict(self.model)))
                raise PathEnd('violation', ident)
            self.solver.st.trivial += 1
            return
        f = self.facts.get(c.id)
        if f is True:
            self.solver.st.trivial += 1
            return
        if self.pos < len(self.prefix):
            self._fact(c)        # decided on the path this one branched from
            self.pc_add(c)
            return
        self.assert_q += 1
        if not ev(c, self.model, self.memo):
            if self._verified_model():
                self.fails.append(('assert', ident, dict(self.model)))
                raise PathEnd('violation', ident)
        n = T_.not_(c)
        r = self.solver.check(self.pc, n, hard=True)
        if r[0] == 'unsat':
            self._fact(c)
            self.pc_add(c)       # proved: usable as a lemma
            return
        if r[0] == 'sat':
            m = dict(self.model); m.update(r[1])
            self.fails.append(('assert', ident, m))
            raise PathEnd('violation', ident)
        self.inconclusive.append(('assert', ident))
        raise PathEnd('inconclusive', 'assert %s' % ident)

    def _verified_model(self):
        for c in self.pc:
            if not ev(c, self.model, self.memo):
                return False
        return True

    def sym_reach(self, ident):
        ident = self.cc(ident)
        self.reached[ident] = self.reached.get(ident, 0) + 1

    def sym_note(self, ident, v):
        self.notes.append((self.cc(ident), v))

    def sym_param(self, i):
        return self.cfg.get('params', {}).get(self.cc(i), 0) & M64

    def sym_known(self, ident):
        """1 if the input class 'ident' is a recorded known finding"""
        return int(self.cc(ident) in self.cfg.get("known", ()))

    def panic(self, name, args):
        msg = ''
        try:
            if len(args) >= 2 and args[0].__class__ is int and args[1].__class__ is int:
                n = args[1]
                if '9panic_fmt' in name:
                    msg = 'panic_fmt'
                elif n < 400:
                    msg = bytes(self.ldi(args[0] + i, 1) for i in range(n)).decode('utf8', 'replace')
        except Exception:
            pass
        raise PathEnd('panic', (name, msg))

    def unreachable(self, where):
        raise EngineError('unreachable reached in ' + where)

    def external(self, name, args):
        raise EngineError('external function ' + name)

    def icall(self, a, args):
        a = self.cc(a)
        i = (a >> 32) - Engine.FBASE
        if a & 0xffffffff or not 0 <= i < len(self.E.flist):
            raise EngineError('indirect call to %x' % a)
        name = self.E.flist[i]
        sp = self.E.intercept(name)
        if sp is not None:
            f = getattr(self, sp[2:]) if sp.startswith('S.') else getattr(self, sp)
            return f(*args)
        if G_.PANIC.search(name):
            self.panic(name, args)
        return self.E.compile(name)(*args)

    # ---- memory
    def alloc(self, size, fill=None, name=''):
        i = self.nextobj
        self.nextobj = i + 1
        self.objs[i] = Obj(size, fill, name)
        return i << 32

    def obj(self, p, n, what):
        o = self.objs.get(p >> 32)
        if o is None:
            k = p >> 32
            if Engine.GBASE <= k < Engine.GBASE + len(self.E.glist):
                o = self.E.init_global(k)
                self.objs[k] = o
            else:
                raise EngineError('%s bad pointer %x' % (what, p))
        if not o.alive:
            raise EngineError('%s use after free' % what)
        if (p & 0xffffffff) + n > o.size:
            raise EngineError('%s out of bounds off=%d n=%d size=%d %s' % (what, p & 0xffffffff, n, o.size, o.name))
        return o

    def ldi(self, p, n):
        if p.__class__ is not int:
            p = self.cc(p)
        o = self.objs.get(p >> 32)
        if o is None or not o.alive or (p & 0xffffffff) + n > o.size:
            o = self.obj(p, n, 'load')
        c = o.cells.get(p & 0xffffffff)
        if c is not None and c[0] == n:
            v = c[1]
            k = v.__class__
            if k is int:
                return v
            if k is float:
                return T_.f2b(v)
            if v.w == 'd':
                return T_.d2i(v)
            return v
        return self.ld_slow(o, p & 0xffffffff, n)

    def ld_slow(self, o, off, n):
        acc = 0
        w = n * 8
        pos = 0
        cells = o.cells
        while pos < n:
            c = cells.get(off + pos)
            if c is not None:
                m, v = c
                take = min(m, n - pos)
                if take == m:
                    if v.__class__ is float: v = T_.f2b(v)
                    elif v.__class__ is T and v.w == 'd': v = T_.d2i(v)
                    x = v
                    if x.__class__ is T: x = T_.zext(x, m * 8, w)
                else:
                    if v.__class__ is float: v = T_.f2b(v)
                    elif v.__class__ is T and v.w == 'd': v = T_.d2i(v)
                    x = T_.trunc(v, m * 8, take * 8)
                    if x.__class__ is T: x = T_.zext(x, take * 8, w)
                acc = T_.or_(acc, T_.shl(x, pos * 8, w), w) if pos or acc.__class__ is T or acc else x
                pos += take
                continue
            # inside an earlier cell?
            found = False
            for back in range(1, 16):
                c = cells.get(off + pos - back)
                if c is not None:
                    if c[0] > back:
                        m, v = c
                        take = min(m - back, n - pos)
                        if v.__class__ is float: v = T_.f2b(v)
                        elif v.__class__ is T and v.w == 'd': v = T_.d2i(v)
                        x = T_.trunc(T_.lshr(v, back * 8, m * 8), m * 8, take * 8)
                        if x.__class__ is T: x = T_.zext(x, take * 8, w)
                        acc = T_.or_(acc, T_.shl(x, pos * 8, w), w)
                        pos += take
                        found = True
                    break
            if not found:
                pos += 1      # fill/uninitialised byte: 0
        return acc

    def ldd(self, p):
        if p.__class__ is not int:
            p = self.cc(p)
        o = self.objs.get(p >> 32)
        if o is None or not o.alive or (p & 0xffffffff) + 8 > o.size:
            o = self.obj(p, 8, 'load')
        c = o.cells.get(p & 0xffffffff)
        if c is not None and c[0] == 8:
            v = c[1]
            if v.__class__ is float:
                return v
            if v.__class__ is int:
                return T_.b2f(v)
            if v.w == 'd':
                return v
            return T_.bits2d(v)
        return T_.bits2d(self.ld_slow(o, p & 0xffffffff, 8))

    def ldf(self, p):
        return T_.b32d(self.ldi(p, 4))
    def stf(self, p, v):
        self.sti(p, 4, T_.d2i32(v))

    def sti(self, p, n, v):
        if p.__class__ is not int:
            p = self.cc(p)
        o = self.objs.get(p >> 32)
        off = p & 0xffffffff
        if o is None or not o.alive or off + n > o.size:
            o = self.obj(p, n, 'store')
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        if cells:
            self.clear(o, off, n)
        cells[off] = (n, v)

    def clear(self, o, off, n):
        cells = o.cells
        # a cell starting before off that reaches into it
        for back in range(1, 16):
            c = cells.get(off - back)
            if c is not None:
                if c[0] > back:
                    self.split(cells, off - back)
                    for i in range(back, min(c[0], back + n)):
                        del cells[off - back + i]
                break
        if n <= 64 or n < len(cells) * 2:
            pos = off
            end = off + n
            while pos < end:
                c = cells.get(pos)
                if c is None:
                    pos += 1; continue
                if pos + c[0] > end:
                    self.split(cells, pos)
                    continue
                del cells[pos]
                pos += c[0]
        else:
            end = off + n
            for k in [k for k in cells if off <= k < end]:
                c = cells.get(k)
                if c is None: continue
                if k + c[0] > end:
                    self.split(cells, k)
                    for j in range(k, end):
                        cells.pop(j, None)
                else:
                    del cells[k]

    def split(self, cells, k):
        m, v = cells.pop(k)
        for i in range(m):
            cells[k + i] = (1, byte_of(v, i))

    def mcpy(self, d, s, n):
        n = self.cc(n)
        if n == 0:
            return
        d = self.cc(d); s = self.cc(s)
        if d == s:
            return
        so = self.obj(s, n, 'memcpy src')
        do = self.obj(d, n, 'memcpy dst')
        so_off = s & 0xffffffff
        do_off = d & 0xffffffff
        items = []
        cells = so.cells
        for back in range(1, 16):
            c = cells.get(so_off - back)
            if c is not None:
                if c[0] > back:
                    for i in range(back, min(c[0], back + n)):
                        items.append((i - back, 1, byte_of(c[1], i)))
                break
        if n > 256 and len(cells) < n // 4:
            ks = sorted(k for k in cells if so_off <= k < so_off + n)
            for k in ks:
                m, v = cells[k]
                pos = k - so_off
                if pos + m > n:
                    for i in range(n - pos):
                        items.append((pos + i, 1, byte_of(v, i)))
                else:
                    items.append((pos, m, v))
        else:
            pos = 0
            while pos < n:
                c = cells.get(so_off + pos)
                if c is None:
                    pos += 1; continue
                m, v = c
                if pos + m > n:
                    for i in range(n - pos):
                        items.append((pos + i, 1, byte_of(v, i)))
                    break
                items.append((pos, m, v))
                pos += m
        if do.cells:
            self.clear(do, do_off, n)
        dc = do.cells
        if so.fill == 0 and do.fill is None and n <= 4096:
            have = bytearray(n)
            for pos, m, v in items:
                for i in range(pos, pos + m): have[i] = 1
            for i in range(n):
                if not have[i]:
                    dc[do_off + i] = (1, 0)
        for pos, m, v in items:
            dc[do_off + pos] = (m, v)

    def mset(self, d, v, n):
        n = self.cc(n)
        if n == 0:
            return
        d = self.cc(d)
        o = self.obj(d, n, 'memset')
        off = d & 0xffffffff
        if v.__class__ is T:
            self.clear(o, off, n)
            for i in range(n):
                o.cells[off + i] = (1, v)
            return
        if o.cells:
            self.clear(o, off, n)
        i = 0
        v8 = v * 0x0101010101010101
        cells = o.cells
        while i < n:
            a = off + i
            if a % 8 == 0 and n - i >= 8:
                cells[a] = (8, v8); i += 8
            elif a % 4 == 0 and n - i >= 4:
                cells[a] = (4, v * 0x01010101); i += 4
            else:
                cells[a] = (1, v); i += 1

    def ldagg(self, p, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            v = self.ldi(p, n)
            return T_.trunc(v, n * 8, t[1]) if t[1] % 8 else v
        if k == 'p': return self.ldi(p, 8)
        if k == 'f': return self.ldd(p) if t[1] == 64 else self.ldf(p)
        if p.__class__ is not int: p = self.cc(p)
        if k == 's':
            return tuple(self.ldagg(p + field_off(t, i), x) for i, x in enumerate(t[1]))
        if k == 'v' and t[2] == ('i', 1):
            v = self.ldi(p, (t[1] + 7) // 8)
            return tuple(T_.trunc(T_.lshr(v, i, ((t[1] + 7) // 8) * 8), ((t[1] + 7) // 8) * 8, 1) for i in range(t[1]))
        sz = size_of(t[2])
        return tuple(self.ldagg(p + i * sz, t[2]) for i in range(t[1]))

    def stagg(self, p, t, v):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            return self.sti(p, n, T_.zext(v, t[1], n * 8) if t[1] % 8 else v)
        if k == 'p': return self.sti(p, 8, v)
        if k == 'f': return self.sti(p, 8, v) if t[1] == 64 else self.stf(p, v)
        if p.__class__ is not int: p = self.cc(p)
        if k == 's':
            for i, x in enumerate(t[1]):
                self.stagg(p + field_off(t, i), x, v[i])
            return
        sz = size_of(t[2])
        for i in range(t[1]):
            self.stagg(p + i * sz, t[2], v[i])

    def cmpx(self, p, n, c, v, w):
        o = self.ldi(p, n)
        e = T_.icmp('eq', o, c, w)
        if e.__class__ is T:
            e = 1 if self.br(e) else 0
        if e:
            self.sti(p, n, v)
        return (o, e)

    # ---- libc
    def c_malloc(self, n): return self.alloc(self.cc(n), None, 'malloc')
    def c_calloc(self, a, b): return self.alloc(self.cc(a) * self.cc(b), 0, 'calloc')
    def c_aligned_alloc(self, a, n): return self.alloc(self.cc(n))
    def c_posix_memalign(self, pp, a, n):
        self.sti(pp, 8, self.alloc(self.cc(n)))
        return 0
    def c_free(self, p):
        p = self.cc(p)
        if p == 0: return
        o = self.obj(p, 0, 'free')
        o.alive = False
        o.cells = {}
    def c_realloc(self, p, n):
        n = self.cc(n); p = self.cc(p)
        if p == 0: return self.alloc(n)
        o = self.obj(p, 0, 'realloc')
        q = self.alloc(n, o.fill, 'realloc')
        self.mcpy(q, p, min(n, o.size))
        o.alive = False
        return q
    def c_memcpy(self, d, s, n):
        self.mcpy(d, s, n); return d
    c_memmove = c_memcpy
    def c_memset(self, d, v, n):
        self.mset(d, T_.trunc(v, 32, 8), n); return d
    def c_bcmp(self, a, b, n):
        n = self.cc(n)
        if n == 0: return 0
        a = self.cc(a); b = self.cc(b)
        r = 1
        i = 0
        while i < n:
            k = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
            r = T_.and_(r, T_.icmp('eq', self.ldi(a + i, k), self.ldi(b + i, k), 8 * k), 1)
            i += k
        return T_.ite(r, 0, 1, 32)
    def c_memcmp(self, a, b, n):
        n = self.cc(n)
        if n == 0: return 0
        a = self.cc(a); b = self.cc(b)
        r = 0
        for i in reversed(range(n)):
            x, y = self.ldi(a + i, 1), self.ldi(b + i, 1)
            r = T_.ite(T_.icmp('eq', x, y, 8), r, T_.ite(T_.icmp('ult', x, y, 8), (1 << 32) - 1, 1, 32), 32)
        return r
    def c_memchr(self, p, c, n):
        n = self.cc(n); p = self.cc(p); c = T_.trunc(c, 32, 8)
        for i in range(n):
            if self.br(T_.icmp('eq', self.ldi(p + i, 1), c, 8)):
                return p + i
        return 0
    def c_strlen(self, p):
        p = self.cc(p); i = 0
        while self.br(T_.icmp('ne', self.ldi(p + i, 1), 0, 8)): i += 1
        return i
    def c_syscall(self, n, *a):
        n = self.cc(n)
        if n == 202: return 0                      # futex: single-threaded
        if n == 318: return self.c_read(0, a[0], a[1])   # getrandom
        raise EngineError('syscall %d' % n)
    def c_getrandom(self, p, n, f):
        self.mset(p, 0, n); return n
    def c_getenv(self, p): return 0
    # the random source of the OS: /dev/urandom through open/read, constant bytes
    def c_dlsym(self, h, p): return 0
    def c_open(self, *a): return 3
    def c_poll(self, *a): return 1
    def c_close(self, fd): return 0
    def c_read(self, fd, p, n):
        n = self.cc(n)
        for i in range(n): self.sti(p + i, 1, (i * 37 + 11) & 255)
        return n
    def c_write(self, fd, p, n): return n
    def c_abort(self): raise PathEnd('panic', ('abort', ''))
    def c___errno_location(self): return self.alloc(8, 0)
    def c_sqrt(self, x): return T_.fsqrt(x)
    def c_floor(self, x): return T_.fround('floor', x)
    def c_ceil(self, x): return T_.fround('ceil', x)

    # ---- stubs
    def I_format(self, ret, *a):
        """alloc::fmt::format: message text is outside every property -> empty String"""
        self.sti(ret, 8, 0); self.sti(ret + 8, 8, 1); self.sti(ret + 16, 8, 0)
    def I_randkeys(self, *a):
        """hash seeds: fixed (0,0)"""
        return (0, 0)
