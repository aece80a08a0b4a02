"""Finite-domain back end: decides a conjunction of terms exactly when the symbols of the path have few joint values.

A level holds the joint assignments (indices into the mixed-radix product of the domains) that satisfy a prefix of the path
condition; a query is evaluated exactly (two's complement integers, IEEE doubles rounded to nearest) over those that are left.
It answers the same question as the other back ends, satisfiable or not, for every assignment within the bounds."""
import numpy as np
from . import term as T_
from .term import T, sgn
np.seterr(all='ignore')
U = np.uint64
M64 = (1 << 64) - 1

class Unsupported(Exception):
    pass

def _mask(v, w):
    if w >= 64: return v
    return v & U((1 << w) - 1)
def _signed(v, w):
    """uint64 array of width w -> int64 array"""
    if w < 64:
        s = U(1 << (w - 1))
        v = (v ^ s) - s
    return v.view(np.int64) if v.__class__ is np.ndarray else np.int64(sgn(int(v), 64))
def _u(x):
    return x.view(U)

class Level:
    __slots__ = ('cid', 'rows', 'loc', 'pos', 'idx', 'same')
    def __init__(self, cid, rows, same):
        self.cid = cid; self.rows = rows; self.idx = 0; self.same = same
        if same is not None:
            self.loc = same.loc; self.pos = same.pos
        else:
            self.loc = {}; self.pos = {}

class Fd:
    def __init__(self, limit):
        self.limit = limit
        self.key = None
        self.levels = []       # (constraint id, rows, memo)
        self.memo = {}

    def base(self, syms):
        key = tuple((n.id, n.a[0], n.w, n.a[1], n.a[2]) for n in syms)
        if key == self.key: return True
        size = 1
        for n in syms:
            size *= n.a[2] - n.a[1] + 1
            if size > self.limit: return False
        self.key = key
        self.syms = {}
        st = 1
        for n in syms:
            k = n.a[2] - n.a[1] + 1
            self.syms[n.a[0]] = (st, k, n.a[1], n.w)
            st *= k
        self.levels = [Level(None, np.arange(size, dtype=np.int64), None)]
        self.memo = {}
        return True

    def column(self, i, rows):
        st, k, lo, w = self.syms[i]
        v = ((rows // st) % k).astype(np.int64).view(U) + U(lo & M64)
        return _mask(v, w)

    def sync(self, pc):
        """bring the levels in line with the path condition"""
        L = self.levels
        n = 0
        while n < len(pc) and n + 1 < len(L) and L[n + 1].cid == pc[n].id: n += 1
        del L[n + 1:]
        if len(self.memo) > 30000:
            self.memo = {k: e for k, e in self.memo.items() if e[0].idx < len(L) and L[e[0].idx] is e[0]}
            if len(self.memo) > 25000: self.memo = {}
        for c in pc[n:]:
            lv = L[-1]
            if len(lv.rows):
                keep = np.nonzero(self.truth(c, lv))[0]
                if len(keep) == len(lv.rows):
                    L.append(Level(c.id, lv.rows, lv))
                else: L.append(Level(c.id, lv.rows[keep], None))
            else:
                L.append(Level(c.id, lv.rows, None))
            L[-1].idx = len(L) - 1
        return L[-1]

    def recall(self, e, lv):
        """a column computed for an earlier level, restricted to the rows left"""
        d = e[0]
        if d is lv: return e[1]
        if d.idx >= len(self.levels) or self.levels[d.idx] is not d: return None
        p = lv.pos.get(d.idx)
        if p is None:
            p = lv.pos[d.idx] = np.searchsorted(d.rows, lv.rows)
        return e[1][p]

    def check(self, pc, goal, syms):
        if not self.base(syms): return None
        try:
            lv = self.sync(pc)
            rows = lv.rows
            if not len(rows): raise Unsupported('empty path condition')
            m = self.truth(goal, lv)
        except Unsupported as e:
            self.key = None
            return None
        k = np.nonzero(m)[0]
        if not len(k): return ('unsat', None, 'fd')
        r = int(rows[k[0]])
        mod = {}
        for i, (st, n, lo, w) in self.syms.items():
            mod[i] = ((r // st) % n + lo) & ((1 << w) - 1)
        return ('sat', mod, 'fd')

    CH = 8192
    def truth(self, c, lv):
        rows = lv.rows
        if len(rows) <= self.CH:
            v = self.eval(c, lv)
            return v != 0 if v.__class__ is np.ndarray and v.shape else np.full(len(rows), bool(v))
        out = []
        for i in range(0, len(rows), self.CH):
            r = Level(None, rows[i:i + self.CH], None)
            old = self.memo; self.memo = {}
            v = self.eval(c, r)
            self.memo = old
            out.append(v != 0 if v.__class__ is np.ndarray and v.shape else np.full(len(r.rows), bool(v)))
        return np.concatenate(out)

    def eval(self, n, lv):
        if n.__class__ is not T: return n
        root = lv.same
        G = self.memo
        loc = lv.loc
        def have(x):
            if x.id in loc: return True
            e = G.get(x.id)
            if e is None: return False
            r = self.recall(e, lv)
            if r is None: return False
            loc[x.id] = r
            return True
        if have(n): return loc[n.id]
        st = [n]
        while st:
            x = st[-1]
            if x.id in loc:
                st.pop(); continue
            pend = [y for y in x.a if y.__class__ is T and not have(y)]
            if pend:
                st.extend(pend); continue
            st.pop()
            r = self.one(x, lv.rows, loc)
            loc[x.id] = r
            if r.__class__ is np.ndarray and r.shape: G[x.id] = (lv, r)
        return loc[n.id]

    def one(self, n, rows, memo):
        op, w = n.op, n.w
        if op == 'sym': return self.column(n.a[0], rows)
        a = n.a
        aw = a[0].w if a[0].__class__ is T else (a[1].w if len(a) > 1 and a[1].__class__ is T else None)
        v = [memo[y.id] if y.__class__ is T else y for y in a]
        if op in _F:
            return _F[op](*[x if x.__class__ is np.ndarray else np.float64(x) for x in v])
        if op in ('flt', 'fle', 'feq'):
            x, y = (z if z.__class__ is np.ndarray else np.float64(z) for z in v)
            r = x < y if op == 'flt' else x <= y if op == 'fle' else x == y
            return r.astype(U)
        if op == 'isnan': return np.isnan(v[0]).astype(U)
        if op == 'fround':
            mode = v[1]
            f = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint, 'roundeven': np.rint, 'nearbyint': np.rint}.get(mode)
            if f is None: return self.slow(n, rows, v, aw, np.float64)
            return f(v[0])
        if op == 'd2i':
            if np.isnan(v[0]).any(): raise Unsupported('bits of NaN')
            return np.ascontiguousarray(v[0]).view(U)
        if op == 'f32r': return v[0].astype(np.float32).astype(np.float64)
        if op == 'd2i32':
            if np.isnan(v[0]).any(): raise Unsupported('bits of NaN')
            return v[0].astype(np.float32).view(np.uint32).astype(U)
        if op == 'b32d': return v[0].astype(np.uint32).view(np.float32).astype(np.float64)
        if op == 'i2bits': return np.ascontiguousarray(v[0]).view(np.float64)
        wide = (w.__class__ is int and w > 64) or (aw.__class__ is int and aw > 64)
        if wide:
            return self.slow(n, rows, v, aw, np.float64 if n.w == 'd' else object if n.w > 64 else U)
        if op == 'si2d': return _signed(v[0], aw).astype(np.float64)
        if op == 'ui2d': return v[0].astype(np.float64)
        if op == 'fscale': return np.ldexp(_signed(v[0], aw).astype(np.float64), -v[1])
        if op == 'ite':
            c = v[0] != 0
            if w == 'd':
                return np.where(c, v[1], v[2]).astype(np.float64)
            x, y = (z if z.__class__ is np.ndarray else U(z) for z in v[1:])
            return np.where(c, x, y).astype(U)
        v = [x if x.__class__ is np.ndarray else U(x) for x in v]
        if op == 'add': return _mask(v[0] + v[1], w)
        if op == 'sub': return _mask(v[0] - v[1], w)
        if op == 'mul': return _mask(v[0] * v[1], w)
        if op == 'and': return v[0] & v[1]
        if op == 'or': return v[0] | v[1]
        if op == 'xor': return v[0] ^ v[1]
        if op == 'not': return v[0] ^ U(1)
        if op == 'zext': return v[0]
        if op == 'trunc': return _mask(v[0], w)
        if op == 'sext': return _mask(_u(_signed(v[0], aw)), w)
        if op == 'eq': return (v[0] == v[1]).astype(U)
        if op == 'ult': return (v[0] < v[1]).astype(U)
        if op == 'slt': return (_signed(v[0], aw) < _signed(v[1], aw)).astype(U)
        if op in ('shl', 'lshr', 'ashr'):
            s = v[1]
            big = s >= U(w)
            s = np.where(big, U(0), s).astype(U)
            if op == 'shl': return np.where(big, U(0), _mask(v[0] << s, w)).astype(U)
            if op == 'lshr': return np.where(big, U(0), v[0] >> s).astype(U)
            x = _signed(v[0] if v[0].__class__ is np.ndarray else np.full(len(rows), v[0], U), w)
            s = np.where(big, U(w - 1), s).astype(np.int64)
            return _mask(_u(x >> s), w)
        return self.slow(n, rows, v, aw, np.float64 if w == 'd' else U)

    def slow(self, n, rows, v, aw, dt):
        """element by element with the scalar evaluator"""
        N = len(rows)
        cols = []
        for x in v:
            if x.__class__ is np.ndarray:
                l = x.tolist()
                cols.append(l if len(l) == N else l * N)
            else: cols.append([x if x.__class__ in (int, float, str) else x.item()] * N)
        f = T_._EV.get(n.op)
        w = n.w
        if f is not None: r = [f(t, w) for t in zip(*cols)]
        elif n.op == 'eq': r = [1 if p == q else 0 for p, q in zip(*cols)]
        elif n.op in ('ult', 'slt'): r = [1 if T_._cicmp(n.op, p, q, aw) else 0 for p, q in zip(*cols)]
        elif n.op == 'sext': r = [sgn(p, aw) & ((1 << w) - 1) for p, in zip(*cols)]
        elif n.op == 'si2d': r = [float(sgn(p, aw)) for p, in zip(*cols)]
        elif n.op == 'fscale':
            import math
            r = [math.ldexp(float(sgn(p, aw)), -q) for p, q in zip(*cols)]
        else: raise Unsupported(n.op)
        return np.array(r, dtype=dt)

def _neg(x): return -x
_F = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y, 'fdiv': lambda x, y: x / y,
      'fsqrt': np.sqrt, 'fneg': _neg, 'fabs': np.abs}
