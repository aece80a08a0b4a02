"""Term layer of the symbolic executor: a hash-consed DAG over machine integers
(bit-vectors), booleans (width 1) and IEEE doubles (width 'd'), with cheap interval
facts, an exact concrete evaluator, and lowerings to z3 (bit-vector/FP and, where
every operation provably stays within range, mathematical integers)."""
import struct, math
import z3

class NoInt(Exception):
    """the term cannot be lowered to the integer encoding"""

def f2b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def b2f(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]
def f2b32(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]
def b2f32(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'ulo', 'uhi', 'slo', 'shi', 'fx', 'fl', 'xi',
                 'zb', 'zi', 'ze', 'zf', 'syms', 'tz', 'hasf')
    def __repr__(self):
        return show(self, 6)

def show(n, d):
    if n.__class__ is not T:
        return repr(n)
    if d == 0:
        return '..'
    if n.op == 'sym':
        return 's%d' % n.a[0]
    return '(%s:%s %s)' % (n.op, n.w, ' '.join(show(x, d - 1) for x in n.a))

_tab = {}
_next = [1]
SYMS = {}          # index -> T

def reset_terms():
    _tab.clear()
    _fm.clear()
    SYMS.clear()

def _key(op, w, a):
    k = [op, w]
    for x in a:
        c = x.__class__
        if c is T:
            k.append((0, x.id))
        elif c is float:
            k.append((1, f2b(x)))
        else:
            k.append((2, x))
    return tuple(k)

def _mk(op, w, a):
    k = _key(op, w, a)
    n = _tab.get(k)
    if n is not None:
        return n
    n = T()
    n.op = op
    n.w = w
    n.a = a
    n.id = _next[0]
    _next[0] += 1
    n.fx = None
    n.fl = None
    n.xi = None
    n.zb = n.zi = n.ze = n.zf = None
    n.tz = 0
    s = None
    hf = (w == 'd')
    for x in a:
        if x.__class__ is T:
            hf = hf or x.hasf
            if s is None:
                s = x.syms
            elif x.syms is not s and not (x.syms <= s):
                s = s | x.syms
    n.syms = s if s is not None else frozenset()
    n.hasf = hf
    if w != 'd':
        n.ulo = 0
        n.uhi = (1 << w) - 1
        n.slo = -(1 << (w - 1))
        n.shi = (1 << (w - 1)) - 1
    _tab[k] = n
    return n

def _fix(n):
    """tighten signed/unsigned ranges against each other"""
    w = n.w
    h = 1 << (w - 1)
    if n.uhi < h:
        n.slo = max(n.slo, n.ulo); n.shi = min(n.shi, n.uhi)
    elif n.ulo >= h:
        n.slo = max(n.slo, n.ulo - 2 * h); n.shi = min(n.shi, n.uhi - 2 * h)
    if n.slo >= 0:
        n.ulo = max(n.ulo, n.slo); n.uhi = min(n.uhi, n.shi)
    elif n.shi < 0:
        n.ulo = max(n.ulo, n.slo + 2 * h); n.uhi = min(n.uhi, n.shi + 2 * h)

def _ur(n, lo, hi):
    if lo > n.ulo: n.ulo = lo
    if hi < n.uhi: n.uhi = hi
    _fix(n)
def _sr(n, lo, hi):
    if lo > n.slo: n.slo = lo
    if hi < n.shi: n.shi = hi
    _fix(n)

def urange(x):
    return (x, x) if x.__class__ is not T else (x.ulo, x.uhi)
def srange(x, w):
    if x.__class__ is not T:
        s = sgn(x, w)
        return s, s
    return x.slo, x.shi

def sym(idx, w, lo, hi, signed):
    n = _mk('sym', w, (idx, lo, hi, 1 if signed else 0))
    n.syms = frozenset((idx,))
    if signed:
        _sr(n, lo, hi)
    else:
        _ur(n, lo, hi)
    SYMS[idx] = n
    return n

def const_of(n):
    if n.__class__ is T and n.w != 'd':
        if n.ulo == n.uhi:
            return n.ulo
        if n.slo == n.shi:
            return n.slo & ((1 << n.w) - 1)
    return n

# ---------------------------------------------------------------- integers
def tzof(x):
    if x.__class__ is T:
        return x.tz
    if x == 0:
        return 1 << 20
    return (x & -x).bit_length() - 1

def _ck(a):
    """choice between two integer constants"""
    return a.op == 'ite' and a.w != 'd' and a.a[1].__class__ is not T and a.a[2].__class__ is not T

def add(a, b, w):
    if w == 1: return xor(a, b, 1)
    M = (1 << w) - 1
    if a.__class__ is not T:
        if b.__class__ is not T:
            return (a + b) & M
        a, b = b, a
    if b.__class__ is not T:
        if b == 0:
            return a
        if _ck(a): return ite(a.a[0], add(a.a[1], b, w), add(a.a[2], b, w), w)
        if a.op == 'add' and a.a[1].__class__ is not T:
            return add(a.a[0], (a.a[1] + b) & M, w)
        if w == 1:
            return xor(a, b, w)
    elif a.id > b.id:
        a, b = b, a
    n = _mk('add', w, (a, b))
    al, ah = urange(a); bl, bh = urange(b)
    if ah + bh <= M:
        _ur(n, al + bl, ah + bh)
    al, ah = srange(a, w); bl, bh = srange(b, w)
    h = 1 << (w - 1)
    if al + bl >= -h and ah + bh < h:
        _sr(n, al + bl, ah + bh)
    n.tz = min(tzof(a), tzof(b))
    return const_of(n)

def sub(a, b, w):
    if w == 1: return xor(a, b, 1)
    M = (1 << w) - 1
    if b.__class__ is not T:
        if a.__class__ is not T:
            return (a - b) & M
        return add(a, (-b) & M, w)
    if a is b:
        return 0
    if a.__class__ is T and a.op == 'add':
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    if a.__class__ is T and a.op in ('add', 'sub') and b.op in ('add', 'sub'):
        r = _cancel(a, b, w)
        if r: return sub(r[0], r[1], w)
    n = _mk('sub', w, (a, b))
    al, ah = urange(a); bl, bh = urange(b)
    if al >= bh:
        _ur(n, al - bh, ah - bl)
    al, ah = srange(a, w); bl, bh = srange(b, w)
    h = 1 << (w - 1)
    if al - bh >= -h and ah - bl < h:
        _sr(n, al - bh, ah - bl)
    n.tz = min(tzof(a), tzof(b))
    return const_of(n)

def mul(a, b, w):
    if w == 1: return and_(a, b, 1)
    M = (1 << w) - 1
    if a.__class__ is not T:
        if b.__class__ is not T:
            return (a * b) & M
        a, b = b, a
    if b.__class__ is not T:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0 and w > 1:
            return shl(a, b.bit_length() - 1, w)
    elif a.id > b.id:
        a, b = b, a
    n = _mk('mul', w, (a, b))
    al, ah = urange(a); bl, bh = urange(b)
    if ah * bh <= M:
        _ur(n, al * bl, ah * bh)
    al, ah = srange(a, w); bl, bh = srange(b, w)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    h = 1 << (w - 1)
    if min(c) >= -h and max(c) < h:
        _sr(n, min(c), max(c))
    n.tz = min(w, tzof(a) + tzof(b))
    return const_of(n)

def neg(a, w):
    return sub(0, a, w)

def not_(a):
    """boolean not"""
    if a.__class__ is not T:
        return a ^ 1
    if a.op == 'not':
        return a.a[0]
    return _mk('not', 1, (a,))

def and_(a, b, w):
    M = (1 << w) - 1
    if a.__class__ is not T:
        if b.__class__ is not T:
            return a & b
        a, b = b, a
    if a is b:
        return a
    if b.__class__ is not T:
        if b == 0:
            return 0
        if b == M:
            return a
        lo, hi = a.ulo, a.uhi
        t = (1 << hi.bit_length()) - 1
        if b & t == t:
            return a
        if _ck(a): return ite(a.a[0], a.a[1] & b, a.a[2] & b, w)
        if a.op == 'and' and a.a[1].__class__ is not T:
            return and_(a.a[0], a.a[1] & b, w)
        if a.op in ('zext',) and b & (b + 1) == 0:
            k = b.bit_length()
            if k >= a.a[0].w:
                return a
        if b & (b + 1) == 0 and a.op == 'or':
            # (x | y) & lowmask: drop parts that are multiples of the mask
            x, y = a.a
            if tzof(y) >= b.bit_length():
                return and_(x, b, w)
            if tzof(x) >= b.bit_length():
                return and_(y, b, w)
        if tzof(a) >= b.bit_length():
            return 0
        if a.op == 'or' and (b & (b + 1) or any(y.__class__ is T and _ck(y) for y in a.a)):
            x, y = and_(a.a[0], b, w), and_(a.a[1], b, w)
            if x.__class__ is not T or y.__class__ is not T or (x is a.a[0] and y.op == 'ite') or (y is a.a[1] and x.op == 'ite'):
                return or_(x, y, w)
        if a.op == 'or' and a.a[1].__class__ is not T and a.a[1] & b:
            return or_(and_(a.a[0], b, w), a.a[1] & b, w)
    elif a.id > b.id:
        a, b = b, a
    if w == 1:
        if (b.__class__ is T and b.op == 'not' and b.a[0] is a) or (a.op == 'not' and a.a[0] is b):
            return 0
    n = _mk('and', w, (a, b))
    _ur(n, 0, min(urange(a)[1], urange(b)[1]))
    if b.__class__ is not T:
        t = (b & -b) - 1
        if (b | t) & ((b | t) + 1) == 0 and (b | t) >= a.uhi:
            _ur(n, a.ulo & b, a.uhi & b)
    n.tz = min(w, max(tzof(a), tzof(b)))
    return const_of(n)

def or_(a, b, w):
    M = (1 << w) - 1
    if a.__class__ is not T:
        if b.__class__ is not T:
            return a | b
        a, b = b, a
    if a is b:
        return a
    if b.__class__ is not T:
        if b == 0:
            return a
        if b == M:
            return M
        if w > 1 and _ck(a): return ite(a.a[0], a.a[1] | b, a.a[2] | b, w)
        if a.op == 'or' and w > 1:
            x, y = a.a
            if y.__class__ is not T: return or_(x, y | b, w)
            if _ck(y): return or_(x, or_(y, b, w), w)
            if _ck(x): return or_(y, or_(x, b, w), w)
    elif a.id > b.id:
        a, b = b, a
    if w == 1:
        if (b.__class__ is T and b.op == 'not' and b.a[0] is a) or (a.op == 'not' and a.a[0] is b):
            return 1
    n = _mk('or', w, (a, b))
    al, ah = urange(a); bl, bh = urange(b)
    hi = (1 << max(ah.bit_length(), bh.bit_length())) - 1
    if tzof(a) >= bh.bit_length() or tzof(b) >= ah.bit_length():
        hi = ah + bh
        _ur(n, al + bl, hi)
    else:
        _ur(n, max(al, bl), hi)
    n.tz = min(w, tzof(a), tzof(b))
    return const_of(n)

def xor(a, b, w):
    M = (1 << w) - 1
    if a.__class__ is not T:
        if b.__class__ is not T:
            return a ^ b
        a, b = b, a
    if a is b:
        return 0
    if b.__class__ is not T:
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if a.op == 'xor' and a.a[1].__class__ is not T:
            return xor(a.a[0], a.a[1] ^ b, w)
    elif a.id > b.id:
        a, b = b, a
    if w == 1:
        # xor(not a, b) = not xor(a,b)
        if a.op == 'not':
            return not_(xor(a.a[0], b, 1))
        if b.op == 'not':
            return not_(xor(a, b.a[0], 1))
    n = _mk('xor', w, (a, b))
    ah = urange(a)[1]; bh = urange(b)[1]
    _ur(n, 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1)
    if b.__class__ is not T and b == M:
        _sr(n, -1 - a.shi, -1 - a.slo)
    n.tz = min(w, tzof(a), tzof(b))
    return const_of(n)

def shl(a, b, w):
    M = (1 << w) - 1
    if b.__class__ is not T:
        if b >= w:
            return 0
        if a.__class__ is not T:
            return (a << b) & M
        if b == 0:
            return a
        if a.op == 'shl' and a.a[1].__class__ is not T:
            return shl(a.a[0], a.a[1] + b, w)
    elif a.__class__ is not T and a == 0:
        return 0
    n = _mk('shl', w, (a, b))
    if b.__class__ is not T:
        if a.uhi << b <= M:
            _ur(n, a.ulo << b, a.uhi << b)
        h = 1 << (w - 1)
        if (a.slo << b) >= -h and (a.shi << b) < h:
            _sr(n, a.slo << b, a.shi << b)
        n.tz = min(w, a.tz + b)
    return const_of(n)

def lshr(a, b, w):
    if b.__class__ is not T:
        if b >= w:
            return 0
        if a.__class__ is not T:
            return a >> b
        if b == 0:
            return a
        if _ck(a): return ite(a.a[0], a.a[1] >> b, a.a[2] >> b, w)
        if a.op == 'lshr' and a.a[1].__class__ is not T:
            return lshr(a.a[0], a.a[1] + b, w)
        if a.op == 'shl' and a.a[1].__class__ is not T and a.a[1] == b and (a.a[0].uhi << b) < (1 << w):
            return a.a[0]
        if a.op == 'or':
            x, y = a.a
            if urange(y)[1] >> b == 0:
                return lshr(x, b, w)
            if urange(x)[1] >> b == 0:
                return lshr(y, b, w)
            if y.__class__ is not T or tzof(x) >= b or tzof(y) >= b:
                return or_(lshr(x, b, w), lshr(y, b, w), w)
        if a.op == 'zext' and b >= a.a[0].w:
            return 0
    elif a.__class__ is not T and a == 0:
        return 0
    n = _mk('lshr', w, (a, b))
    if b.__class__ is not T:
        _ur(n, a.ulo >> b, a.uhi >> b)
    else:
        _ur(n, 0, urange(a)[1])
    return const_of(n)

def ashr(a, b, w):
    if b.__class__ is not T:
        if a.__class__ is not T:
            return (sgn(a, w) >> min(b, w)) & ((1 << w) - 1)
        if b == 0:
            return a
        if a.slo >= 0:
            return lshr(a, b, w)
    n = _mk('ashr', w, (a, b))
    if b.__class__ is not T:
        _sr(n, a.slo >> min(b, w), a.shi >> min(b, w))
    return const_of(n)

def udiv(a, b, w):
    if a.__class__ is not T and b.__class__ is not T:
        return a // b if b else 0
    if b.__class__ is not T and b == 1:
        return a
    n = _mk('udiv', w, (a, b))
    al, ah = urange(a); bl, bh = urange(b)
    if bl > 0:
        _ur(n, al // bh, ah // bl)
    return const_of(n)

def urem(a, b, w):
    if a.__class__ is not T and b.__class__ is not T:
        return a % b if b else a
    n = _mk('urem', w, (a, b))
    bl, bh = urange(b)
    if bl > 0:
        _ur(n, 0, min(bh - 1, urange(a)[1]))
    return const_of(n)

def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

def sdiv(a, b, w):
    if a.__class__ is not T and b.__class__ is not T:
        sb = sgn(b, w)
        return _tdiv(sgn(a, w), sb) & ((1 << w) - 1) if sb else 0
    n = _mk('sdiv', w, (a, b))
    al, ah = srange(a, w); bl, bh = srange(b, w)
    if bl > 0:
        c = [_tdiv(x, y) for x in (al, ah) for y in (bl, bh)]
        _sr(n, min(c), max(c))
    return const_of(n)

def srem(a, b, w):
    if a.__class__ is not T and b.__class__ is not T:
        sa, sb = sgn(a, w), sgn(b, w)
        return (sa - sb * _tdiv(sa, sb)) & ((1 << w) - 1) if sb else a
    n = _mk('srem', w, (a, b))
    return n

def zext(a, w0, w):
    if a.__class__ is not T:
        return a
    if w0 == w:
        return a
    if a.op == 'zext':
        return zext(a.a[0], a.a[0].w, w)
    n = _mk('zext', w, (a,))
    _ur(n, a.ulo, a.uhi)
    n.tz = a.tz
    return const_of(n)

def sext(a, w0, w):
    if a.__class__ is not T:
        return sgn(a, w0) & ((1 << w) - 1)
    if w0 == w:
        return a
    if w0 > 1 and a.slo >= 0:
        return zext(a, w0, w)
    if a.op == 'sext':
        return sext(a.a[0], a.a[0].w, w)
    n = _mk('sext', w, (a,))
    if w0 == 1:
        _sr(n, -1, 0)
    else:
        _sr(n, a.slo, a.shi)
    n.tz = a.tz
    return const_of(n)

def trunc(a, w0, w):
    if a.__class__ is not T:
        return a & ((1 << w) - 1)
    if w0 == w:
        return a
    op = a.op
    if op in ('zext', 'sext'):
        b = a.a[0]
        if b.w == w:
            return b
        if b.w > w:
            return trunc(b, b.w, w)
        return zext(b, b.w, w) if op == 'zext' else sext(b, b.w, w)
    if op == 'trunc':
        return trunc(a.a[0], a.a[0].w, w)
    if op == 'or':
        x, y = a.a
        if tzof(y) >= w:
            return trunc(x, w0, w) if x.__class__ is T else x & ((1 << w) - 1)
        if tzof(x) >= w:
            return trunc(y, w0, w) if y.__class__ is T else y & ((1 << w) - 1)
    if op == 'and' and a.a[1].__class__ is not T:
        m = a.a[1]
        if (m & ((1 << w) - 1)) == (1 << w) - 1:
            return trunc(a.a[0], w0, w)
    if op == 'ite':
        c, x, y = a.a
        if x.__class__ is not T or y.__class__ is not T:
            return ite(c, trunc(x, w0, w), trunc(y, w0, w), w)
    if w == 1:
        # low bit: value known to be 0/1 -> compare
        if a.uhi <= 1:
            return icmp('ne', a, 0, w0)
        return icmp('ne', and_(a, 1, w0), 0, w0) if not (a.op == 'and' and a.a[1].__class__ is not T and a.a[1] == 1) else _mk('trunc', 1, (a,))
    n = _mk('trunc', w, (a,))
    if a.uhi < (1 << w):
        _ur(n, a.ulo, a.uhi)
    if a.slo >= -(1 << (w - 1)) and a.shi < (1 << (w - 1)):
        _sr(n, a.slo, a.shi)
    n.tz = min(w, a.tz)
    return const_of(n)

_NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule',
        'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
_SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
         'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

def _cicmp(p, a, b, w):
    if p == 'eq': return 1 if a == b else 0
    if p == 'ne': return 1 if a != b else 0
    if p[0] == 's':
        a = sgn(a, w); b = sgn(b, w)
    k = p[1:]
    if k == 'lt': return 1 if a < b else 0
    if k == 'le': return 1 if a <= b else 0
    if k == 'gt': return 1 if a > b else 0
    return 1 if a >= b else 0

def _lin(x, s, at, c, w, d):
    if x.__class__ is not T:
        c[0] += s * x
    elif x.op == 'add' and d:
        _lin(x.a[0], s, at, c, w, d - 1); _lin(x.a[1], s, at, c, w, d - 1)
    elif x.op == 'sub' and d:
        _lin(x.a[0], s, at, c, w, d - 1); _lin(x.a[1], -s, at, c, w, d - 1)
    else:
        k = at.get(x.id)
        at[x.id] = (x, s + (k[1] if k else 0))

def _cancel(a, b, w):
    """a == b modulo 2^w with common summands removed; None when nothing cancels"""
    at = {}; c = [0]
    _lin(a, 1, at, c, w, 6); na = len(at)
    bt = {}; cb = [0]
    _lin(b, 1, bt, cb, w, 6)
    if not any(k in at and at[k][1] * v[1] > 0 for k, v in bt.items()): return None
    for k, v in bt.items():
        at[k] = (v[0], (at[k][1] if k in at else 0) - v[1])
    if any(abs(v[1]) > 1 for v in at.values()): return None
    k = (c[0] - cb[0]) & ((1 << w) - 1)
    l = 0; r = (-k) & ((1 << w) - 1)
    for x, v in sorted(at.values(), key=lambda t: t[0].id):
        if v > 0: l = add(l, x, w)
        elif v < 0: r = add(r, x, w)
    return l, r

def icmp(p, a, b, w):
    if a.__class__ is not T:
        if b.__class__ is not T:
            return _cicmp(p, a, b, w)
        a, b, p = b, a, _SWAP[p]
    if a is b:
        return 1 if p in ('eq', 'ule', 'uge', 'sle', 'sge') else 0
    if p == 'ne':
        return not_(icmp('eq', a, b, w))
    if p in ('ugt', 'sgt'):
        if b.__class__ is T:
            return icmp(_SWAP[p], b, a, w)
        return not_(icmp('ule' if p == 'ugt' else 'sle', a, b, w))
    if p in ('uge', 'sge'):
        return not_(icmp('ult' if p == 'uge' else 'slt', a, b, w))
    if w == 1:
        if p == 'eq':
            return not_(xor(a, b, 1))
        if p == 'ult':
            return and_(not_(a), b, 1)
        if p == 'ule':
            return or_(not_(a), b, 1)
        if p == 'slt':  # -1 < 0
            return and_(a, not_(b), 1)
        return or_(a, not_(b), 1)
    if p == 'eq':
        al, ah = urange(a); bl, bh = urange(b)
        if ah < bl or bh < al:
            return 0
        al, ah = srange(a, w); bl, bh = srange(b, w)
        if ah < bl or bh < al:
            return 0
        if b.__class__ is not T:
            op = a.op
            if op == 'zext':
                w2 = a.a[0].w
                if b >> w2:
                    return 0
                return icmp('eq', a.a[0], b, w2) if w2 > 1 else (a.a[0] if b == 1 else not_(a.a[0]))
            if op == 'sext':
                w2 = a.a[0].w
                if sext(b & ((1 << w2) - 1), w2, w) != b:
                    return 0
                b2 = b & ((1 << w2) - 1)
                return icmp('eq', a.a[0], b2, w2) if w2 > 1 else (a.a[0] if b2 == 1 else not_(a.a[0]))
            if op == 'ite':
                c, x, y = a.a
                if x.__class__ is not T or y.__class__ is not T:
                    return bite(c, icmp('eq', x, b, w), icmp('eq', y, b, w))
            if op == 'add' and a.a[1].__class__ is not T:
                return icmp('eq', a.a[0], (b - a.a[1]) & ((1 << w) - 1), w)
            if op == 'xor' and a.a[1].__class__ is not T:
                return icmp('eq', a.a[0], b ^ a.a[1], w)
            if op == 'sub' and b == 0:
                return icmp('eq', a.a[0], a.a[1], w)
            if op == 'xor' and b == 0:
                return icmp('eq', a.a[0], a.a[1], w)
            if op == 'and' and b == 0 and a.a[1].__class__ is not T and a.a[0].__class__ is T and a.a[0].op == 'xor':
                return icmp('eq', and_(a.a[0].a[0], a.a[1], w), and_(a.a[0].a[1], a.a[1], w), w)
        elif a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
            return icmp('eq', a.a[0], b.a[0], a.a[0].w)
        elif a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
            return icmp('eq', a.a[0], b.a[0], a.a[0].w)
        elif a.op in ('add', 'sub') or b.op in ('add', 'sub'):
            r = _cancel(a, b, w)
            if r: return icmp('eq', r[0], r[1], w)
        if b.__class__ is T and a.id > b.id:
            a, b = b, a
        return _mk('eq', 1, (a, b))
    if p in ('ult', 'ule'):
        al, ah = urange(a); bl, bh = urange(b)
    else:
        al, ah = srange(a, w); bl, bh = srange(b, w)
    if p[1:] == 'lt':
        if ah < bl: return 1
        if al >= bh: return 0
    else:
        if ah <= bl: return 1
        if al > bh: return 0
    if p[0] == 's' and a.__class__ is T and a.slo >= 0 and bl >= 0:
        return icmp('u' + p[1:], a, b, w)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.__class__ is T and x.op == 'ite' and y.__class__ is not T:
            c, x1, x2 = x.a
            if x1.__class__ is not T or x2.__class__ is not T:
                if sw:
                    return bite(c, icmp(p, y, x1, w), icmp(p, y, x2, w))
                return bite(c, icmp(p, x1, y, w), icmp(p, x2, y, w))
    if a.__class__ is T and a.op in ('zext', 'sext'):
        w2 = a.a[0].w
        if w2 > 1:
            if b.__class__ is T and b.op == a.op and b.a[0].w == w2:
                if a.op == 'zext':
                    return icmp('u' + p[1:], a.a[0], b.a[0], w2)
                if p[0] == 's':
                    return icmp(p, a.a[0], b.a[0], w2)
            if b.__class__ is not T:
                if a.op == 'zext' and (p[0] == 'u' or sgn(b, w) >= 0) and b < (1 << w2):
                    return icmp('u' + p[1:], a.a[0], b, w2)
                if a.op == 'sext' and p[0] == 's' and sext(b & ((1 << w2) - 1), w2, w) == b:
                    return icmp(p, a.a[0], b & ((1 << w2) - 1), w2)
    if p[1:] == 'le':
        # a <= b  ==  not (b < a)
        q = p[0] + 'lt'
        return not_(icmp(q, b, a, w)) if b.__class__ is T else not_(_mk(q, 1, (b, a)))
    return _mk(p, 1, (a, b))

def bite(c, x, y):
    """boolean ite"""
    if c.__class__ is not T:
        return x if c else y
    if x.__class__ is not T and y.__class__ is not T:
        if x == y: return x
        return c if x else not_(c)
    if x.__class__ is not T:
        return or_(c, y, 1) if x else and_(not_(c), y, 1)
    if y.__class__ is not T:
        return or_(not_(c), x, 1) if y else and_(c, x, 1)
    if x is y:
        return x
    return _mk('ite', 1, (c, x, y))

def ite(c, x, y, w):
    if c.__class__ is not T:
        return x if c else y
    if x is y:
        return x
    if x.__class__ is not T and y.__class__ is not T:
        if x.__class__ is float:
            if f2b(x) == f2b(y):
                return x
        elif x == y:
            return x
    if w == 1:
        return bite(c, x, y)
    if c.op == 'not':
        return ite(c.a[0], y, x, w)
    if x.__class__ is T and x.op == 'ite' and x.a[0] is c:
        return ite(c, x.a[1], y, w)
    if y.__class__ is T and y.op == 'ite' and y.a[0] is c:
        return ite(c, x, y.a[2], w)
    if w == 'd':
        n = _mk('ite', 'd', (c, x, y))
        e1 = fxof(x); e2 = fxof(y)
        if e1 and e2:
            k = max(e1[0], e2[0])
            a = _al(e1, k); b = _al(e2, k)
            lo = min(a[0], b[0]); hi = max(a[1], b[1])
            if max(-lo, hi) <= 1 << 53:
                n.fx = (k, lo, hi, e1[3] or e2[3])
                A, B = xiof(x), xiof(y)
                if XI and A and B:
                    r = xalign(A, B)
                    if r: return _xset(n, (ite(c, r[0], r[1], r[3]), r[2], r[3]))
        l1 = flof(x); l2 = flof(y)
        if l1 and l2:
            n.fl = (min(l1[0], l2[0]), max(l1[1], l2[1]))
        return n
    n = _mk('ite', w, (c, x, y))
    al, ah = urange(x); bl, bh = urange(y)
    _ur(n, min(al, bl), max(ah, bh))
    al, ah = srange(x, w); bl, bh = srange(y, w)
    _sr(n, min(al, bl), max(ah, bh))
    n.tz = min(w, tzof(x), tzof(y))
    return n

def umin(a, b, w): return ite(icmp('ult', a, b, w), a, b, w)
def umax(a, b, w): return ite(icmp('ult', a, b, w), b, a, w)
def smin(a, b, w): return ite(icmp('slt', a, b, w), a, b, w)
def smax(a, b, w): return ite(icmp('slt', a, b, w), b, a, w)
def iabs(a, w):
    if a.__class__ is T and a.slo >= 0:
        return a
    n = ite(icmp('slt', a, 0, w), neg(a, w), a, w)
    if n.__class__ is T and n.op == 'ite' and a.slo > -(1 << (w - 1)):
        _sr(n, 0, max(abs(a.slo), abs(a.shi)))
    return n

def ctlz(a, w):
    if a.__class__ is not T:
        return w - a.bit_length()
    r = w
    for i in range(w):
        r = ite(icmp('ne', and_(a, 1 << i, w), 0, w), w - 1 - i, r, w)
    return r
def cttz(a, w):
    if a.__class__ is not T:
        return (a & -a).bit_length() - 1 if a else w
    r = w
    for i in reversed(range(w)):
        r = ite(icmp('ne', and_(a, 1 << i, w), 0, w), i, r, w)
    return r
def ctpop(a, w):
    if a.__class__ is not T:
        return bin(a).count('1')
    r = 0
    for i in range(w):
        r = add(r, and_(lshr(a, i, w), 1, w), w)
    return r

def scmp(a, b, w0, w):
    M = (1 << w) - 1
    return ite(icmp('slt', a, b, w0), M, zext(icmp('ne', a, b, w0), 1, w), w)
def ucmp(a, b, w0, w):
    M = (1 << w) - 1
    return ite(icmp('ult', a, b, w0), M, zext(icmp('ne', a, b, w0), 1, w), w)

# ---------------------------------------------------------------- doubles
def fxof(x):
    """(k, lo, hi, may_be_negative_zero): value = n * 2^-k with integer lo<=n<=hi, exact"""
    if x.__class__ is T:
        return x.fx
    if x != x or math.isinf(x):
        return None
    m, e = math.frexp(x)
    if m == 0.0:
        return (0, 0, 0, math.copysign(1, x) < 0)
    m = int(m * (1 << 53)); e -= 53
    while m % 2 == 0:
        m //= 2; e += 1
    if e >= 0:
        n = m << e if e < 200 else None
        if n is None or abs(n) > 1 << 53:
            return None
        return (0, n, n, False)
    if e < -60:
        return None
    return (-e, m, m, False)

def _al(e, k):
    s = k - e[0]
    return e[1] << s, e[2] << s

def flof(x):
    if x.__class__ is T:
        if x.fl is not None:
            return x.fl
        if x.fx is not None:
            k = x.fx[0]
            return (math.ldexp(x.fx[1], -k), math.ldexp(x.fx[2], -k))
        return None
    if x != x or math.isinf(x):
        return None
    return (x, x)

def _setfx(n, k, lo, hi, nz):
    if max(-lo, hi) <= 1 << 53 and k <= 60:
        n.fx = (k, lo, hi, nz)

def _fin(*v):
    for x in v:
        if x != x or math.isinf(x):
            return False
    return True

def _wfor(lo, hi):
    m = max(hi, -lo - 1)
    return 64 if m < 1 << 63 else 128 if m < 1 << 127 else 256 if m < 1 << 255 else 0

def xiof(x):
    """(integer term or constant, k, width): the value of an exact double is n * 2^-k; the width holds it signed"""
    if x.__class__ is T:
        return x.xi
    e = fxof(x)
    if e is None:
        return None
    return (e[1] & M64_, e[0], 64)
M64_ = (1 << 64) - 1

def _sx(x, w0, w):
    if w0 == w: return x
    if x.__class__ is not T: return sgn(x, w0) & ((1 << w) - 1)
    return sext(x, w0, w) if w > w0 else trunc(x, w0, w)

def _srx(x, w):
    return srange(x, w)

def xalign(A, B):
    """both at one scale and width with room for one more bit"""
    (x, k1, w1), (y, k2, w2) = A, B
    k = max(k1, k2)
    l1, h1 = srange(x, w1); l2, h2 = srange(y, w2)
    l1 <<= k - k1; h1 <<= k - k1; l2 <<= k - k2; h2 <<= k - k2
    w = _wfor(min(l1, l2) * 2 - 1, max(h1, h2) * 2 + 1)
    if not w: return None
    w = max(w, w1, w2)
    x = _sx(x, w1, w); y = _sx(y, w2, w)
    if k > k1: x = shl(x, k - k1, w)
    if k > k2: y = shl(y, k - k2, w)
    return x, y, k, w

def xneg(A):
    x, k, w = A
    if srange(x, w)[0] == -(1 << (w - 1)):
        x = _sx(x, w, 2 * w if w < 64 else w + 64); w = 2 * w if w < 64 else w + 64
    return neg(x, w), k, w

def xmul(A, B):
    (x, k1, w1), (y, k2, w2) = A, B
    l1, h1 = srange(x, w1); l2, h2 = srange(y, w2)
    c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    w = _wfor(min(c), max(c))
    if not w: return None
    w = max(w, w1, w2)
    return mul(_sx(x, w1, w), _sx(y, w2, w), w), k1 + k2, w

def _shl_nowrap(x):
    """x == y << c as signed integers"""
    if x.op != 'shl' or x.a[1].__class__ is T or x.a[0].__class__ is not T: return None
    y, c = x.a; h = 1 << (x.w - 1)
    if (y.slo << c) >= -h and (y.shi << c) < h: return y, c
    return None

def canon(x, w, W):
    """sign-extend x to width W, pushed through sums that do not wrap"""
    if x.__class__ is not T: return sgn(x, w) & ((1 << W) - 1)
    op = x.op
    if op == 'sext' and x.a[0].__class__ is T and x.a[0].w > 1: return canon(x.a[0], x.a[0].w, W)
    if op == 'zext' and x.a[0].__class__ is T and x.a[0].w > 1:
        y = x.a[0]
        if y.op in ('add', 'or', 'shl') and y.w >= 32:
            z = canonu(y, y.w, W)
            if z is not None: return z
        return zext(y, y.w, W)
    if x.ulo == 0 and x.slo >= 0 and op in ('add', 'or', 'shl'):
        z = canonu(x, w, W)
        if z is not None: return z
    return _sx(x, w, W)

def canonu(x, w, W):
    """zero-extend, likewise; None when the form is not recognised"""
    if x.__class__ is not T: return x
    if x.op == 'zext' and x.a[0].__class__ is T and x.a[0].w > 1:
        return canonu(x.a[0], x.a[0].w, W)
    if x.op == 'or' and (tzof(x.a[0]) >= urange(x.a[1])[1].bit_length() or tzof(x.a[1]) >= urange(x.a[0])[1].bit_length()) or \
       x.op == 'add' and urange(x.a[0])[1] + urange(x.a[1])[1] < 1 << w:
        p, q = canonu(x.a[0], w, W), canonu(x.a[1], w, W)
        return add(p, q, W)
    if x.op == 'shl' and x.a[1].__class__ is not T and x.a[0].__class__ is T and x.a[0].uhi << x.a[1] < 1 << w:
        return shl(canonu(x.a[0], w, W), x.a[1], W)
    return zext(x, w, W) if W > w else x

def fromint(x, k, w):
    """the double nearest to x * 2^-k (x signed, no overflow or underflow)"""
    if x.__class__ is not T:
        return math.ldexp(float(sgn(x, w)), -k)
    while True:
        r = _shl_nowrap(x)
        if r is None or (k <= 0 and max(-x.slo, x.shi) <= 1 << 53): break
        if k > 0 and r[1] > k:
            if max(-x.slo, x.shi) <= 1 << 53: break
        x = r[0]; k -= r[1]
    lo, hi = x.slo, x.shi
    if max(-lo, hi) > 1 << 53:
        x = canon(x, w, 128 if w <= 128 else w); w = max(w, 128)
        if x.__class__ is not T: return math.ldexp(float(sgn(x, w)), -k)
    elif w > 64:
        x = trunc(x, w, 64); w = 64
        if x.__class__ is not T: return math.ldexp(float(sgn(x, w)), -k)
    if w <= 64:
        while x.op == 'sext' and x.a[0].__class__ is T and x.a[0].w > 1:
            x = x.a[0]; w = x.w
        if x.op == 'zext' and x.a[0].__class__ is T and x.a[0].w > 1 and k == 0:
            return i2d(x.a[0], x.a[0].w, False)
    if k == 0:
        return i2d(x, w, True)
    n = _mk('fscale', 'd', (x, k))
    lo, hi = x.slo, x.shi
    n.fl = (math.ldexp(float(lo), -k), math.ldexp(float(hi), -k))
    if max(-lo, hi) <= 1 << 53 and -200 <= k <= 1000:
        n.fx = (k, lo, hi, False)
        n.xi = (x, k, w)
    return n

def _xset(n, v):
    """v = (x, k, w) exact value of n; returns the canonical term when n cannot be -0"""
    if n.__class__ is not T or n.fx is None or v is None:
        return n
    x, k, w = v
    if not n.fx[3]:
        return fromint(x, k, w)
    n.xi = v
    return n

def _flt0(a):
    """exact value, never -0"""
    if a.__class__ is T:
        return a.fx is not None and not a.fx[3] and a.xi is not None
    return fxof(a) is not None and not (a == 0.0 and f2b(a) >> 63)

def fadd(a, b):
    if a.__class__ is not T and b.__class__ is not T:
        return a + b
    if b.__class__ is T and b.op == 'fneg': return fsub(a, b.a[0])
    if a.__class__ is T and a.op == 'fneg': return fsub(b, a.a[0])
    if a.__class__ is T and b.__class__ is T and a.id > b.id or a.__class__ is not T:
        a, b = b, a
    if b.__class__ is not T and b == 0.0:
        e = a.fx
        if f2b(b) >> 63 or (e and not e[3]):
            return a
    if XI and (_flt0(a) or _flt0(b)):
        A, B = xiof(a), xiof(b)
        if A and B:
            r = xalign(A, B)
            if r: return fromint(add(r[0], r[1], r[3]), r[2], r[3])
    n = _mk('fadd', 'd', (a, b))
    e1, e2 = fxof(a), fxof(b)
    if e1 and e2:
        k = max(e1[0], e2[0])
        x, y = _al(e1, k), _al(e2, k)
        _setfx(n, k, x[0] + y[0], x[1] + y[1], e1[3] and e2[3])
    l1, l2 = flof(a), flof(b)
    if l1 and l2:
        r = (l1[0] + l2[0], l1[1] + l2[1])
        if _fin(*r):
            n.fl = r
    return n

def fsub(a, b):
    if a.__class__ is not T and b.__class__ is not T:
        return a - b
    if b.__class__ is T and b.op == 'fneg' and not (a.__class__ is T and a.op == 'fneg'): return fadd(a, b.a[0])
    if b.__class__ is not T and b == 0.0 and not f2b(b) >> 63:
        return a
    e1, e2 = fxof(a), fxof(b)
    if a is b and e1:
        return 0.0
    if XI and _flt0(a):
        A, B = xiof(a), xiof(b)
        if A and B:
            r = xalign(A, B)
            if r: return fromint(sub(r[0], r[1], r[3]), r[2], r[3])
    n = _mk('fsub', 'd', (a, b))
    if e1 and e2:
        k = max(e1[0], e2[0])
        x, y = _al(e1, k), _al(e2, k)
        # -0 only from (-0) - (+0)
        _setfx(n, k, x[0] - y[1], x[1] - y[0], e1[3])
    l1, l2 = flof(a), flof(b)
    if l1 and l2:
        r = (l1[0] - l2[1], l1[1] - l2[0])
        if _fin(*r):
            n.fl = r
    return n

def fmul(a, b):
    if a.__class__ is not T and b.__class__ is not T:
        return a * b
    if a.__class__ is T and b.__class__ is T and a.id > b.id or a.__class__ is not T:
        a, b = b, a
    if b.__class__ is not T and b == 1.0:
        return a
    if XI and a.xi is None and a.op in ('si2d', 'fscale') and b.__class__ is not T and b > 0 and math.frexp(b)[0] == 0.5 and a.a[0].w > 1:
        return fromint(a.a[0], (a.a[1] if a.op == 'fscale' else 0) - math.frexp(b)[1] + 1, a.a[0].w)
    n = _mk('fmul', 'd', (a, b))
    e1, e2 = fxof(a), fxof(b)
    if XI and e1 and e2:
        A, B = xiof(a), xiof(b)
        r = xmul(A, B) if A and B else None
        if r:
            z1 = e1[1] <= 0 <= e1[2]
            z2 = e2[1] <= 0 <= e2[2]
            neg1 = e1[1] < 0 or e1[3]
            neg2 = e2[1] < 0 or e2[3]
            nz = (z1 and neg2) or (z2 and neg1) or e1[3] or e2[3]
            if a is b or not nz:
                return fromint(*r)
            if max(-min(srange(r[0], r[2])), max(srange(r[0], r[2]))) <= 1 << 53 and r[1] <= 60: n.xi = r
    if e1 and e2:
        c = (e1[1] * e2[1], e1[1] * e2[2], e1[2] * e2[1], e1[2] * e2[2])
        if a is b:
            lo = 0 if e1[1] <= 0 <= e1[2] else min(e1[1] ** 2, e1[2] ** 2)
            _setfx(n, e1[0] * 2, lo, max(c), False)
        else:
            z1 = e1[1] <= 0 <= e1[2]
            z2 = e2[1] <= 0 <= e2[2]
            neg1 = e1[1] < 0 or e1[3]
            neg2 = e2[1] < 0 or e2[3]
            nz = (z1 and neg2) or (z2 and neg1) or e1[3] or e2[3]
            _setfx(n, e1[0] + e2[0], min(c), max(c), nz)
    l1, l2 = flof(a), flof(b)
    if l1 and l2:
        c = (l1[0] * l2[0], l1[0] * l2[1], l1[1] * l2[0], l1[1] * l2[1])
        if _fin(*c):
            n.fl = (0.0 if a is b and l1[0] <= 0 <= l1[1] else min(c), max(c))
    return n

def cfdiv(a, b):
    if b == 0.0:
        if a != a or a == 0.0:
            return math.nan
        s = math.copysign(1, a) * math.copysign(1, b)
        return math.inf * s
    try:
        return a / b
    except OverflowError:
        return math.inf * math.copysign(1, a) * math.copysign(1, b)

def fdiv(a, b):
    if a.__class__ is not T and b.__class__ is not T:
        return cfdiv(a, b)
    if b.__class__ is not T and b == 1.0:
        return a
    n = _mk('fdiv', 'd', (a, b))
    e1 = fxof(a)
    if e1 and b.__class__ is not T and _fin(b) and b != 0:
        m, e = math.frexp(b)
        if abs(m) == 0.5:
            sh = e - 1       # b = +-2^sh
            s = 1 if m > 0 else -1
            lo, hi = sorted((e1[1] * s, e1[2] * s))
            nz = e1[3] if s > 0 else (e1[1] <= 0 <= e1[2])
            if sh >= 0:
                _setfx(n, e1[0] + sh, lo, hi, nz)
            else:
                _setfx(n, e1[0], lo << -sh, hi << -sh, nz)
            A = xiof(a)
            if XI and n.fx and A:
                x, k, w = A
                if s < 0: x, k, w = xneg(A)
                if sh >= 0: return _xset(n, (x, k + sh, w))
                if w == 64 and max(-lo, hi) << -sh < 1 << 62:
                    return _xset(n, (shl(x, -sh, w), k, w))
    l1, l2 = flof(a), flof(b)
    if l1 and l2 and (l2[0] > 0 or l2[1] < 0):
        c = [cfdiv(x, y) for x in l1 for y in l2]
        if _fin(*c):
            n.fl = (min(c), max(c))
    return n

def csqrt(a):
    if a != a:
        return a
    if a < 0:
        return math.nan
    return math.sqrt(a)

def fsqrt(a):
    if a.__class__ is not T:
        return csqrt(a)
    n = _mk('fsqrt', 'd', (a,))
    l = flof(a)
    if l and l[0] >= 0:
        n.fl = (csqrt(l[0]), csqrt(l[1]))
    return n

def fneg(a):
    if a.__class__ is not T:
        return -a
    if a.op == 'fneg':
        return a.a[0]
    n = _mk('fneg', 'd', (a,))
    if a.fx:
        k, lo, hi, nz = a.fx
        n.fx = (k, -hi, -lo, lo <= 0 <= hi)
        if XI and a.xi: 
            n = _xset(n, xneg(a.xi))
            if n.op != 'fneg': return n
    if a.fl:
        n.fl = (-a.fl[1], -a.fl[0])
    return n

def fabs_(a):
    if a.__class__ is not T:
        return abs(a)
    if a.op in ('fabs',):
        return a
    if a.op == 'fneg':
        return fabs_(a.a[0])
    if flof(a) and flof(a)[0] >= 0 and not (a.fx and a.fx[3]) and (flof(a)[0] > 0 or a.fx):
        return a
    if a.op in ('fmul', 'fdiv') and not a.fx:
        return (fmul if a.op == 'fmul' else fdiv)(fabs_(a.a[0]), fabs_(a.a[1]))
    if a.op == 'i2bits':
        return bits2d(and_(a.a[0], (1 << 63) - 1, 64))
    n = _mk('fabs', 'd', (a,))
    if a.fx:
        k, lo, hi, nz = a.fx
        n.fx = (k, 0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)), False)
        if XI and a.xi:
            y, k1, w1 = xneg(a.xi)
            x = _sx(a.xi[0], a.xi[2], w1)
            return _xset(n, (iabs(x, w1), k1, w1))
    l = flof(a)
    if l:
        lo, hi = l
        n.fl = (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
    return n

def fcopysign(a, b):
    if a.__class__ is not T and b.__class__ is not T:
        return math.copysign(a, b)
    if b.__class__ is not T:
        m = fabs_(a)
        return m if math.copysign(1, b) > 0 else fneg(m)
    m = fabs_(a)
    s = icmp('slt', d2i(b), 0, 64)
    return ite(s, fneg(m), m, 'd')

def fround(mode, a):
    """mode: floor ceil trunc roundeven round"""
    if a.__class__ is not T:
        if a != a or math.isinf(a) or abs(a) >= 2.0 ** 52:
            return a
        if mode == 'floor': r = math.floor(a)
        elif mode == 'ceil': r = math.ceil(a)
        elif mode == 'trunc': r = math.trunc(a)
        elif mode == 'round': r = math.floor(abs(a) + 0.5) if abs(a) % 1 != 0.49999999999999994 else math.floor(abs(a)); r = r if a >= 0 else -r
        else: r = round(a)
        return math.copysign(float(r), a)
    if a.fx and a.fx[0] <= 0:
        return a
    if XI and mode == 'floor' and _flt0(a):
        x, k, w = a.xi
        return fromint(ashr(x, k, w), 0, w)
    n = _mk('fround', 'd', (a, mode))
    l = flof(a)
    if l:
        n.fl = (fround(mode, l[0]), fround(mode, l[1]))
    return n

def i2d(a, w, signed):
    if a.__class__ is not T:
        return float(sgn(a, w) if signed else a)
    if XI and w > 1:
        if not signed and a.uhi > 1 << 53:
            return fromint(canonu(a, w, 128), 0, 128)
        if signed and w < 128 and max(-a.slo, a.shi) > 1 << 53:
            return fromint(a, 0, w)
    n = _mk('si2d' if signed else 'ui2d', 'd', (a,))
    lo, hi = (a.slo, a.shi) if signed else (a.ulo, a.uhi)
    if w == 1:
        lo, hi = (-1, 0) if signed else (0, 1)
    _setfx(n, 0, lo, hi, False)
    n.fl = (float(lo), float(hi))
    if n.fx and w > 1:
        n.xi = (a, 0, w) if signed or w >= 64 else (zext(a, w, 64), 0, 64)
    return n

_fm = {}
def fmof(x):
    """(lo, hi) with lo <= |x| <= hi for a finite x; None when not known"""
    if x.__class__ is not T:
        return (abs(x), abs(x)) if _fin(x) else None
    if x.id in _fm: return _fm[x.id]
    r = None
    l = flof(x)
    if l:
        r = (0.0 if l[0] <= 0 <= l[1] else min(abs(l[0]), abs(l[1])), max(abs(l[0]), abs(l[1])))
    elif x.op in ('fneg', 'fabs'):
        r = fmof(x.a[0])
    elif x.op in ('fmul', 'fdiv'):
        a, b = fmof(x.a[0]), fmof(x.a[1])
        if a and b:
            if x.op == 'fmul': r = (a[0] * b[0], a[1] * b[1])
            elif b[0] > 0: r = (cfdiv(a[0], b[1]), cfdiv(a[1], b[0]))
            if r and not _fin(*r): r = None
    elif x.op in ('fadd', 'fsub'):
        a, b = fmof(x.a[0]), fmof(x.a[1])
        if a and b:
            lo = max(a[0] - b[1], b[0] - a[1], 0.0)
            r = (lo, a[1] + b[1])
            if not _fin(*r): r = None
    elif x.op == 'i2bits':
        m = and_(x.a[0], (1 << 63) - 1, 64)
        l, h = urange(m)
        if h < 0x7ff << 52: r = (b2f(l), b2f(h))
    elif x.op == 'ite':
        a, b = fmof(x.a[1]), fmof(x.a[2])
        if a and b: r = (min(a[0], b[0]), max(a[1], b[1]))
    _fm[x.id] = r
    return r

def fsign(x):
    """the sign of a nonzero finite double"""
    if x.__class__ is not T: return 1 if math.copysign(1, x) < 0 else 0
    l = flof(x)
    if l and l[0] >= 0: return 0
    if l and l[1] < 0: return 1
    if x.op == 'fneg': return not_(fsign(x.a[0]))
    if x.op == 'fabs': return 0
    if x.op in ('fmul', 'fdiv'): return xor(fsign(x.a[0]), fsign(x.a[1]), 1)
    if x.op == 'i2bits': return icmp('ne', lshr(x.a[0], 63, 64), 0, 64)
    if x.op == 'ite': return bite(x.a[0], fsign(x.a[1]), fsign(x.a[2]))
    if x.xi is not None: return icmp('slt', x.xi[0], 0, x.xi[2])
    return _mk('flt', 1, (x, 0.0))

def bits2d(a):
    if a.__class__ is not T:
        return b2f(a)
    if a.op == 'd2i':
        return a.a[0]
    n = _mk('i2bits', 'd', (a,))
    if a.uhi < 0x7ff << 52:
        n.fl = (b2f(a.ulo), b2f(a.uhi))
    return n

def c32(x):
    """the double nearest to x that is a single precision number"""
    try: return b2f32(f2b32(x))
    except OverflowError: return math.copysign(math.inf, x)

def f32r(a):
    """a double rounded to single precision (singles are kept as doubles of the same value)"""
    if a.__class__ is not T: return c32(a)
    if a.op in ('f32r', 'b32d') or a.op == 'si2d' and a.a[0].__class__ is T and max(-a.a[0].slo, a.a[0].shi) <= 1 << 24: return a
    if a.op in ('fneg', 'fabs') and f32r(a.a[0]) is a.a[0]: return a
    n = _mk('f32r', 'd', (a,))
    l = flof(a)
    if l:
        l = (c32(l[0]), c32(l[1]))
        if _fin(*l): n.fl = l
    return n

def d2i32(a):
    """bits of a single"""
    if a.__class__ is not T: return f2b32(a)
    if a.op == 'b32d': return a.a[0]
    if a.op == 'ite': return ite(a.a[0], d2i32(a.a[1]), d2i32(a.a[2]), 32)
    return _mk('d2i32', 32, (a,))

def b32d(a):
    if a.__class__ is not T: return b2f32(a)
    if a.op == 'd2i32': return a.a[0]
    if a.op == 'ite': return ite(a.a[0], b32d(a.a[1]), b32d(a.a[2]), 'd')
    return _mk('b32d', 'd', (a,))

def d2i(a):
    if a.__class__ is not T:
        return f2b(a)
    if a.op == 'i2bits':
        return a.a[0]
    if a.op == 'ite' and (a.a[1].__class__ is not T or a.a[2].__class__ is not T):
        return ite(a.a[0], d2i(a.a[1]), d2i(a.a[2]), 64)
    l = flof(a)
    if not (l and l[0] >= 0) and a.op in ('fmul', 'fdiv', 'fneg') and fmof(a) and fmof(a)[0] > 0:
        return or_(shl(zext(fsign(a), 1, 64), 63, 64), d2i(fabs_(a)), 64)
    n = _mk('d2i', 64, (a,))
    if l:
        if l[0] > 0:
            _ur(n, f2b(l[0]), f2b(l[1]))
        elif l[0] == 0 and a.fx and not a.fx[3]:
            _ur(n, 0, f2b(l[1]))
    return n

def fcmp(p, a, b):
    """p: LLVM predicate"""
    if a.__class__ is not T and b.__class__ is not T:
        return cfcmp(p, a, b)
    if p == 'true': return 1
    if p == 'false': return 0
    la, lb = flof(a), flof(b)
    nonan = la is not None and lb is not None
    if p == 'uno':
        return 0 if nonan else or_(isnan(a), isnan(b), 1)
    if p == 'ord':
        return 1 if nonan else not_(or_(isnan(a), isnan(b), 1))
    q = p[1:]
    if p[0] == 'u':
        inv = {'eq': 'one', 'ne': 'oeq', 'lt': 'oge', 'le': 'ogt', 'gt': 'ole', 'ge': 'olt'}[q]
        return not_(fcmp(inv, a, b))
    # ordered
    if q == 'gt':
        return fcmp('olt', b, a)
    if q == 'ge':
        return fcmp('ole', b, a)
    if q == 'ne':
        if nonan:
            return not_(fcmp('oeq', a, b))
        return or_(fcmp('olt', a, b), fcmp('olt', b, a), 1)
    if nonan:
        if q == 'lt':
            if la[1] < lb[0]: return 1
            if la[0] >= lb[1]: return 0
        elif q == 'le':
            if la[1] <= lb[0]: return 1
            if la[0] > lb[1]: return 0
        else:
            if la[1] < lb[0] or la[0] > lb[1]: return 0
        if a is b:
            return 0 if q == 'lt' else 1
        if q == 'le':
            return not_(fcmp('olt', b, a))
    elif a is b:
        return 0 if q == 'lt' else not_(isnan(a))
    if q == 'lt':
        for x, y in ((a, b), (b, a)):
            if y.__class__ is not T and y == 0.0 and x.op in ('fmul', 'fdiv', 'fneg', 'i2bits', 'ite') and x.xi is None:
                m = fmof(x)
                if m and m[0] > 0:
                    g = fsign(x)
                    return g if x is a else not_(g)
    ma, mb = fmof(a), fmof(b)
    if ma and mb and q == 'eq' and (ma[1] < mb[0] or mb[1] < ma[0]): return 0
    if XI and q == 'le':
        r = xcmp(q, a, b)
        if r is not None: return r
    if q == 'eq' and (b.__class__ is not T or (a.__class__ is T and a.id > b.id)) is False:
        a, b = b, a
    if XI:
        r = xcmp(q, a, b)
        if r is not None: return r
    return _mk('f' + q, 1, (a, b))

XI = True

def _quot(x):
    """(A, B) with x = fl(A/B), both exact, B never -0; None"""
    if x.__class__ is T and x.op == 'fdiv':
        A, B = xiof(x.a[0]), xiof(x.a[1])
        if A and B and _flt0(x.a[1]):
            return A, B
        return None
    A = xiof(x)
    return (A, None) if A else None

def _rng(A):
    l, h = srange(A[0], A[2])
    return max(-l, h)

def _ge0(x):
    l = flof(x)
    return l is not None and l[0] >= 0
def _le0(x):
    l = flof(x)
    return l is not None and l[1] <= 0

def xcmp(q, a, b):
    """q in eq, lt: comparison of doubles whose values are exact integers (scaled) or correctly rounded quotients of such"""
    A, B = xiof(a), xiof(b)
    f = {'eq': 'eq', 'lt': 'slt', 'le': 'sle'}[q]
    if A and B:
        r = xalign(A, B)
        if r:
            return icmp(f, r[0], r[1], r[3])
    # rounded integer against a small constant
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.__class__ is T and x.op in ('si2d', 'fscale') and x.xi is None and y.__class__ is not T:
            e = fxof(y)
            k = x.a[1] if x.op == 'fscale' else 0
            if e and e[0] <= k and abs(e[1] << (k - e[0])) < 1 << 52:
                c = (e[1] << (k - e[0])) & ((1 << x.a[0].w) - 1)
                w = x.a[0].w
                if abs(sgn(c, w)) >= 1 << 52: continue
                return icmp(f, c, x.a[0], w) if sw else icmp(f, x.a[0], c, w)
    # rounding is monotone: fl(x + y) >= x when y >= 0
    if q == 'lt' and flof(a) and flof(b):
        if a.__class__ is T and a.op == 'fadd' and (a.a[0] is b and _ge0(a.a[1]) or a.a[1] is b and _ge0(a.a[0])): return 0
        if b.__class__ is T and b.op == 'fadd' and (b.a[0] is a and _le0(b.a[1]) or b.a[1] is a and _le0(b.a[0])): return 0
        if a.__class__ is T and a.op == 'fsub' and a.a[0] is b and _le0(a.a[1]): return 0
        if b.__class__ is T and b.op == 'fsub' and b.a[0] is a and _ge0(b.a[1]): return 0
    P, Q = _quot(a), _quot(b)
    if P and Q and (P[1] or Q[1]):
        return qcmp(q, P, Q)
    return None

ONE_ = (1, 0, 64)
def qcmp(q, P, Q):
    A, B = P[0], P[1] or ONE_
    C, D = Q[0], Q[1] or ONE_
    # at most one rounding on each side: the quotients differ by at least 1/|bd|, relative 1/|ad| and 1/|bc|
    ad = xmul(A, D); cb = xmul(C, B); bd = xmul(B, D)
    if not (ad and cb and bd): return None
    r = xalign(ad, cb)
    if not r: return None
    big = max(_rng((r[0], 0, r[3])), _rng((r[1], 0, r[3])))
    if big >= 1 << 51:
        zero = (Q[1] is None and C[0].__class__ is not T and C[0] == 0) or (P[1] is None and A[0].__class__ is not T and A[0] == 0)
        if not zero: return None
    x, y, _, w = r
    l, h = srange(bd[0], bd[2])
    if l > 0: neg_ = 0
    elif h < 0: neg_ = 1
    else: neg_ = icmp('slt', bd[0], 0, bd[2])
    if q == 'eq':
        fin = icmp('eq', x, y, w)
    else:
        f = 'slt' if q == 'lt' else 'sle'
        fin = bite(neg_, icmp(f, y, x, w), icmp(f, x, y, w))
    zb = icmp('eq', B[0], 0, B[2]); zd = icmp('eq', D[0], 0, D[2])
    if zb.__class__ is not T and not zb and zd.__class__ is not T and not zd:
        return fin
    # division by +0: infinities and NaN
    ap = icmp('slt', 0, A[0], A[2]); an = icmp('slt', A[0], 0, A[2])
    cp = icmp('slt', 0, C[0], C[2]); cn = icmp('slt', C[0], 0, C[2])
    if q == 'eq':
        both = or_(and_(ap, cp, 1), and_(an, cn, 1), 1); lz = 0; rz = 0
    elif q == 'lt':
        both = and_(an, cp, 1); lz = an; rz = cp
    else:
        both = or_(and_(an, or_(cp, cn, 1), 1), and_(ap, cp, 1), 1); lz = an; rz = cp
    return bite(zb, bite(zd, both, lz), bite(zd, rz, fin))

def isnan(a):
    if a.__class__ is not T:
        return 1 if a != a else 0
    if flof(a) is not None:
        return 0
    if XI and a.op == 'fdiv':
        P = _quot(a)
        if P:
            return and_(icmp('eq', P[0][0], 0, P[0][2]), icmp('eq', P[1][0], 0, P[1][2]), 1)
    return _mk('isnan', 1, (a,))

def cfcmp(p, a, b):
    un = a != a or b != b
    q = p[1:]
    if p == 'uno': return 1 if un else 0
    if p == 'ord': return 0 if un else 1
    if p == 'true': return 1
    if p == 'false': return 0
    if un:
        return 1 if p[0] == 'u' else 0
    r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
    return 1 if r else 0

def cd2int(a, w, signed, sat):
    if a != a:
        return 0
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if math.isinf(a):
        r = hi if a > 0 else lo
    else:
        r = int(a)
    if r < lo: r = lo
    if r > hi: r = hi
    return r & ((1 << w) - 1)

def d2int(a, w, signed, sat):
    """fptosi / fptoui (sat: the saturating intrinsic; otherwise out of range is poison)"""
    if a.__class__ is not T:
        return cd2int(a, w, signed, sat)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if a.op == 'si2d' and a.fx:
        x = a.a[0]
        if a.fx[1] >= lo and a.fx[2] <= hi:
            return trunc(x, x.w, w) if x.w >= w else sext(x, x.w, w)
    if a.op == 'ui2d' and a.fx:
        x = a.a[0]
        if a.fx[1] >= lo and a.fx[2] <= hi:
            return trunc(x, x.w, w) if x.w >= w else zext(x, x.w, w)
    if XI and a.xi:
        x, k, w0 = a.xi
        if k < 0:
            l1, h1 = srange(x, w0)
            ww = _wfor(l1 << -k, h1 << -k)
            if ww:
                ww = max(ww, w0); x = shl(_sx(x, w0, ww), -k, ww); w0 = ww; k = 0
        h = (1 << max(k, 0)) - 1
        fl0, fh0 = srange(x, w0)
        if k >= 0 and fl0 >= (lo << k) - h and fh0 <= (hi << k) + h:
            if k:
                x = ite(icmp('slt', x, 0, w0), neg(ashr(neg(x, w0), k, w0), w0), ashr(x, k, w0), w0)
            return trunc(x, w0, w) if w0 >= w else sext(x, w0, w)
    n = _mk('d2s' if signed else 'd2u', w, (a,))
    l = flof(a)
    if l:
        l0 = max(lo, min(hi, int(l[0]))); l1 = max(lo, min(hi, int(l[1])))
        if signed: _sr(n, l0, l1)
        else: _ur(n, l0, l1)
    return const_of(n)

# ---------------------------------------------------------------- evaluation
def ev(n, m, memo):
    """exact value of term n under symbol assignment m (index -> unsigned int)"""
    if n.__class__ is not T:
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    # iterative post-order
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop(); continue
        pend = [y for y in x.a if y.__class__ is T and y.id not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        memo[x.id] = _ev1(x, m, memo)
    return memo[n.id]

def _ev1(n, m, memo):
    op = n.op
    if op == 'sym':
        return m.get(n.a[0], n.a[1] & ((1 << n.w) - 1))
    v = [memo[y.id] if y.__class__ is T else y for y in n.a]
    w = n.w
    f = _EV.get(op)
    if f is not None:
        return f(v, w)
    a = n.a[0]
    aw = a.w if a.__class__ is T else (n.a[1].w if len(n.a) > 1 and n.a[1].__class__ is T else None)
    if op == 'eq':
        return 1 if v[0] == v[1] else 0
    if op in ('ult', 'slt'):
        return _cicmp(op, v[0], v[1], aw)
    if op == 'sext':
        return sgn(v[0], aw) & ((1 << w) - 1)
    if op == 'si2d':
        return float(sgn(v[0], aw))
    if op == 'fscale':
        return math.ldexp(float(sgn(v[0], aw)), -v[1])
    raise Exception('ev ' + op)

_EV = {
    'add': lambda v, w: (v[0] + v[1]) & ((1 << w) - 1),
    'sub': lambda v, w: (v[0] - v[1]) & ((1 << w) - 1),
    'mul': lambda v, w: (v[0] * v[1]) & ((1 << w) - 1),
    'and': lambda v, w: v[0] & v[1],
    'or': lambda v, w: v[0] | v[1],
    'xor': lambda v, w: v[0] ^ v[1],
    'not': lambda v, w: v[0] ^ 1,
    'shl': lambda v, w: (v[0] << v[1]) & ((1 << w) - 1) if v[1] < w else 0,
    'lshr': lambda v, w: v[0] >> v[1] if v[1] < w else 0,
    'ashr': lambda v, w: ashr(v[0], v[1], w),
    'udiv': lambda v, w: udiv(v[0], v[1], w) if v[1] else (1 << w) - 1,
    'urem': lambda v, w: urem(v[0], v[1], w),
    'sdiv': lambda v, w: sdiv(v[0], v[1], w) if v[1] else (1 if sgn(v[0], w) < 0 else (1 << w) - 1),
    'srem': lambda v, w: srem(v[0], v[1], w),
    'zext': lambda v, w: v[0],
    'trunc': lambda v, w: v[0] & ((1 << w) - 1),
    'ite': lambda v, w: v[1] if v[0] else v[2],
    'fadd': lambda v, w: v[0] + v[1],
    'fsub': lambda v, w: v[0] - v[1],
    'fmul': lambda v, w: v[0] * v[1],
    'fdiv': lambda v, w: cfdiv(v[0], v[1]),
    'fsqrt': lambda v, w: csqrt(v[0]),
    'fneg': lambda v, w: -v[0],
    'fabs': lambda v, w: abs(v[0]),
    'fround': lambda v, w: fround(v[1], v[0]),
    'ui2d': lambda v, w: float(v[0]),
    'i2bits': lambda v, w: b2f(v[0]),
    'd2i': lambda v, w: f2b(v[0]),
    'f32r': lambda v, w: c32(v[0]),
    'd2i32': lambda v, w: f2b32(v[0]),
    'b32d': lambda v, w: b2f32(v[0]),
    'flt': lambda v, w: 1 if v[0] < v[1] else 0,
    'fle': lambda v, w: 1 if v[0] <= v[1] else 0,
    'feq': lambda v, w: 1 if v[0] == v[1] else 0,
    'isnan': lambda v, w: 1 if v[0] != v[0] else 0,
    'd2s': lambda v, w: cd2int(v[0], w, True, True),
    'd2u': lambda v, w: cd2int(v[0], w, False, True),
}

def facts_of(cons):
    f = {}
    for c in cons:
        if c.op == 'not': f[c.a[0].id] = 0
        else:
            f[c.id] = 1
            if c.op == 'eq' and c.a[1].__class__ is not T and c.a[0].__class__ is T: f[c.a[0].id] = c.a[1]
    return f

def subst(n, f):
    """n with the terms in f (id -> constant) replaced and rebuilt"""
    if n.__class__ is not T: return n
    if n.id in f: return f[n.id]
    memo = {}; seen = set()
    st = [(n, False)]
    while st:
        x, done = st.pop()
        if x.id in memo: continue
        if done:
            v = [memo[y.id] if y.__class__ is T else y for y in x.a]
            if all(p is q for p, q in zip(v, x.a)): memo[x.id] = x
            else: memo[x.id] = rebuild(x, v)
            continue
        if x.id in f: memo[x.id] = f[x.id]; continue
        if x.id in seen: continue
        seen.add(x.id)
        st.append((x, True))
        for y in x.a:
            if y.__class__ is T and y.id not in memo: st.append((y, False))
    return memo[n.id]

def rebuild(n, v):
    op, w = n.op, n.w
    def ow(i=0): return n.a[i].w if n.a[i].__class__ is T else None
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        return {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
                'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](v[0], v[1], w)
    if op == 'not': return not_(v[0])
    if op in ('zext', 'sext', 'trunc'): return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](v[0], ow(), w)
    if op in ('eq', 'ult', 'slt'): return icmp(op, v[0], v[1], ow() or ow(1))
    if op == 'ite': return ite(v[0], v[1], v[2], w)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}[op](v[0], v[1])
    if op == 'fsqrt': return fsqrt(v[0])
    if op == 'fneg': return fneg(v[0])
    if op == 'fabs': return fabs_(v[0])
    if op == 'fround': return fround(v[1], v[0])
    if op == 'si2d': return i2d(v[0], ow(), True)
    if op == 'ui2d': return i2d(v[0], ow(), False)
    if op == 'fscale': return fromint(v[0], v[1], ow())
    if op == 'i2bits': return bits2d(v[0])
    if op == 'd2i': return d2i(v[0])
    if op in ('f32r', 'd2i32', 'b32d'): return {'f32r': f32r, 'd2i32': d2i32, 'b32d': b32d}[op](v[0])
    if op in ('flt', 'fle', 'feq'): return fcmp('o' + op[1:], v[0], v[1])
    if op == 'isnan': return isnan(v[0])
    if op in ('d2s', 'd2u'): return d2int(v[0], w, op == 'd2s', True)
    raise Exception('rebuild ' + op)

# ---------------------------------------------------------------- z3: bit-vectors and FP
RNE = None
F64 = None
def _init():
    global RNE, F64
    if RNE is None:
        RNE = z3.RNE(); F64 = z3.Float64()

def _order(n, attr):
    """nodes of n in post-order that are not lowered yet"""
    out = []
    seen = set()
    st = [(n, False)]
    while st:
        x, done = st.pop()
        if done:
            out.append(x); continue
        if x.id in seen or getattr(x, attr) is not None:
            continue
        seen.add(x.id)
        st.append((x, True))
        for y in x.a:
            if y.__class__ is T and y.id not in seen and getattr(y, attr) is None:
                st.append((y, False))
    return out

def bv(n, w):
    """BV lowering (Bool for width 1, FP for 'd')"""
    if n.__class__ is not T:
        if w == 'd':
            _init()
            return fpconst(n)
        if w == 1:
            return z3.BoolVal(bool(n))
        return z3.BitVecVal(n, w)
    if n.zb is None:
        for x in _order(n, 'zb'):
            if x.zb is None:
                x.zb = _bv1(x)
    return n.zb

def fpconst(x):
    _init()
    return z3.fpBVToFP(z3.BitVecVal(f2b(x), 64), F64) if x != x else z3.FPVal(x, F64)

def _w(n):
    for y in n.a:
        if y.__class__ is T:
            return y.w
    return None

_attr = ['zb']
def _g(y, w):
    return getattr(y, _attr[0]) if y.__class__ is T else bv(y, w)
def _zz(y):
    return getattr(y, _attr[0])

EBW = 64
def exb(n, k):
    """exact scaled-integer view (64-bit BV) of a double term with fx, at scale k"""
    if n.__class__ is not T:
        e = fxof(n)
        return z3.BitVecVal((e[1] << (k - e[0])) & ((1 << EBW) - 1), EBW)
    if n.ze is None:
        for x in _order_fx(n):
            if x.ze is None:
                x.ze = _exb1(x)
    r = n.ze
    s = k - n.fx[0]
    return r << s if s else r

def _order_fx(n):
    out = []
    seen = set()
    st = [(n, False)]
    while st:
        x, done = st.pop()
        if done:
            out.append(x); continue
        if x.id in seen or x.ze is not None:
            continue
        seen.add(x.id)
        st.append((x, True))
        if x.op in ('si2d', 'ui2d', 'i2bits', 'fround', 'fscale'):
            continue
        for y in x.a:
            if y.__class__ is T and y.w == 'd':
                st.append((y, False))
    return out

def _exb1(n):
    op = n.op
    k = n.fx[0]
    if op in ('si2d', 'ui2d', 'fscale'):
        x = n.a[0]
        z = bv(x, x.w)
        if x.w == 1:
            one = z3.BitVecVal(1 if op == 'ui2d' else -1, EBW)
            return z3.If(z, one, z3.BitVecVal(0, EBW))
        if x.w < EBW:
            return z3.SignExt(EBW - x.w, z) if op != 'ui2d' else z3.ZeroExt(EBW - x.w, z)
        if x.w > EBW:
            return z3.Extract(EBW - 1, 0, z)
        return z
    if op == 'fadd':
        return exb(n.a[0], k) + exb(n.a[1], k)
    if op == 'fsub':
        return exb(n.a[0], k) - exb(n.a[1], k)
    if op == 'fmul':
        e1, e2 = fxof(n.a[0]), fxof(n.a[1])
        return exb(n.a[0], e1[0]) * exb(n.a[1], e2[0])
    if op == 'fdiv':
        e1 = fxof(n.a[0])
        m, e = math.frexp(n.a[1])
        sh = e - 1
        r = exb(n.a[0], e1[0])
        if m < 0:
            r = -r
        return r if sh >= 0 else r << (-sh)
    if op == 'fneg':
        return -exb(n.a[0], k)
    if op == 'fabs':
        x = exb(n.a[0], k)
        return z3.If(x < 0, -x, x)
    if op == 'ite':
        return z3.If(bv(n.a[0], 1), exb(n.a[1], k), exb(n.a[2], k))
    raise Exception('exb ' + op)

def _bv1(n):
    _init()
    op, w, a = n.op, n.w, n.a
    if op == 'sym':
        if w == 1:
            return z3.Bool('s%d' % a[0])
        return z3.BitVec('s%d' % a[0], w)
    if w == 'd' and n.fx is not None and not n.fx[3]:
        x = exb(n, n.fx[0])
        r = z3.fpSignedToFP(RNE, x, F64)
        if n.fx[0]:
            r = z3.fpMul(RNE, r, z3.FPVal(math.ldexp(1.0, -n.fx[0]), F64))
        return r
    if op in ('feq', 'flt', 'fle'):
        e1, e2 = fxof(a[0]), fxof(a[1])
        if e1 and e2:
            k = max(e1[0], e2[0])
            if max(abs(v) for v in _al(e1, k) + _al(e2, k)) < 1 << 62:
                x, y = exb(a[0], k), exb(a[1], k)
                return x == y if op == 'feq' else (x < y if op == 'flt' else x <= y)
        x, y = bv(a[0], 'd'), bv(a[1], 'd')
        return z3.fpEQ(x, y) if op == 'feq' else (z3.fpLT(x, y) if op == 'flt' else z3.fpLEQ(x, y))
    if op == 'isnan':
        return z3.fpIsNaN(bv(a[0], 'd'))
    if op == 'not':
        return z3.Not(_g(a[0], 1))
    if op == 'ite':
        return z3.If(_g(a[0], 1), _g(a[1], w), _g(a[2], w))
    if op in ('and', 'or', 'xor') and w == 1:
        x, y = _g(a[0], 1), _g(a[1], 1)
        return z3.And(x, y) if op == 'and' else (z3.Or(x, y) if op == 'or' else z3.Xor(x, y))
    if op == 'add': return _g(a[0], w) + _g(a[1], w)
    if op == 'sub': return _g(a[0], w) - _g(a[1], w)
    if op == 'mul': return _g(a[0], w) * _g(a[1], w)
    if op == 'and': return _g(a[0], w) & _g(a[1], w)
    if op == 'or': return _g(a[0], w) | _g(a[1], w)
    if op == 'xor': return _g(a[0], w) ^ _g(a[1], w)
    if op == 'shl': return _g(a[0], w) << _g(a[1], w)
    if op == 'lshr': return z3.LShR(_g(a[0], w), _g(a[1], w))
    if op == 'ashr': return _g(a[0], w) >> _g(a[1], w)
    if op == 'udiv': return z3.UDiv(_g(a[0], w), _g(a[1], w))
    if op == 'urem': return z3.URem(_g(a[0], w), _g(a[1], w))
    if op == 'sdiv': return _g(a[0], w) / _g(a[1], w)
    if op == 'srem': return z3.SRem(_g(a[0], w), _g(a[1], w))
    if op == 'zext':
        x = a[0]
        if x.w == 1:
            return z3.If(_zz(x), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return z3.ZeroExt(w - x.w, _zz(x))
    if op == 'sext':
        x = a[0]
        if x.w == 1:
            return z3.If(_zz(x), z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
        return z3.SignExt(w - x.w, _zz(x))
    if op == 'trunc':
        x = a[0]
        if w == 1:
            return z3.Extract(0, 0, _zz(x)) == 1
        return z3.Extract(w - 1, 0, _zz(x))
    if op == 'eq':
        ww = _w(n)
        return _g(a[0], ww) == _g(a[1], ww)
    if op == 'ult':
        ww = _w(n)
        return z3.ULT(_g(a[0], ww), _g(a[1], ww))
    if op == 'slt':
        ww = _w(n)
        return _g(a[0], ww) < _g(a[1], ww)
    if op == 'fadd': return z3.fpAdd(RNE, _g(a[0], 'd'), _g(a[1], 'd'))
    if op == 'fsub': return z3.fpSub(RNE, _g(a[0], 'd'), _g(a[1], 'd'))
    if op == 'fmul': return z3.fpMul(RNE, _g(a[0], 'd'), _g(a[1], 'd'))
    if op == 'fdiv': return z3.fpDiv(RNE, _g(a[0], 'd'), _g(a[1], 'd'))
    if op == 'fsqrt': return z3.fpSqrt(RNE, _g(a[0], 'd'))
    if op == 'fneg': return z3.fpNeg(_g(a[0], 'd'))
    if op == 'fabs': return z3.fpAbs(_g(a[0], 'd'))
    if op == 'fround':
        rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'roundeven': z3.RNE()}[a[1]]
        return z3.fpRoundToIntegral(rm, _g(a[0], 'd'))
    if op == 'si2d':
        x = a[0]
        if x.w == 1: return z3.If(_zz(x), z3.FPVal(-1.0, F64), z3.FPVal(0.0, F64))
        return z3.fpSignedToFP(RNE, _zz(x), F64)
    if op == 'ui2d':
        x = a[0]
        if x.w == 1: return z3.If(_zz(x), z3.FPVal(1.0, F64), z3.FPVal(0.0, F64))
        return z3.fpUnsignedToFP(RNE, _zz(x), F64)
    if op == 'fscale':
        return z3.fpMul(RNE, z3.fpSignedToFP(RNE, _zz(a[0]), F64), z3.FPVal(math.ldexp(1.0, -a[1]), F64))
    if op == 'i2bits':
        return z3.fpBVToFP(_g(a[0], 64), F64)
    if op == 'd2i':
        return z3.fpToIEEEBV(_g(a[0], 'd'))
    if op == 'f32r': return z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, _g(a[0], 'd'), z3.Float32()), F64)
    if op == 'd2i32': return z3.fpToIEEEBV(z3.fpFPToFP(RNE, _g(a[0], 'd'), z3.Float32()))
    if op == 'b32d': return z3.fpFPToFP(RNE, z3.fpBVToFP(_g(a[0], 32), z3.Float32()), F64)
    if op in ('d2s', 'd2u'):
        x = a[0]
        s = op == 'd2s'
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if x.fx is not None and x.fx[0] >= 0:
            k = x.fx[0]
            e = exb(x, k)
            if k:
                e = e / z3.BitVecVal(1 << k, EBW)
            if w <= EBW:
                ll, hh = max(lo, -(1 << 63)), min(hi, (1 << 63) - 1)
                c = z3.If(e < ll, z3.BitVecVal(ll, EBW), z3.If(e > hh, z3.BitVecVal(hh, EBW), e))
                return z3.Extract(w - 1, 0, c) if w < EBW else c
            return z3.SignExt(w - EBW, e)
        z = _zz(x)
        conv = z3.fpToSBV(z3.RTZ(), z, z3.BitVecSort(w)) if s else z3.fpToUBV(z3.RTZ(), z, z3.BitVecSort(w))
        flo = z3.FPVal(float(lo), F64)
        fhi = z3.FPVal(float(hi + 1), F64)
        return z3.If(z3.fpIsNaN(z), z3.BitVecVal(0, w),
                     z3.If(z3.fpLEQ(z, flo), z3.BitVecVal(lo, w),
                           z3.If(z3.fpGEQ(z, fhi), z3.BitVecVal(hi, w), conv)))
    raise Exception('bv ' + op)

# ---- doubles as opaque bit patterns: arithmetic is uninterpreted, comparisons are exact on the bits
SIGN_ = 1 << 63
INF_ = 0x7ff << 52
def bvf(n, side):
    """lowering without the FP theory; only 'unsat' is meaningful"""
    if n.__class__ is not T: return bv(n, 1)
    if n.zf is None:
        for x in _order(n, 'zf'):
            if x.zf is None:
                _attr[0] = 'zf'
                try: x.zf = _bf1(x)
                finally: _attr[0] = 'zb'
    return n.zf

def _fb(y):
    return y.zf if y.__class__ is T else z3.BitVecVal(f2b(y), 64)

def _bf1(n):
    _init()
    op, w, a = n.op, n.w, n.a
    if w == 'd':
        if op == 'i2bits': return _g(a[0], 64)
        if op == 'fneg': return _fb(a[0]) ^ SIGN_
        if op == 'fabs': return _fb(a[0]) & (SIGN_ - 1)
        if op == 'ite': return z3.If(_g(a[0], 1), _fb(a[1]), _fb(a[2]))
        return z3.BitVec('fb%d' % n.id, 64)
    if op == 'd2i': return _fb(a[0])
    if op == 'd2i32': return z3.BitVec('fb%d' % n.id, 32)
    if op == 'isnan': return z3.UGT(_fb(a[0]) & (SIGN_ - 1), INF_)
    if op in ('feq', 'flt', 'fle'):
        x, y = _fb(a[0]), _fb(a[1])
        m = SIGN_ - 1
        ok = []
        for t, z in ((a[0], x), (a[1], y)):
            if flof(t) is None: ok.append(z3.ULE(z & m, INF_))
        if op == 'feq': c = z3.Or(x == y, (x | y) & m == 0)
        else:
            # sign-magnitude keys
            kx = z3.If(x & SIGN_ == 0, x, SIGN_ - x); ky = z3.If(y & SIGN_ == 0, y, SIGN_ - y)
            c = kx < ky if op == 'flt' else kx <= ky
        return z3.And(*ok, c) if ok else c
    if op in ('d2s', 'd2u'): return z3.BitVec('fb%d' % n.id, w)
    return _bv1(n)

def bvf_facts(cons):
    """bounds of the opaque doubles below the constraints, and what is known about their signs"""
    out = []; seen = set(); st = [c for c in cons if c.__class__ is T]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        for y in x.a:
            if y.__class__ is T and y.id not in seen and y.hasf: st.append(y)
        if x.w != 'd' or x.zf is None or x.op in ('fneg', 'fabs', 'ite'): continue
        z = x.zf; m = SIGN_ - 1
        l = flof(x)
        if l:
            nz = x.fx is not None and not x.fx[3]
            if l[0] > 0 or (l[0] == 0 and nz):
                out.append(z3.And(z3.UGE(z, f2b(l[0])), z3.ULE(z, f2b(l[1])))); continue
            if l[1] < 0:
                out.append(z3.And(z3.UGE(z, f2b(l[1])), z3.ULE(z, f2b(l[0])))); continue
            out.append(z3.ULE(z & m, max(f2b(abs(l[0])), f2b(abs(l[1])))))
            out.append(z3.Implies(z & SIGN_ == 0, z3.ULE(z, f2b(max(l[1], 0.0)))))
            out.append(z3.Implies(z & SIGN_ != 0, z3.ULE(z & m, f2b(max(-l[0], 0.0)))))
            if nz: out.append(z != SIGN_)
        else:
            f = fmof(x)
            if f:
                out.append(z3.And(z3.UGE(z & m, f2b(f[0])), z3.ULE(z & m, f2b(f[1]))))
        if x.op in ('fmul', 'fdiv') and x.a[0].__class__ in (T, float) and all(y.__class__ is float or y.zf is not None for y in x.a):
            p, q = _fb(x.a[0]), _fb(x.a[1])
            out.append(z3.Or((z ^ p ^ q) & SIGN_ == 0, z3.UGT(z & m, INF_)))
        elif x.op == 'fsqrt' and (x.a[0].__class__ is float or x.a[0].zf is not None):
            p = _fb(x.a[0])
            out.append(z3.Or((z ^ p) & SIGN_ == 0, z3.UGT(z & m, INF_)))
        elif x.op in ('fadd', 'fsub') and all(y.__class__ is float or y.zf is not None for y in x.a):
            p, q = _fb(x.a[0]), _fb(x.a[1])
            if x.op == 'fsub': q = q ^ SIGN_
            out.append(z3.Or((p ^ q) & SIGN_ != 0, (z ^ p) & SIGN_ == 0, z3.UGT(z & m, INF_)))
    return out

def sym_constraints_bv(syms):
    out = []
    for i in syms:
        n = SYMS[i]
        _, lo, hi, sg = n.a
        if n.w == 1:
            continue
        z = bv(n, n.w)
        if sg:
            if lo > -(1 << (n.w - 1)): out.append(z >= lo)
            if hi < (1 << (n.w - 1)) - 1: out.append(z <= hi)
        else:
            if lo > 0: out.append(z3.UGE(z, lo))
            if hi < (1 << n.w) - 1: out.append(z3.ULE(z, hi))
    return out

# ---------------------------------------------------------------- z3: integers
class IntLower:
    """Lowers terms to z3 Int/Bool.  mode 'abs': products of two symbolic terms become
    fresh variables bounded by their interval (an over-approximation: unsat is sound,
    sat is not); mode 'nl': real nonlinear multiplication."""
    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.side = []
        self.fresh = 0
        self.qr = {}
        self.keep = []

    def boolean(self, n):
        if n.__class__ is not T:
            return z3.BoolVal(bool(n))
        return self.low(n)

    def low(self, n):
        for x in self._ord(n):
            if x.id not in self.memo:
                self.memo[x.id] = self._one(x)
        return self.memo[n.id]

    def _ord(self, n):
        out = []; seen = set()
        st = [(n, False)]
        while st:
            x, d = st.pop()
            if d:
                out.append(x); continue
            if x.id in seen or x.id in self.memo:
                continue
            seen.add(x.id)
            st.append((x, True))
            for y in x.a:
                if y.__class__ is T:
                    st.append((y, False))
        return out

    def S(self, n, w):
        if n.__class__ is not T:
            return z3.IntVal(sgn(n, w))
        e, r = self.memo[n.id] if n.w != 1 else (z3.If(self.memo[n.id], z3.IntVal(1), z3.IntVal(0)), 'u')
        if r == 's' or n.uhi < 1 << (w - 1):
            return e
        if n.ulo >= 1 << (w - 1):
            return e - (1 << w)
        return z3.If(e >= (1 << (w - 1)), e - (1 << w), e)

    def U(self, n, w):
        if n.__class__ is not T:
            return z3.IntVal(n)
        e, r = self.memo[n.id] if n.w != 1 else (z3.If(self.memo[n.id], z3.IntVal(1), z3.IntVal(0)), 'u')
        if r == 'u' or n.slo >= 0:
            return e
        if n.shi < 0:
            return e + (1 << w)
        return z3.If(e < 0, e + (1 << w), e)

    def E(self, n, k):
        """exact scaled integer of a double"""
        if n.__class__ is not T:
            e = fxof(n)
            if e is None:
                raise NoInt('fconst')
            return z3.IntVal(e[1] << (k - e[0]))
        if n.fx is None:
            raise NoInt('inexact ' + n.op)
        e, _ = self.memo[n.id]
        s = k - n.fx[0]
        return e * (1 << s) if s else e

    def prod(self, x, y, n, lo, hi):
        if self.mode == 'nl':
            return x * y
        k = ('p',) + tuple(sorted((x.get_id(), y.get_id())))
        v = self.qr.get(k)
        if v is None:
            self.fresh += 1
            v = z3.Int('m%d' % self.fresh)
            self.qr[k] = v
            self.keep += [x, y]
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def divmod(self, x, m):
        """quotient and remainder of x by the positive constant m, as shared variables"""
        k = (x.get_id(), m)
        r = self.qr.get(k)
        if r is None:
            self.fresh += 1
            q = z3.Int('q%d' % self.fresh); rr = z3.Int('r%d' % self.fresh)
            self.side += [x == q * m + rr, rr >= 0, rr < m]
            r = (q, rr)
            self.qr[k] = r
            self.keep.append(x)
        return r

    def _one(self, n):
        op, w, a = n.op, n.w, n.a
        if op == 'sym':
            if w == 1:
                return z3.Bool('s%d' % a[0])
            v = z3.Int('s%d' % a[0])
            if a[3]:
                self.side += [v >= a[1], v <= a[2]]
                return v, 's'
            self.side += [v >= a[1], v <= a[2]]
            return v, 'u'
        if w == 1:
            return self._bool(n)
        if w == 'd':
            return self._dbl(n), 'e'
        h = 1 << (w - 1)
        F = 1 << w
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q,
                 'mul': lambda p, q: p * q}[op]
            al, ah = srange(a[0], w); bl, bh = srange(a[1], w)
            sym2 = op == 'mul' and a[0].__class__ is T and a[1].__class__ is T
            if op == 'add': c = (al + bl, ah + bh)
            elif op == 'sub': c = (al - bh, ah - bl)
            else: c = (al * bl, al * bh, ah * bl, ah * bh)
            if min(c) >= -h and max(c) < h:
                if sym2:
                    return self.prod(self.S(a[0], w), self.S(a[1], w), n, min(c), max(c)), 's'
                return f(self.S(a[0], w), self.S(a[1], w)), 's'
            al, ah = urange(a[0]); bl, bh = urange(a[1])
            if op == 'add': c = (al + bl, ah + bh)
            elif op == 'sub': c = (al - bh, ah - bl)
            else: c = (al * bl, ah * bh)
            if min(c) >= 0 and max(c) < F:
                if sym2:
                    return self.prod(self.U(a[0], w), self.U(a[1], w), n, min(c), max(c)), 'u'
                return f(self.U(a[0], w), self.U(a[1], w)), 'u'
            if sym2:
                if self.mode == 'nl':
                    return (self.U(a[0], w) * self.U(a[1], w)) % F, 'u'
                raise NoInt('wrapping mul')
            x = f(self.U(a[0], w), self.U(a[1], w))
            if op == 'add':
                return z3.If(x >= F, x - F, x), 'u'
            if op == 'sub':
                return z3.If(x < 0, x + F, x), 'u'
            return self.divmod(x, F)[1], 'u'
        if op == 'and':
            b = a[1]
            if b.__class__ is not T and b & (b + 1) == 0:
                return self.divmod(self.U(a[0], w), b + 1)[1], 'u'
            if b.__class__ is not T and (F - b) & (F - b - 1) == 0:   # high mask
                u = self.U(a[0], w)
                return u - self.divmod(u, F - b)[1], 'u'
            raise NoInt('and')
        if op == 'or':
            x, y = a
            if tzof(x) >= urange(y)[1].bit_length() or tzof(y) >= urange(x)[1].bit_length():
                return self.U(x, w) + self.U(y, w), 'u'
            raise NoInt('or')
        if op == 'xor':
            if a[1].__class__ is not T and a[1] == F - 1:
                return -1 - self.S(a[0], w), 's'
            if a[1].__class__ is not T and a[1] == h:
                s = self.S(a[0], w)
                return s + h, 'u'
            raise NoInt('xor')
        if op == 'shl':
            if a[1].__class__ is T: raise NoInt('shl')
            if a[0].uhi << a[1] < F:
                return self.U(a[0], w) * (1 << a[1]), 'u'
            if (a[0].slo << a[1]) >= -h and (a[0].shi << a[1]) < h:
                return self.S(a[0], w) * (1 << a[1]), 's'
            return self.divmod(self.U(a[0], w) * (1 << a[1]), F)[1], 'u'
        if op == 'lshr':
            if a[1].__class__ is T: raise NoInt('lshr')
            return self.divmod(self.U(a[0], w), 1 << a[1])[0], 'u'
        if op == 'ashr':
            if a[1].__class__ is T: raise NoInt('ashr')
            return self.divmod(self.S(a[0], w), 1 << a[1])[0], 's'
        if op in ('udiv', 'urem'):
            if urange(a[1])[0] == 0: raise NoInt('div0')
            x, y = self.U(a[0], w), self.U(a[1], w)
            return (x / y if op == 'udiv' else x % y), 'u'
        if op in ('sdiv', 'srem'):
            if srange(a[1], w)[0] <= 0: raise NoInt('sdiv')
            x, y = self.S(a[0], w), self.S(a[1], w)
            q = z3.If(x >= 0, x / y, -((-x) / y))
            return (q if op == 'sdiv' else x - q * y), 's'
        if op == 'zext':
            if a[0].w == 1:
                return z3.If(self.memo[a[0].id], z3.IntVal(1), z3.IntVal(0)), 'u'
            return self.U(a[0], a[0].w), 'u'
        if op == 'sext':
            if a[0].w == 1:
                return z3.If(self.memo[a[0].id], z3.IntVal(-1), z3.IntVal(0)), 's'
            return self.S(a[0], a[0].w), 's'
        if op == 'trunc':
            x = a[0]
            if x.uhi < F:
                return self.U(x, x.w), 'u'
            if x.slo >= -h and x.shi < h:
                return self.S(x, x.w), 's'
            return self.divmod(self.U(x, x.w), F)[1], 'u'
        if op == 'ite':
            c = self.boolean(a[0])
            if n.slo >= 0 or n.uhi < F - 1 and n.uhi - n.ulo <= n.shi - n.slo:
                return z3.If(c, self.U(a[1], w), self.U(a[2], w)), 'u'
            return z3.If(c, self.S(a[1], w), self.S(a[2], w)), 's'
        if op in ('d2s', 'd2u'):
            x = a[0]
            if x.__class__ is T and x.fx is not None and x.fx[0] >= 0:
                k = x.fx[0]
                lo, hi = x.fx[1] >> k, -((-x.fx[2]) >> k)
                ll, hh = (-h, h - 1) if op == 'd2s' else (0, F - 1)
                if lo < ll or hi > hh:
                    raise NoInt('fptoint range')
                e = self.E(x, k)
                if k:
                    e = z3.If(e >= 0, e / (1 << k), -((-e) / (1 << k)))
                return e, ('s' if op == 'd2s' else 'u')
        raise NoInt(op)

    def _dbl(self, n):
        if n.fx is None:
            raise NoInt('inexact ' + n.op)
        op, a = n.op, n.a
        k = n.fx[0]
        if op == 'si2d':
            return self.S(a[0], a[0].w) if a[0].w != 1 else z3.If(self.memo[a[0].id], z3.IntVal(-1), z3.IntVal(0))
        if op == 'fscale': return self.S(a[0], a[0].w)
        if op == 'ui2d': return self.U(a[0], a[0].w)
        if op == 'fadd': return self.E(a[0], k) + self.E(a[1], k)
        if op == 'fsub': return self.E(a[0], k) - self.E(a[1], k)
        if op == 'fneg': return -self.E(a[0], k)
        if op == 'fabs':
            x = self.E(a[0], k)
            return z3.If(x < 0, -x, x)
        if op == 'fmul':
            e1, e2 = fxof(a[0]), fxof(a[1])
            x, y = self.E(a[0], e1[0]), self.E(a[1], e2[0])
            if a[0].__class__ is T and a[1].__class__ is T:
                return self.prod(x, y, n, n.fx[1], n.fx[2])
            return x * y
        if op == 'fdiv':
            e1 = fxof(a[0])
            m, e = math.frexp(a[1]); sh = e - 1
            r = self.E(a[0], e1[0])
            if m < 0: r = -r
            return r if sh >= 0 else r * (1 << -sh)
        if op == 'ite':
            return z3.If(self.boolean(a[0]), self.E(a[1], k), self.E(a[2], k))
        raise NoInt(op)

    def _bool(self, n):
        op, a = n.op, n.a
        if op == 'not': return z3.Not(self.boolean(a[0]))
        if op == 'and': return z3.And(self.boolean(a[0]), self.boolean(a[1]))
        if op == 'or': return z3.Or(self.boolean(a[0]), self.boolean(a[1]))
        if op == 'xor': return z3.Xor(self.boolean(a[0]), self.boolean(a[1]))
        if op == 'ite': return z3.If(self.boolean(a[0]), self.boolean(a[1]), self.boolean(a[2]))
        w = _w(n)
        if op == 'eq':
            r0 = self.memo[a[0].id][1] if a[0].__class__ is T else None
            r1 = self.memo[a[1].id][1] if a[1].__class__ is T else None
            if 's' in (r0, r1):
                return self.S(a[0], w) == self.S(a[1], w)
            return self.U(a[0], w) == self.U(a[1], w)
        if op == 'ult': return self.U(a[0], w) < self.U(a[1], w)
        if op == 'slt': return self.S(a[0], w) < self.S(a[1], w)
        if op in ('feq', 'flt', 'fle'):
            e1, e2 = fxof(a[0]), fxof(a[1])
            if not (e1 and e2):
                raise NoInt('inexact cmp')
            k = max(e1[0], e2[0])
            x, y = self.E(a[0], k), self.E(a[1], k)
            return x == y if op == 'feq' else (x < y if op == 'flt' else x <= y)
        if op == 'trunc':
            return self.divmod(self.U(a[0], a[0].w), 2)[1] == 1
        raise NoInt(op)
