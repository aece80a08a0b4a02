"""differential test: integer terms, and their z3 lowerings, against direct evaluation"""
import random, sys, z3
from . import term as T
OPS = {
 'add': (T.add, lambda a, b, w: a + b), 'sub': (T.sub, lambda a, b, w: a - b), 'mul': (T.mul, lambda a, b, w: a * b),
 'and': (T.and_, lambda a, b, w: a & b), 'or': (T.or_, lambda a, b, w: a | b), 'xor': (T.xor, lambda a, b, w: a ^ b),
 'shl': (T.shl, lambda a, b, w: a << b if b < w else None), 'lshr': (T.lshr, lambda a, b, w: a >> b if b < w else None),
 'ashr': (T.ashr, lambda a, b, w: T.sgn(a, w) >> b if b < w else None),
 'udiv': (T.udiv, lambda a, b, w: a // b if b else None), 'urem': (T.urem, lambda a, b, w: a % b if b else None),
 'sdiv': (T.sdiv, lambda a, b, w: int(abs(T.sgn(a, w)) // abs(T.sgn(b, w)) * (1 if (T.sgn(a, w) < 0) == (T.sgn(b, w) < 0) else -1)) if b else None),
 'umin': (T.umin, lambda a, b, w: min(a, b)), 'umax': (T.umax, lambda a, b, w: max(a, b)),
 'smin': (T.smin, lambda a, b, w: min(T.sgn(a, w), T.sgn(b, w))), 'smax': (T.smax, lambda a, b, w: max(T.sgn(a, w), T.sgn(b, w))),
}
class Undef(Exception): pass
def gen(rng, syms, w, d):
    if d == 0 or rng.random() < .1:
        if rng.random() < .75:
            c = [i for i, s in enumerate(syms) if s.w == w]
            if c:
                i = rng.choice(c); return syms[i], lambda m, i=i: m[i]
            i = rng.randrange(len(syms)); s = syms[i]
            if s.w < w:
                if rng.random() < .5: return T.zext(s, s.w, w), lambda m: m[i]
                return T.sext(s, s.w, w), lambda m: T.sgn(m[i], s.w) & ((1 << w) - 1)
            return T.trunc(s, s.w, w), lambda m: m[i] & ((1 << w) - 1)
        v = rng.choice([0, 1, 2, 3, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w // 2)) - 1, rng.getrandbits(w)]) & ((1 << w) - 1)
        return v, lambda m, v=v: v
    k = rng.random()
    if k < .12:
        c, fc = cond(rng, syms, d - 1); a, fa = gen(rng, syms, w, d - 1); b, fb = gen(rng, syms, w, d - 1)
        return T.ite(c, a, b, w), lambda m: fa(m) if fc(m) else fb(m)
    if k < .2 and w > 8:
        w0 = rng.choice([x for x in (1, 8, 16, 32, 64) if x < w]); a, fa = gen(rng, syms, w0, d - 1)
        if rng.random() < .5: return T.zext(a, w0, w), lambda m: fa(m)
        return T.sext(a, w0, w), lambda m: T.sgn(fa(m), w0) & ((1 << w) - 1)
    if k < .28 and w < 128:
        w0 = rng.choice([x for x in (16, 32, 64, 128) if x > w]); a, fa = gen(rng, syms, w0, d - 1)
        return T.trunc(a, w0, w), lambda m: fa(m) & ((1 << w) - 1)
    if k < .31: 
        f, g = rng.choice([(T.ctlz, lambda v, w: w - v.bit_length()), (T.cttz, lambda v, w: (v & -v).bit_length() - 1 if v else w), (T.ctpop, lambda v, w: bin(v).count('1'))])
        if w > 8:
            a, fa = gen(rng, syms, w, d - 1); return f(a, w), lambda m: g(fa(m), w)
    op = rng.choice(list(OPS)); f, g = OPS[op]
    if w == 1 and op not in ('and', 'or', 'xor', 'add', 'sub'): op = 'xor'; f, g = OPS[op]
    a, fa = gen(rng, syms, w, d - 1)
    if op in ('shl', 'lshr', 'ashr') and rng.random() < .8:
        s = rng.randrange(w); b, fb = s, lambda m: s
    elif op in ('udiv', 'urem', 'sdiv') and rng.random() < .7:
        s = rng.choice([1, 2, 3, 7, 8, 10, 255]) & ((1 << w) - 1) or 1; b, fb = s, lambda m: s
    else: b, fb = gen(rng, syms, w, d - 1)
    def ff(m, op=op, a=a, b=b):
        r = g(fa(m), fb(m), w)
        if r is None: raise Undef
        return r & ((1 << w) - 1)
    if op in ('udiv', 'urem', 'sdiv') and b.__class__ is not T.T and b == 0: return a, fa
    if op == 'sdiv' and b.__class__ is T.T: return a, fa
    if op in ('shl', 'lshr', 'ashr') and b.__class__ is not T.T and b >= w: return a, fa
    return f(a, b, w), ff
def cond(rng, syms, d):
    p = rng.choice(['eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'])
    w = rng.choice([8, 16, 32, 64, 1])
    a, fa = gen(rng, syms, w, d); b, fb = gen(rng, syms, w, d)
    return T.icmp(p, a, b, w), lambda m: T._cicmp(p, fa(m), fb(m), w)
def main(n=3000, seed=1):
    rng = random.Random(seed); bad = 0; low = 0; ilow = 0
    for it in range(n):
        T.reset_terms(); syms = []
        for i in range(3):
            w = rng.choice([8, 32, 64]); sg = rng.random() < .5
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if rng.random() < .5:
                lo, hi = sorted((rng.randint(lo, hi), rng.randint(lo, hi)))
                if rng.random() < .5: lo, hi = max(lo, -5), max(lo, -5) + 9; lo = max(lo, 0) if not sg else lo; hi = min(hi, (1 << (w - 1)) - 1 if sg else (1 << w) - 1)
            syms.append(T.sym(i, w, lo, hi, sg))
        w = 1 if rng.random() < .4 else rng.choice([8, 32, 64])
        try:
            t, f = cond(rng, syms, 3) if w == 1 else gen(rng, syms, w, 4)
        except Undef: continue
        for _ in range(10):
            m = {}
            for i, s in enumerate(syms):
                lo, hi = s.a[1], s.a[2]
                v = rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-3, 3)))])
                m[i] = v & ((1 << s.w) - 1)
            try: want = f(m)
            except (Undef, ZeroDivisionError): continue
            got = T.ev(t, m, {})
            ok = want == got
            if ok and t.__class__ is T.T and w > 1 and not (t.ulo <= got <= t.uhi and t.slo <= T.sgn(got, w) <= t.shi): ok = False
            if not ok:
                bad += 1; print('MISMATCH', it, w, want, got, m, T.show(t, 7)[:500])
                if bad > 5: return 1
                break
            if t.__class__ is T.T and rng.random() < .08:
                g = T.icmp('eq', t, got, w) if w > 1 else (t if got else T.not_(t))
                if g.__class__ is not T.T: continue
                s = z3.Solver(); s.set('timeout', 3000)
                s.add(T.bv(g, 1))
                for i, x in enumerate(syms): s.add(z3.BitVec('s%d' % i, x.w) == m[i])
                if s.check() == z3.unsat: bad += 1; print('BV LOWERING', T.show(t, 8)[:400], m, got); return 1
                low += 1
                for mode in ('abs', 'nl'):
                    L = T.IntLower(mode); s = z3.Solver(); s.set('timeout', 3000)
                    try: e = L.boolean(g)
                    except T.NoInt: continue
                    s.add(e); s.add(*L.side)
                    for i, x in enumerate(syms): s.add(z3.Int('s%d' % i) == (T.sgn(m[i], x.w) if x.a[3] else m[i]))
                    if s.check() == z3.unsat: bad += 1; print('INT LOWERING', mode, T.show(t, 8)[:400], m, got); return 1
                    ilow += 1
    print('int selftest: %d expressions, %d bv and %d int lowerings, %d mismatches' % (n, low, ilow, bad))
    return bad
if __name__ == '__main__':
    sys.exit(1 if main(*(int(x) for x in sys.argv[1:])) else 0)
