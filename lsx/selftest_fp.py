"""differential test: floating-point term construction against Python floats"""
import random, math, sys
from . import term as T
def rnd(rng, syms, d):
    """returns (term, python function)"""
    if d == 0 or rng.random() < .15:
        c = rng.random()
        if c < .75:
            i = rng.randrange(len(syms)); n, w, sg = syms[i]
            if sg: return T.i2d(n, w, True), (lambda m, i=i, w=w: float(T.sgn(m[i], w)))
            return T.i2d(n, w, False), (lambda m, i=i: float(m[i]))
        v = rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, -0.0, 0.25, 4294967296.0, 1e-3])
        return v, (lambda m, v=v: v)
    op = rng.choice(['add', 'sub', 'mul', 'mul', 'div', 'neg', 'abs', 'ite', 'sqrt', 'floor', 'f32', 'b32'])
    a, fa = rnd(rng, syms, d - 1)
    if op == 'neg': return T.fneg(a), lambda m: -fa(m)
    if op == 'abs': return T.fabs_(a), lambda m: abs(fa(m))
    if op == 'sqrt': return T.fsqrt(a), lambda m: T.csqrt(fa(m))
    if op == 'f32': return T.f32r(a), lambda m: T.c32(fa(m))
    if op == 'b32': return T.fmul(T.b32d(T.xor(T.d2i32(T.f32r(a)), 1 << 31, 32)), 1.5), lambda m: -T.c32(fa(m)) * 1.5
    if op == 'floor': return T.fround('floor', a), lambda m: T.fround('floor', fa(m))
    b, fb = rnd(rng, syms, d - 1)
    if op == 'add': return T.fadd(a, b), lambda m: fa(m) + fb(m)
    if op == 'sub': return T.fsub(a, b), lambda m: fa(m) - fb(m)
    if op == 'mul': return T.fmul(a, b), lambda m: fa(m) * fb(m)
    if op == 'div': return T.fdiv(a, b), lambda m: T.cfdiv(fa(m), fb(m))
    c, fc = cmp_(rng, syms, d - 1)
    return T.ite(c, a, b, 'd'), lambda m: fa(m) if fc(m) else fb(m)
def cmp_(rng, syms, d):
    p = rng.choice(['olt', 'ole', 'oeq', 'one', 'ult', 'ule', 'ueq', 'une', 'ogt', 'oge', 'uno', 'ord'])
    a, fa = rnd(rng, syms, d); b, fb = rnd(rng, syms, d)
    return T.fcmp(p, a, b), lambda m: T.cfcmp(p, fa(m), fb(m))
def main(n=3000, seed=1):
    rng = random.Random(seed)
    bad = 0; lows = [0, 0]
    for it in range(n):
        T.reset_terms()
        syms = []
        for i in range(3):
            sg = rng.random() < .6
            w = rng.choice([32, 64])
            b = rng.choice([1, 2, 3, 8, 20, 31, 52, 62, 64])
            lo, hi = (-(1 << b), 1 << b) if sg else (0, 1 << b)
            if rng.random() < .3: lo = 1
            hi = min(hi, (1 << (w - 1)) - 1 if sg else (1 << w) - 1)
            if sg: lo = max(lo, -(1 << (w - 1)))
            syms.append((T.sym(i, w, lo, hi, sg), w, sg))
        if rng.random() < .5:
            t, f = rnd(rng, syms, 4)
            isd = True
        else:
            t, f = cmp_(rng, syms, 3); isd = False
        for _ in range(12):
            m = {}
            for i, (s, w, sg) in enumerate(syms):
                lo, hi = s.a[1], s.a[2]
                v = rng.choice([lo, hi, max(lo, min(hi, 0)), rng.randint(lo, hi), max(lo, min(hi, rng.randint(-3, 3)))])
                m[i] = v & ((1 << w) - 1)
            try: want = f(m)
            except OverflowError: continue
            got = T.ev(t, m, {})
            ok = (T.f2b(want) == T.f2b(got) or (want != want and got != got)) if isd else want == got
            if isd and t.__class__ is T.T and ok and want == want and not math.isinf(want):
                l = T.flof(t)
                if l and not (l[0] <= want <= l[1]): ok = False
                if t.fx:
                    k, lo, hi, nz = t.fx
                    x = math.ldexp(want, k)
                    if x != int(x) or not lo <= x <= hi or (want == 0 and math.copysign(1, want) < 0 and not nz): ok = False
                    if t.xi and T.sgn(T.ev(t.xi[0], m, {}), t.xi[2]) * 2.0 ** -t.xi[1] != want: ok = False
            if ok and t.__class__ is T.T and rng.random() < .02:
                import z3
                if isd: g = T.icmp('eq', T.d2i(t), T.f2b(got), 64) if got == got else T.isnan(t)
                else: g = t if got else T.not_(t)
                if g.__class__ is T.T:
                    s = z3.Solver(); s.set('timeout', 4000); s.add(T.bv(g, 1))
                    for i, (x, w, sg) in enumerate(syms): s.add(z3.BitVec('s%d' % i, w) == m[i])
                    if s.check() == z3.unsat: ok = False; print('BV LOWERING')
                    lows[0] += 1
                    L = T.IntLower('nl'); s = z3.Solver(); s.set('timeout', 3000)
                    try: e = L.boolean(g)
                    except T.NoInt: e = None
                    if e is not None:
                        s.add(e); s.add(*L.side)
                        for i, (x, w, sg) in enumerate(syms): s.add(z3.Int('s%d' % i) == (T.sgn(m[i], w) if sg else m[i]))
                        if s.check() == z3.unsat: ok = False; print('INT LOWERING')
                        lows[1] += 1
            if not ok:
                bad += 1
                print('MISMATCH', it, want, got, m, T.show(t, 6)[:400])
                if bad > 5: return 1
                break
    print('fp selftest: %d expressions, %d bv and %d int lowerings, %d mismatches' % (n, lows[0], lows[1], bad))
    return bad
if __name__ == '__main__':
    sys.exit(1 if main(*(int(x) for x in sys.argv[1:])) else 0)
