"""differential test: the finite-domain procedure against the scalar evaluator and against z3"""
import random, sys, itertools, z3
from . import term as T, fd, selftest_fp as FP, selftest_int as IN
def main(n=400, seed=1):
    rng = random.Random(seed); bad = 0; zc = 0; uns = 0; q = 0; over = 0
    F = fd.Fd(5000)
    for it in range(n):
        T.reset_terms(); F = fd.Fd(5000)
        syms = []; fps = []
        for i in range(3):
            w = rng.choice([32, 64]) if it % 2 else rng.choice([8, 32, 64])
            sg = rng.random() < .6
            lim = 1 << (w - 1)
            lo = rng.choice([-3, 0, 1, -lim, lim - 9, rng.randrange(-lim, lim - 9)]) if sg else rng.choice([0, 1, 2 * lim - 9, rng.randrange(0, 2 * lim - 9)])
            hi = lo + rng.randrange(1, 6)
            s = T.sym(i, w, lo, hi, sg); syms.append(s); fps.append((s, w, sg))
        def cond():
            try: return (FP.cmp_(rng, fps, 3) if it % 2 else IN.cond(rng, syms, 3))[0]
            except IN.Undef: return None
        pc = [c for c in (cond() for _ in range(2)) if c.__class__ is T.T]
        goal = cond()
        if goal.__class__ is not T.T: continue
        import warnings
        allm = [dict(zip(range(3), m)) for m in itertools.product(*[[v & ((1 << s.w) - 1) for v in range(s.a[1], s.a[2] + 1)] for s in syms])]
        def ev(t, m):
            return T.ev(t, m, {})
        try:
            sat0 = [m for m in allm if all(ev(c, m) for c in pc)]
            if not sat0: continue
            sat = [m for m in sat0 if ev(goal, m)]
        except (OverflowError, ZeroDivisionError): over += 1; continue
        r = F.check(pc, goal, syms)
        if r is None: uns += 1; continue
        q += 1
        ok = (r[0] == 'sat') == bool(sat)
        if ok and r[0] == 'sat' and {k: v for k, v in r[1].items()} not in sat: ok = False
        if not ok:
            bad += 1; print('FD MISMATCH', it, r, sat[:2], T.show(goal, 6)[:300])
            if bad > 5: return 1
        elif it % 2 == 0 and rng.random() < .3:
            s = z3.Solver(); s.set('timeout', 2000)
            for c in pc + [goal]: s.add(T.bv(c, 1))
            for i, x in enumerate(syms):
                v = z3.BitVec('s%d' % i, x.w); o = z3.BitVec('o%d' % i, x.w)
                s.add(v == z3.BitVecVal(x.a[1], x.w) + o, z3.ULE(o, x.a[2] - x.a[1]))
            z = s.check()
            if z != z3.unknown:
                zc += 1
                if (z == z3.sat) != (r[0] == 'sat'): bad += 1; print('FD/Z3 MISMATCH', it, r, z)
    print('fd selftest: %d queries, %d also by z3, %d unsupported, %d mismatches' % (q, zc, uns, bad))
    return 1 if bad or q < n // 6 or zc < 5 else 0
if __name__ == '__main__':
    sys.exit(main(*(int(x) for x in sys.argv[1:])))
