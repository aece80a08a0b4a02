#!/usr/bin/env python3-vt
"""check.py <property>            decide one property (VERIF_TIER=quick|thorough)
check.py --replay <case file>   run one stored counterexample against the real code"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lsx import driver, props, build

def main():
    if sys.argv[1] == '--replay':
        txt = open(sys.argv[2]).read()
        w = [l for l in txt.split('\n') if l.startswith('# ') and not l.startswith('# property') and ' build: ' not in l][0].split()
        f = w[3] if len(w) > 3 else ''
        bad = False
        for prof in ('dev', 'user'):
            o = driver.native(build.build_native(w[1], prof, f), w[2], txt)
            print(prof, o)
            bad = bad or o[0] not in ('ok', 'assume')
        return 1 if bad else 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return driver.Check(pid, props.PROPS[pid], tier, seed).go()

sys.exit(main())
