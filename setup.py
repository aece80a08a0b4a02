#!/usr/bin/env python3-vt
"""setup: checks that the tools are there and that the executor's term rules agree with direct evaluation"""
import subprocess, sys
r = 0
for m, a in (('lsx.selftest_fp', '4000'), ('lsx.selftest_int', '2000'), ('lsx.selftest_fd', '3000')):
    r |= subprocess.run([sys.executable, '-m', m, a, '1']).returncode
for t in (['z3', '--version'], ['cargo', '--version']):
    r |= subprocess.run(t, stdout=subprocess.DEVNULL).returncode
sys.exit(1 if r else 0)
