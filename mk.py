#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from meta.py"""
import json, subprocess, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import PROPS, NA, NOTES
from lsx import props
with open('properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        d['quantifier'] = {'over': p['over'], 'text': p['qtext']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': p['mech'], 'where': ', '.join(p['files'])}]}
        f.write(json.dumps(d) + '\n')
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s', '--reverse'], capture_output=True, text=True).stdout.split('\n')
         if l and l.split(' ', 1)[1].startswith(('verif:', 'hook:'))]
checks = []
for p in PROPS:
    if p['id'] in NA: continue
    s = props.PROPS[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                   'technique': 'symbolic execution of the LLVM IR rustc emits from /repo, every path and assertion decided by an SMT solver (z3), counterexamples replayed natively',
                   'level': 'model_checking',
                   'level_note': 'All paths and all input values within: ' + s['bounds'] + '. Outside: ' + s['outside'] + '.'})
m = {'version': 1, 'setup_cmd': 'python3-vt setup.py',
     'hooks': {'guard': '--cfg verif_hooks', 'enable': "RUSTFLAGS='--cfg verif_hooks' (lsx/build.py sets it for every harness build)", 'source_commits': hooks},
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': NOTES}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(checks), 'checks', len(NA), 'not applicable')
