#!/usr/bin/env python3
"""plant.py <id>: takes seeded/<id>/bug.py (PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS) and main.rs, writes patch.diff, demo.sh, meta.json,
and confirms in the scratch copy /tmp/sc that it builds, passes the stable tests, and that the demo tells the trees apart."""
import sys, os, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/sc'
DEMO = '''#!/bin/bash
# run with cwd /repo: builds main.rs against the working tree in a scratch folder
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D"/*.rs "$T/src/" && cp "$D/lock.txt" "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
boostvoronoi_ext = { path = "$R/workspace/boostvoronoi_ext" }
boostvoronoi_core = { path = "$R/workspace/boostvoronoi_core" }
[profile.dev]
opt-level = 1
EOF
cd "$T" || exit 3
RUSTFLAGS=--cap-lints=allow CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 cargo build --offline --quiet || exit 3
cd "$T" && timeout 60 ./target/debug/demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(i):
    d = os.path.join(ROOT, 'seeded', i)
    ns = {}
    exec(open(d + '/bug.py').read(), ns)
    if not os.path.isdir(SC):
        sh('cp -a /repo %s' % SC)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (SC, SC, SC))
    for f, a, b in ns['EDITS']:
        p = os.path.join(SC, f)
        t = open(p).read()
        assert t.count(a) == 1, (i, f, 'occurrences', t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', SC, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
    demo = DEMO.replace('--cap-lints=allow', '"--cap-lints=allow --cfg verif_hooks"') if 'verif_hooks' in open(d + '/main.rs').read() else DEMO
    open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    if 'mod common' in open(d + '/main.rs').read():
        shutil.copy(os.path.join(ROOT, 'tools/demo_common.rs'), d + '/common.rs')
    if not os.path.exists(d + '/lock.txt'):
        shutil.copy(os.path.join(ROOT, 'tools/demo.lock'), d + '/lock.txt')
    if '-q' not in sys.argv:
        r = sh('cd %s && . /opt/vp/env.sh && export CARGO_TARGET_DIR=%s/target && cd %s && cargo test --workspace --features $FEATURES --no-fail-fast --offline -- --test-threads 8 > /tmp/sc.log 2>&1; python3 /opt/vp/results.py /tmp/sc.json cargo:/tmp/sc.log' % (SC, SC, SC), executable='/bin/bash')
        try:
            res = json.load(open('/tmp/sc.json')); base = json.load(open('/opt/vp/BASELINE.json'))
            stable = base.get('stable') or base.get('passed') or base
            stable = list(stable)
            miss = [t for t in stable if t not in set(res['passed'])]
            print(i, 'stable tests', len(stable), 'failing with patch:', miss[:5])
        except Exception as e:
            print(i, 'test run', repr(e), r.stdout[-500:])
    a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=SC)
    print(i, 'demo: clean', a.returncode, 'patched', b.returncode, '' if a.returncode == 0 and b.returncode not in (0, 3) else 'BAD ' + a.stdout[-800:] + b.stdout[-800:])
    sh('git -C %s checkout -q -- .' % SC)
main(sys.argv[1])
