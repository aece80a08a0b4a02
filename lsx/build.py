"""Builds the harness crate from /repo's working tree: LLVM IR for the executor, native binaries for replay."""
import os, subprocess, glob, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, 'harness')
WORK = os.environ.get('VERIF_WORK') or os.path.join(ROOT, 'work')

def env(tgt, extra=''):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_PROFILE'): e.pop(k)
    e['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, tgt)
    e['RUSTC_WRAPPER'] = ''
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTFLAGS'] = '--cap-lints=warn --cfg verif_hooks ' + extra
    return e

def _run(cmd, e, log):
    with open(log, 'w') as f:
        r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        tail = open(log).read()[-3000:]
        raise RuntimeError('build failed: %s\n%s' % (' '.join(cmd), tail))

def build_ir(bin_, features=''):
    """post-LTO LLVM IR of one harness binary; returns the path"""
    os.makedirs(WORK, exist_ok=True)
    tgt = 'ir-' + bin_
    d = os.path.join(WORK, tgt, 'release', 'deps')
    for f in glob.glob(os.path.join(d, bin_ + '-*')):
        os.remove(f)
    cmd = ['cargo', 'rustc', '--offline', '--locked', '--release', '--bin', bin_]
    if features: cmd += ['--features', features]
    cmd += ['--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C',
            'link-args=-Wl,--unresolved-symbols=ignore-all']
    _run(cmd, env(tgt), os.path.join(WORK, 'build-ir-%s.log' % bin_))
    l = glob.glob(os.path.join(d, bin_ + '-*.ll'))
    if len(l) != 1:
        raise RuntimeError('expected one IR file, found %r' % l)
    return l[0]

def build_native(bin_, profile, features=''):
    """native replay binary; profile 'dev' (overflow checks, debug assertions) or 'user' (release semantics)"""
    os.makedirs(WORK, exist_ok=True)
    tgt = 'nat-' + bin_
    fs = 'replay' + (',' + features if features else '')
    cmd = ['cargo', 'build', '--offline', '--locked', '--bin', bin_, '--features', fs, '--profile', profile]
    _run(cmd, env(tgt), os.path.join(WORK, 'build-%s-%s.log' % (profile, bin_)))
    return os.path.join(WORK, tgt, 'debug' if profile == 'dev' else profile, bin_)
