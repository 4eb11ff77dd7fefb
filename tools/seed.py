#!/usr/bin/env python3
"""Planted bugs: make and validate them in a scratch copy of /repo and /verif.

  seed.py new ID PROPERTY 'needs' 'what it breaks'   patch from the scratch repo's diff, demo from stdin
                                                     (python: res(text, **case) -> observation; assert ...)
  seed.py check ID...      validate (build, stable tests, demo) and run the property's check
  seed.py run ID [CHECK]   only run a check against the planted bug
  seed.py reset            scratch copies from the current trees
"""
import json, os, re, shutil, subprocess, sys
S = os.environ.get('SEED_SCRATCH', '/tmp/seed')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'seeded')

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def reset():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(f'{S}/repo'):
        sh(f'cp -a /repo {S}/repo')
    sh(f'cd {S}/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .')
    os.makedirs(f'{S}/verif', exist_ok=True)
    sh(f'rsync -a --delete --exclude .build --exclude .git --exclude evidence {V}/ {S}/verif/ || '
       f'(rm -rf {S}/verif/lib {S}/verif/spec {S}/verif/harness; cp -a {V}/lib {V}/spec {V}/harness {V}/corpus {V}/check.py {V}/known-findings.txt {S}/verif/)')
    sh(f"sed -i 's#\"/repo\"#\"{S}/repo\"#' {S}/verif/harness/Cargo.toml")
    sh(f"mkdir -p {S}/vp && for f in /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.toml; do sed 's#/repo#{S}/repo#g; s#/opt/vp#{S}/vp#g' $f > {S}/vp/$(basename $f); done; cp /opt/vp/BASELINE.json {S}/vp/")

def build_harness():
    sys.path.insert(0, f'{V}/lib')
    r = sh('cargo build --offline --locked', cwd=f'{S}/verif/harness',
           env=dict(os.environ, RUSTUP_TOOLCHAIN='1.89.0', CARGO_TARGET_DIR=f'{S}/verif/.build/target'))
    if r.returncode:
        print(r.stderr[-2000:]); return False
    return True

def demo(i):
    return sh(f'python3 {D}/{i}/demo.py {S}/verif/.build/target/debug/ftml-harness').returncode

def clean():
    sh(f'cd {S}/repo && git checkout -q -- .')

def apply(i):
    clean()
    r = sh(f'git apply {D}/{i}/patch.diff', cwd=f'{S}/repo')
    if r.returncode: print(i, 'patch does not apply', r.stderr)
    return r.returncode == 0

def tests():
    r = sh(f'bash {S}/vp/build.sh')
    if r.returncode: return 'does not build ' + r.stderr[-800:]
    sh(f'bash {S}/vp/test.sh {S}/out.json')
    base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open(f'{S}/out.json'))
    want = base.get('stable') or base.get('passed') or base
    want = set(want if isinstance(want, list) else want.keys())
    got = out.get('passed') or [k for k, v in out.items() if v in ('pass', 'passed', True)]
    miss = want - set(got)
    return 'tests fail: ' + ', '.join(sorted(miss)[:5]) if miss else ''

def run(i, chk=None):
    p = chk or json.load(open(f'{D}/{i}/meta.json'))['property']
    r = sh(f'python3 check.py {p}', cwd=f'{S}/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    return r.returncode, (r.stdout + r.stderr)[-700:]

def check(i):
    if not build_harness(): return
    d0 = demo(i)
    if not apply(i): return
    t = tests()
    ok = build_harness()
    d1 = demo(i) if ok else None
    rc, out = run(i)
    clean()
    print(f'{i}: demo clean={d0} patched={d1}; tests {t or "ok"}; check rc={rc}')
    print('   ', out.strip().replace('\n', '\n    ')[:900])

def light(d):
    """The observation program without what recompiles libraries: /repo's own build is reused."""
    shutil.rmtree(f'{d}/harness', ignore_errors=True)
    shutil.copytree(f'{V}/harness', f'{d}/harness', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    p = f'{d}/harness/Cargo.toml'
    t = open(p).read()
    t = re.sub(r'# the libraries.*?\n\n', '\n', t, flags=re.S)
    t = re.sub(r'\[profile.*', '', t, flags=re.S)
    open(p, 'w').write(t)
    p = f'{d}/harness/src/obs.rs'
    t = open(p).read()
    t = re.sub(r'/// What the libraries make.*?\n}\n', 'fn library(_: &Value, _: &mut Map<String, Value>, _: &mut Map<String, Value>) {}\n', t, flags=re.S)
    open(p, 'w').write(t)
    open(f'{d}/demo.sh', 'w').write(DEMO)

def new(i, prop, needs, breaks):
    d = f'{D}/{i}'
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', cwd=f'{S}/repo').stdout
    if diff.strip():
        open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    body = sys.stdin.read()
    open(f'{d}/demo.py', 'w').write(PRE + body)
    open(f'{d}/demo.sh', 'w').write(DEMO)
    os.chmod(f'{d}/demo.sh', 0o755)
    light(d)
    clean()

DEMO = '''#!/bin/bash
# Builds the observation program beside this script against /repo, with the libraries
# /repo's own build has compiled already, and checks what it shows.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$work/h" || exit 3
cd "$work/h" || exit 3
export RUSTUP_TOOLCHAIN=1.89.0 CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=/repo/target
cp /repo/Cargo.lock .
cargo build --offline >"$work/log" 2>&1 || { tail -20 "$work/log"; exit 3; }
cp /repo/target/debug/ftml-harness "$work/observe" && python3 "$here/demo.py" "$work/observe"
'''
PRE = '''import json, subprocess, sys, tempfile, os
BIN = sys.argv[1]
def res(text, op='full', **case):
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/in', 'w') as f:
            f.write(json.dumps(dict(case, id=0, op=op, text=text)) + '\\n')
        r = subprocess.run([BIN, d + '/in', d + '/out', '1', '20000', '8192'], capture_output=True, text=True)
        try:
            return json.loads(open(d + '/out').readline())
        except Exception:
            return {'outcome': 'abort', 'message': r.stderr[-300:]}
'''
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'light':
        for i in sorted(os.listdir(D)): light(f'{D}/{i}')
    elif a[0] == 'new': new(*a[1:5])
    elif a[0] == 'reset': reset()
    elif a[0] == 'run':
        reset(); apply(a[1]); print(*run(*a[1:3])); clean()
    elif a[0] == 'check':
        reset()
        for i in (a[1:] or sorted(os.listdir(D))): check(i)
