"""Make, confirm and try a seeded bug.  usage: seed.py make <spec.py>... | try <id>...
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (rust main, '@REPO@' = /repo's path)."""
import json, os, re, shutil, subprocess, sys
V = '/verif'
W = '/tmp/seedwork'
SH = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not (or the program failed)
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/demo_@ID@
rm -rf /tmp/demo_@ID@
mkdir -p $d/src
sed "s#@REPO@#$repo#g" "$here/demo.rs" > $d/src/main.rs
cp "$repo/Cargo.lock" $d/Cargo.lock
cat > $d/Cargo.toml <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
adhoc_audio = { path = "$repo", default-features = false }
serde = { version = "1.0.130", features = ["derive"] }
bincode = "1.3.3"
[workspace]
TOML
cd $d && CARGO_TARGET_DIR=$d/target timeout 250 cargo run --offline -q
rc=$?
rm -rf /tmp/demo_@ID@
exit $rc
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def fresh():
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo %s' % W)
def demo(d, cwd):
    return sh('bash %s/demo.sh' % d, cwd=cwd)
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = V + '/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in g['EDITS']:
        p = W + '/' + f
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    rc, out = sh('git diff', cwd=W)
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.rs', 'w').write(g['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write(g.get('SHELL', SH).replace('@ID@', g['ID']))
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    rc, out = sh('cargo build --offline 2>&1 && cargo test --offline 2>&1', cwd=W)
    fails = re.findall(r'^test (\S+) \.\.\. FAILED', out, re.M)
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) else [])
    print(g['ID'], 'tests rc', rc, 'failed', fails)
    if rc and not fails: print(out[-1500:])
    a, o1 = demo(d, '/repo'); b, o2 = demo(d, W)
    print(g['ID'], 'demo unchanged', a, 'patched', b, 'OK' if a == 0 and b else 'BAD')
    if a or not b: print(o1[-1500:], o2[-500:])
    return rc == 0 and a == 0 and b != 0
def attempt(i, show=True):
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    fresh()
    rc, out = sh('git apply %s/patch.diff' % d, cwd=W)
    if rc: print(i, 'patch does not apply', out); return
    rc, out = sh('timeout 900 python3 -m sa.run %s' % m['property'], cwd=V, env={'VERIF_REPO': W})
    ls = [l for l in out.splitlines() if 'VIOLATION' in l or 'undecided' in l.lower()]
    print(i, m['property'], 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, ls[:2], flush=True)
    if rc != 1: print(out[-600:])
if __name__ == '__main__':
    for x in sys.argv[2:]:
        if sys.argv[1] == 'make':
            if make(x): 
                g = {}; exec(open(x).read(), g)
                try: attempt(g['ID'])
                except Exception as e: print(e)
        else:
            attempt(x)
    shutil.rmtree(W, ignore_errors=True)
