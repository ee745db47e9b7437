"""Apply behaviour-preserving edits (benign/*.py: EDITS, CHECKS) to a copy and see that the checks stay quiet.  usage: benign.py [id...] [--checks C01,C02]"""
import glob, os, shutil, subprocess, sys
V = '/verif'
W = '/tmp/benignwork' + (os.environ.get('BW') or '')
args = [a for a in sys.argv[1:] if not a.startswith('--')]
over = next((a.split('=')[1].split(',') for a in sys.argv[1:] if a.startswith('--checks=')), None)
bad = 0
for f in sorted(glob.glob(V + '/benign/*.py')):
    i = os.path.basename(f)[:-3]
    if args and not any(a in i for a in args):
        continue
    g = {}
    exec(open(f).read(), g)
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run('cp -a /repo ' + W, shell=True)
    for fn, old, new in g['EDITS']:
        p = W + '/' + fn
        t = open(p).read()
        assert t.count(old) >= 1, (i, fn, old)
        open(p, 'w').write(t.replace(old, new, 1))
    r = subprocess.run('cargo test --offline 2>&1', shell=True, cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(i, 'TESTS FAIL', r.stdout[-1500:])
        bad += 1
        continue
    for c in over or g['CHECKS']:
        r = subprocess.run('timeout 900 python3 -m sa.run ' + c, shell=True, cwd=V, env={**os.environ, 'VERIF_REPO': W}, capture_output=True, text=True)
        ls = r.stdout.splitlines()
        und = [l for l in ls if 'undecided:' in l]
        print(i, c, 'rc', r.returncode, ls[-1] if ls else r.stderr[-300:], flush=True)
        if r.returncode:
            bad += 1
            print('   ' + '\n   '.join(ls[:8]))
        for l in und[:2]:
            print('   ', l[:300])
shutil.rmtree(W, ignore_errors=True)
sys.exit(bad != 0)
