"""Extraction of the monomorphic MIR of /repo's current tree (through the probe crates)."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache' if REPO == '/repo' else '.cache-alt')


class ExtractError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()[:24]


def tree(d, exts=('.rs', '.toml', '.lock', '.json')):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return out


def sysroot():
    rc, o = run(['rustc', '+nightly', '--print', 'sysroot'], VERIF)
    if rc:
        raise ExtractError('no nightly toolchain: ' + o)
    return o.strip().splitlines()[-1]


def driver():
    """path of the extraction driver, built when it is missing or out of date"""
    d = os.path.join(VERIF, 'driver')
    h = hash_files(tree(d))
    out = os.path.join(CACHE, 'driver')
    stamp = os.path.join(out, 'stamp')
    exe = os.path.join(out, 'debug', 'mirdump')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    rc, o = run(['cargo', '+nightly', 'build', '--offline'], d, {'CARGO_TARGET_DIR': out})
    if rc:
        raise ExtractError('the extraction driver does not build:\n' + o[-4000:])
    with open(stamp, 'w') as f:
        f.write(h)
    return exe


def repo_files():
    return tree(os.path.join(REPO, 'src')) + [p for p in (os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock')) if os.path.exists(p)]


def extract(probe, config=None, flags=''):
    """the dump of probe crate `probe` over the current tree of /repo"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _extract(probe, config or 'probe.json', flags)


def _extract(probe, config, flags):
    src = os.path.join(VERIF, probe)
    if REPO != '/repo':     # development only: analyse another copy of the repository
        alt = os.path.join(CACHE, 'src-' + probe)
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(src, alt, ignore=shutil.ignore_patterns('target'))
        m = os.path.join(alt, 'Cargo.toml')
        s = open(m).read().replace('"/repo', '"' + REPO)
        with open(m, 'w') as f:
            f.write(s)
        for m in tree(os.path.join(alt, 'src'), ('.rs',)):
            s = open(m).read()
            if '"/repo/' in s:
                with open(m, 'w') as f:
                    f.write(s.replace('"/repo/', '"' + REPO + '/'))
        src = alt
    cfg = os.path.join(VERIF, 'config', config)
    h = hash_files(repo_files() + tree(src) + tree(os.path.join(VERIF, 'driver')) + [cfg])
    dump = os.path.join(CACHE, '%s-%s.json' % (probe, h))
    if not os.path.exists(dump):
        for f in os.listdir(CACHE):
            if f.startswith(probe + '-') and f.endswith('.json'):
                os.remove(os.path.join(CACHE, f))
        exe = driver()
        target = os.path.join(CACHE, 't-' + probe)
        # forget what cargo knows about the two crates of interest, so that both are always recompiled
        for fp in (os.path.join(target, 'debug', '.fingerprint'), os.path.join(target, 'debug', 'build'), os.path.join(target, 'debug', 'incremental')):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(('adhoc_audio', 'probe')):
                        shutil.rmtree(os.path.join(fp, x))
        env = {
            'MIRDUMP_CONFIG': cfg, 'MIRDUMP_OUT': dump + '.tmp', 'MIRDUMP_CRATE': probe,
            'RUSTC_WRAPPER': exe, 'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'),
            'CARGO_TARGET_DIR': target,
            'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on ' + flags,
        }
        rc, o = run(['cargo', '+nightly', 'check', '--offline'], src, env)
        if rc or not os.path.exists(dump + '.tmp'):
            raise ExtractError('extraction of %s failed:\n%s' % (probe, o[-6000:]))
        os.rename(dump + '.tmp', dump)
    with open(dump) as f:
        return json.load(f)


if __name__ == '__main__':
    t = time.time()
    d = extract(sys.argv[1] if len(sys.argv) > 1 else 'probe')
    print(len(d['insts']), 'functions', len(d['roots']), 'roots', round(time.time() - t, 1), 's')
