"""C22: the codecs are Send, Sync and 'static: a witness crate that builds only if they are, and a walk over everything they store."""
import json
import os
import re
import shutil

from .. import extract as ex
from ..kit import Kit

FINISH = {'rule': 'the witness crate /verif/witness, whose functions carry the bounds, type-checks against the current tree; no stored type is a pointer, a borrow or an unsynchronised cell behind an unsafe impl', 'floor': 30,
          'trusted': ('rustc trait solver (auto traits of the standard library types)', 'the type table of the extraction driver')}

# a type the standard library leaves without Send or Sync, and why
UNSHARED = {'std::rc::': 'reference count without synchronisation', 'std::cell::': 'interior mutability without synchronisation', 'std::sync::MutexGuard': 'lock guard',
            'std::ptr::NonNull': 'raw pointer', 'std::thread::LocalKey': 'thread-local variable'}
# what these hold is only reached through a lock (or not at all)
LOCKED = ('std::sync::Mutex', 'std::marker::PhantomData')
AUTO = re.compile(r'`(.*?)` (cannot be sent between threads safely|cannot be shared between threads safely|does not live long enough)')
NAMES = ('adhoc_moved', 'adhoc_shared', 'adhoc_owned', 'wav_moved', 'wav_shared', 'wav_owned', 'info_moved', 'info_shared', 'info_owned', 'used_in_threads')


def witness(ck):
    src = os.path.join(ex.VERIF, 'witness')
    os.makedirs(ex.CACHE, exist_ok=True)
    if ex.REPO != '/repo':
        alt = os.path.join(ex.CACHE, 'src-witness')
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(src, alt, ignore=shutil.ignore_patterns('target'))
        m = os.path.join(alt, 'Cargo.toml')
        s = open(m).read().replace('"/repo', '"' + ex.REPO)
        with open(m, 'w') as f:
            f.write(s)
        src = alt
    target = os.path.join(ex.CACHE, 't-witness')
    for fp in (os.path.join(target, 'debug', '.fingerprint'), os.path.join(target, 'debug', 'incremental'), os.path.join(target, 'debug', 'build')):
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(('adhoc_audio', 'witness')):
                    shutil.rmtree(os.path.join(fp, x))
    rc, o = ex.run(['cargo', 'check', '--offline', '--message-format=json'], src, {'CARGO_TARGET_DIR': target})
    text = open(os.path.join(src, 'src', 'lib.rs')).read().split('\n')
    errors, other, ok = [], [], False
    for l in o.split('\n'):
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('reason') == 'build-finished':
            ok = d.get('success', False)
        m = d.get('message')
        if d.get('reason') != 'compiler-message' or not isinstance(m, dict) or m.get('level') != 'error' or not m.get('spans'):
            continue
        code = (m.get('code') or {}).get('code')
        mine = d.get('target', {}).get('name') == 'witness'
        a = AUTO.search(m['message'])
        if mine and code == 'E0277' and a:
            sp = next((s for s in m['spans'] if s.get('is_primary') and s['file_name'].endswith('lib.rs')), None)
            fn = None
            if sp:
                for x in range(sp['line_start'] - 1, -1, -1):
                    r = re.search(r'pub fn (\w+)', text[x])
                    if r:
                        fn = r.group(1)
                        break
            errors.append((fn, m['message'], (m.get('rendered') or '')[:1500]))
        else:
            other.append(m.get('rendered') or m['message'])
    return rc == 0 and ok, errors, other


def check(ck):
    with ck.scope('witness'):
        ok, errors, other = witness(ck)
        bad = {}
        for fn, msg, r in errors:
            bad.setdefault(fn, []).append((msg, r))
        if other or (not ok and not errors):
            ck.unknown('the witness crate builds', 'witness', (other or ['no message'])[0][:400])
        for fn in NAMES:
            if fn in bad:
                for msg, r in bad[fn]:
                    ck.need(False, 'the bound in the witness holds', 'witness/src/lib.rs: %s' % fn, '%s\n%s' % (msg, r))
            elif ok:
                ck.need(True, 'the bound in the witness holds', 'witness/src/lib.rs: %s' % fn)
        for fn in bad:
            if fn not in NAMES:
                ck.need(False, 'the bound in the witness holds', 'witness/src/lib.rs', bad[fn][0][0])
        ck.roots += ['witness::' + n for n in NAMES]
    with ck.scope('what a codec stores'):
        ck.kit = Kit()
        p = ck.kit.p
        for nm in ('AdhocCodec', 'WavCodec', 'StreamInfo'):
            for t, path in stored(p, ck.kit.ty(nm)).items():
                x = p.types[t]
                why = None
                if x['k'] in ('ref',):
                    why = 'a borrow'
                elif x['k'] == 'ptr':
                    why = 'a raw pointer'
                elif x['k'] == 'adt':
                    why = next((w for n, w in UNSHARED.items() if x['name'].startswith(n)), None)
                ck.need(why is None, 'a stored type is owned data that may be shared', '%s%s' % (nm, ' ' + path if path else ''), '%s%s' % (x['s'], ': ' + why if why else ''))


def stored(p, ty, seen=None, path=''):
    """everything a value of the type stores; of the standard library's own types only what they are filled with"""
    seen = {} if seen is None else seen
    if ty is None or ty in seen:
        return seen
    seen[ty] = path
    t = p.types[ty]
    k = t['k']
    if k == 'adt' and t['name'].startswith(('std::', 'core::', 'alloc::')):
        if not t['name'].startswith(LOCKED):
            for a in t['targs']:
                stored(p, a, seen, path + ' element')
    elif k == 'adt':
        for v in t['v']:
            for n, f in v['f']:
                stored(p, f, seen, (path + '.' + n).strip('.'))
    elif k in ('array', 'slice'):
        stored(p, t['e'], seen, path + ' element')
    elif k in ('tuple', 'closure'):
        for i, f in enumerate(t.get('f', [])):
            stored(p, f, seen, '%s.%d' % (path, i))
    return seen
