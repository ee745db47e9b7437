"""C16: nothing but the codec's state and the arguments is reachable from the codecs (call-graph and type reachability)."""
from ..graph import Graph, walk
from ..kit import Kit, Missing
from ..check import TRUSTED

FINISH = {'rule': 'call graph of the monomorphic program from every public codec entry point: no function, static, intrinsic, cast or type that brings in outside or shared state is reachable',
          'floor': 200}

# crates whose code only computes on its arguments (its I/O goes through the reader or writer passed in)
PURE = {'core', 'alloc', 'serde', 'serde_core', 'bincode', 'adhoc_audio', 'probe', 'byteorder'}
# functions of std that only compute on their arguments
STD_PURE = ('std::f32::', 'std::f64::', 'std::path::Path::', 'std::io::Cursor', 'std::io::Write', 'std::io::Read', 'std::io::Seek', 'std::io::Error', 'std::io::impls',
            'std::io::error', 'std::io::cursor', 'std::io::buffered', 'std::io::util', 'std::ascii', 'std::num', 'std::error')
# modules that bring in something that is neither the state nor an argument
OUTSIDE = {
    'clock': ('std::time', 'core::time::Instant', 'std::sys::time', 'std::sys::pal'), 'environment': ('std::env',), 'file system': ('std::fs',),
    'network': ('std::net',), 'threads': ('std::thread', 'std::sync', 'rayon', 'core::sync::atomic', 'std::sync::atomic', 'alloc::sync', 'crossbeam'),
    'process': ('std::process', 'std::os', 'std::sys'), 'console': ('std::io::stdio', 'std::io::_print', 'std::io::_eprint', 'std::io::stdin', 'std::io::stdout', 'std::io::stderr', 'std::io::Stdin', 'std::io::Stdout', 'std::io::Stderr'),
    'randomness': ('std::hash::random', 'std::collections::hash', 'std::hash::RandomState', 'std::random', 'core::random', 'rand'), 'allocator addresses': ('std::ptr::hash', 'core::fmt::Pointer'),
}
LIBM = ('sin', 'cos', 'tan', 'exp', 'exp2', 'exp_m1', 'ln', 'log', 'log2', 'log10', 'ln_1p', 'pow', 'powf', 'powi', 'cbrt', 'hypot', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh',
        'asinh', 'acosh', 'atanh', 'sin_cos', 'gamma', 'ln_gamma', 'erf', 'erfc')
PLATFORM = ('to_ne_bytes', 'from_ne_bytes')
ALLOC = ('alloc::alloc::__rust_alloc', 'alloc::alloc::__rust_dealloc', 'alloc::alloc::__rust_realloc', 'alloc::alloc::__rust_alloc_zeroed', 'alloc::alloc::__rust_no_alloc_shim_is_unstable_v2')
# results that depend on addresses or on the allocator
ADDRESS = ('std::ptr::const_ptr::<impl *const T>::addr', 'std::ptr::mut_ptr::<impl *mut T>::addr', 'expose_provenance', 'align_offset', 'is_aligned', 'is_aligned_to', 'std::ptr::addr_eq', 'fmt::Pointer')
SHARED = ('std::rc::Rc', 'std::rc::Weak', 'std::sync::Arc', 'std::sync::Weak', 'std::cell::Cell', 'std::cell::RefCell', 'std::cell::UnsafeCell', 'std::cell::OnceCell', 'std::cell::LazyCell',
          'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::OnceLock', 'std::sync::LazyLock', 'std::sync::atomic', 'std::thread::LocalKey')


def roots(p):
    return [r for r in p.roots if r.startswith('root_')]


def classify(name):
    """what outside state a function brings in, or None"""
    n = name.replace('<', '').replace('&', '')
    for what, pre in OUTSIDE.items():
        for x in pre:
            if n.startswith(x + '::') or n == x or n.startswith(x + ' ') or n.startswith(x + '<'):
                return what
    last = name.split('::')[-1]
    if ('f32' in name or 'f64' in name) and last in LIBM:
        return 'platform-dependent floating-point function'
    if name.startswith('std::intrinsics::'):
        base = name[len('std::intrinsics::'):].split('::')[0].split('<')[0]
        b = base
        for suf in ('f16', 'f32', 'f64', 'f128'):
            if b.endswith(suf):
                b = b[:-len(suf)]
                if b in LIBM or b == 'fmuladd':
                    return 'platform-dependent floating-point function'
        if base.startswith('atomic_'):
            return 'threads'
        if base.endswith('_fast') or base.endswith('_algebraic'):
            return 'platform-dependent floating-point function'
    if any(last == x or name.endswith(x) for x in ADDRESS):
        return 'allocator addresses'
    return None


def two(g, s):
    """is the base of this powi the constant 2 (or 1/2)?  every product is exact then, in whatever order it is taken"""
    kd = g.p.insts[s.inst]['body']['blocks'][s.block]['t']['k']
    c = kd['Call']['args'][0].get('Constant') if isinstance(kd, dict) and 'Call' in kd else None
    for d in walk(c) if c else ():
        b = d.get('bytes')
        if isinstance(b, list) and all(isinstance(x, int) for x in b):
            return bytes(b) in (b'\0\0\0\x40', b'\0\0\0\x3f', b'\0' * 7 + b'\x40', b'\0' * 6 + b'\xe0\x3f')
    return False


def exact_powi(g, reach):
    """powi functions that are only ever called with base 2"""
    by = {}
    for k in reach:
        for s in g.sites(k):
            if s.callee is not None and g.p.insts[s.callee]['def'].endswith('::powi'):
                by.setdefault(s.callee, []).append(s)
    return {g.p.insts[k]['def'] for k, ss in by.items() if all(two(g, s) for s in ss)}


def type_parts(p, ty, seen=None, path=''):
    """(path, type index) of everything stored in a value of the type, through owned containers"""
    seen = {} if seen is None else seen
    if ty in seen:
        return seen
    seen[ty] = path
    t = p.types[ty]
    k = t['k']
    if k == 'adt':
        if t['name'] in ('std::vec::Vec', 'std::collections::VecDeque', 'std::boxed::Box', 'std::option::Option', 'std::collections::LinkedList', 'std::collections::BTreeMap', 'std::string::String'):
            for a in t['targs']:
                if not p.types[a]['s'].endswith('Global'):
                    type_parts(p, a, seen, path + ' element')
            return seen
        if any(t['name'].startswith(x) for x in SHARED):
            return seen
        for v in t['v']:
            for n, f in v['f']:
                type_parts(p, f, seen, (path + '.' + n).strip('.'))
    elif k in ('array', 'slice'):
        type_parts(p, t['e'], seen, path + ' element')
    elif k == 'tuple':
        for i, f in enumerate(t['f']):
            type_parts(p, f, seen, '%s.%d' % (path, i))
    elif k == 'closure':
        for f in t.get('f', []):
            type_parts(p, f, seen, path + ' capture')
    return seen


def cell_in(p, ty, seen=None):
    """a type with interior mutability stored in the type, or None"""
    seen = set() if seen is None else seen
    if ty is None or ty in seen:
        return None
    seen.add(ty)
    t = p.types[ty]
    if t['k'] == 'adt':
        if t['name'] == 'std::cell::UnsafeCell' or any(t['name'].startswith(x) for x in SHARED):
            return t['s']
        for v in t['v']:
            for _, f in v['f']:
                r = cell_in(p, f, seen)
                if r:
                    return r
        for a in t['targs']:
            r = cell_in(p, a, seen)
            if r:
                return r
    if t['k'] in ('array', 'slice', 'ref', 'ptr'):
        return cell_in(p, t['e'], seen)
    if t['k'] == 'tuple':
        for f in t['f']:
            r = cell_in(p, f, seen)
            if r:
                return r
    return None


def check(ck):
    ck.kit = Kit()
    p = ck.kit.p
    g = Graph(p)
    with ck.scope('call graph'):
        rs = roots(p)
        if not rs:
            raise Missing('entry points')
        ck.roots += rs
        reach = g.reach(rs)
        exact = exact_powi(g, reach)
        if exact:
            exact |= {d for d in (p.insts[k]['def'] for k in reach) if 'intrinsics::powi' in d or d.endswith(('::__powisf2', '::__powidf2'))}
        for k, by in reach.items():
            i = p.insts[k]
            ck.funcs[i['def']] = 1
            d, crate = i['def'], i['crate']
            what = classify(d)
            where = g.path(reach, k)
            if d in exact:
                what = None
            if what == 'allocator addresses':
                what = None     # judged at the calls in the library itself
            if what:
                ck.need(False, 'no %s is reachable' % what, where, d)
                continue
            if i.get('foreign'):
                ck.need(d in ALLOC or d in exact, 'no foreign function except the allocator is reachable', where, d)
                continue
            if crate in PURE:
                if crate == 'adhoc_audio':
                    ck.need(True, 'function of the library', d)
            elif crate == 'std':
                if d.replace('<', '').startswith(STD_PURE):
                    ck.need(True, 'function of std that only computes', d)
                else:
                    ck.unknown('std function of unknown effect', where, d)
            else:
                ck.unknown('function of another crate (%s)' % crate, where, d)
            # what the function mentions
            for s in g.sites(k):
                at = '%s:%s in %s' % (s.file.split('/')[-1] if crate != 'adhoc_audio' else s.file[s.file.find('src/'):], s.line, d)
                if s.kind == 'static':
                    c = cell_in(p, s.arg)
                    ck.need(c is None and s.name != 'thread-local variable', 'no shared mutable variable is used', at, '%s: %s' % (s.name, c or p.types[s.arg]['s'] if s.arg is not None else 'thread-local'))
                elif s.kind == 'asm':
                    ck.need(False, 'no inline assembly', at)
                elif s.kind == 'call' and crate == 'adhoc_audio':
                    last = s.name.split('::')[-1]
                    if last in PLATFORM:
                        ck.need(False, 'no conversion that depends on the platform', at, s.name)
                    w = None if s.name in exact else classify(s.name)
                    if w and (s.diverges or w == 'allocator addresses'):
                        ck.need(False, 'no %s is reachable' % w, at, s.name)
                    if s.name in ('std::mem::size_of', 'std::mem::align_of') and s.arg and any(p.types[t]['s'] in ('usize', 'isize') or p.types[t]['k'] in ('ref', 'ptr') for t in s.arg['targs']):
                        ck.need(False, 'no value that depends on the width of the platform', at, s.name)
            if crate == 'adhoc_audio':
                for ln, kind in casts(g, k):
                    if kind == 'PointerExposeAddress':
                        ck.need(False, 'no address is turned into a number', '%s:%s' % (d, ln), kind)
                for ln, t in mut_statics(g, k):
                    ck.need(False, 'no shared mutable variable is used', '%s:%s' % (d, ln), 'static mut of type ' + t)
    with ck.scope('what a codec stores'):
        for nm in ('AdhocCodec', 'WavCodec', 'StreamInfo'):
            ty = ck.kit.ty(nm)
            for t, path in type_parts(p, ty).items():
                x = p.types[t]
                bad = x['k'] in ('ref', 'ptr', 'fnptr', 'dyn', 'other') or (x['k'] == 'adt' and any(x['name'].startswith(s) for s in SHARED))
                ck.need(not bad, 'a codec stores only data of its own', '%s%s' % (nm, ' ' + path if path else ''), x['s'])


def casts(g, k):
    body = g.p.insts[k]['body']
    if not body:
        return
    for b in g.live_blocks(k):
        for s, ln in body['blocks'][b]['s']:
            if isinstance(s, dict) and 'Assign' in s:
                rv = s['Assign'][1]
                if isinstance(rv, dict) and 'Cast' in rv:
                    kd = rv['Cast'][0]
                    yield ln, kd if isinstance(kd, str) else next(iter(kd))


def mut_statics(g, k):
    """raw pointer constants to statics (static mut)"""
    from ..graph import walk
    body = g.p.insts[k]['body']
    if not body:
        return
    for b in g.live_blocks(k):
        blk = body['blocks'][b]
        for where, ln in [(blk['t']['k'], blk['t']['line'])] + [(s[0], s[1]) for s in blk['s']]:
            for c in g.consts(where):
                t = g.p.types.get(c.get('ty'))
                if t and t['k'] == 'ptr' and t.get('m') and any(True for a in g.allocs_of(c) for _ in g.alloc_statics(a)):
                    yield ln, g.p.types[t['e']]['s']
