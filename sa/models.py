"""Meaning of the standard library functions the analysed code uses (keyed by resolved name)."""
import re
from .terms import *
from .interp import *

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


# ---------------------------------------------------------------------------------------- helpers
def variant_index(I, ty, nm):
    for i, v in enumerate(I.p.types[ty]['v']):
        if v['n'] == nm:
            return i
    raise Gap('variant ' + nm)


def some(I, ty, v):
    return agg(ty, variant_index(I, ty, 'Some'), [v])


def none(I, ty):
    return agg(ty, variant_index(I, ty, 'None'), [])


def ok(I, ty, v):
    return agg(ty, variant_index(I, ty, 'Ok'), [v])


def err(I, ty, v):
    return agg(ty, variant_index(I, ty, 'Err'), [v])


def variant_ty(I, ty, nm, k=0):
    return I.p.types[ty]['v'][variant_index(I, ty, nm)]['f'][k][1]


def unit(I):
    return agg(I.p.find_type('()'), 0, [])


def norm(I, st, v):
    v = I.resolve_ite(st, v)
    if v.op == 'ite':
        raise Fork(v.a[0])
    return v


def loc(I, st, r):
    """(obj, path) of a thin reference"""
    return I.deref(st, norm(I, st, r))


def get(I, st, r):
    obj, path = loc(I, st, r)
    return norm(I, st, I.read(st, obj, path))


def put(I, st, r, v):
    obj, path = loc(I, st, r)
    I.write(st, obj, path, v)


def as_slice(I, st, r, ty=None):
    """(obj, path, off, len) of a slice, array or vector reference"""
    r = norm(I, st, r)
    while r.op == 'agg':
        r = norm(I, st, r.a[2][0])
    if r.op != 'ref':
        raise Gap('slice reference ' + r.op)
    if r.a[2] is not None:
        return r.a[0], r.a[1], r.a[2], r.a[3]
    v = norm(I, st, I.read(st, r.a[0], r.a[1]))
    if v.op == 'vec':
        return r.a[0], r.a[1] + (('buf',),), ZERO, v.a[0]
    if v.op == 'arrc':
        return r.a[0], r.a[1], ZERO, K(len(v.a[1]))
    if ty is not None:
        t = I.p.types[ty]
        if t['k'] in ('ref', 'ptr') and I.p.types[t['e']]['k'] == 'array':
            return r.a[0], r.a[1], ZERO, K(I.p.types[t['e']]['n'])
    raise Gap('slice of ' + v.op)


def elem(s, k):
    obj, path, off, ln = s
    return mkref(obj, path + (('i', add(off, k)),))


def sub_slice(s, a, n):
    return mkref(s[0], s[1], add(s[2], a), n)


def rd(I, st, s, k):
    return I.read(st, s[0], s[1] + (('i', add(s[2], k)),))


def split(c, cond):
    """[(bool, state)] for the feasible outcomes"""
    return c.I.branch(c.st, cond)


def slice_arr(I, st, s):
    """array value holding the elements of the slice from index 0"""
    v = I.read(st, s[0], s[1])
    return shift(v, s[2])


def shift(v, off):
    c = cval(off)
    if c == 0:
        return v
    if v.op == 'window':
        return mk('window', v.a[0], add(v.a[1], off))
    if v.op == 'arrc' and c is not None:
        return mk('arrc', v.a[0], v.a[1][c:])
    if v.op == 'fill':
        return v
    return mk('window', v, off)


def ety_of(I, ty):
    t = I.p.types[ty]
    while t['k'] in ('ref', 'ptr'):
        t = I.p.types[t['e']]
    if t['k'] in ('slice', 'array'):
        return t['e']
    if t['k'] == 'adt':
        return t['targs'][0]
    return None


def write_range(I, st, s, n, src):
    """elements 0..n of slice s := src"""
    cn = cval(n)
    if cn is not None and cn <= 64:
        vals = [I.arr_select(st, src, K(k)) for k in range(cn)]
        for k, v in enumerate(vals):
            I.write(st, s[0], s[1] + (('i', addk(s[2], k)),), v)
        return
    old = I.read(st, s[0], s[1])
    co = cval(s[2])
    new = mk('concat', src, n, shift(old, add(s[2], n)))
    if co != 0:
        new = mk('concat', old, s[2], new)
    I.write(st, s[0], s[1], new)


# ---------------------------------------------------------------------------------------- no-ops, sizes, identity
def ident(c):
    return c.ret(c.args[0])


def noop(c):
    return c.unit()


for n in ('<I as std::iter::IntoIterator>::into_iter', '<T as std::convert::From<T>>::from', 'std::hint::must_use', 'std::hint::black_box',
          'std::convert::identity', 'std::io::Read::by_ref', 'std::iter::Iterator::by_ref', 'std::io::Write::by_ref',
          'core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'std::iter::Iterator::fuse'):
    M[n] = ident
del M['std::iter::Iterator::fuse']


@model('std::mem::size_of', 'intrinsic:size_of', 'std::intrinsics::size_of')
def size_of(c):
    t = c.I.p.types[c.targs[0]]
    if 'size' not in t:
        return NotImplemented
    return c.ret(K(t['size']))


@model('std::mem::align_of')
def align_of(c):
    return c.ret(K(c.I.p.types[c.targs[0]]['align']))


@model('std::mem::size_of_val')
def size_of_val(c):
    t = c.I.p.types[c.targs[0]]
    if t['k'] == 'slice':
        s = as_slice(c.I, c.st, c.args[0])
        return c.ret(scale(s[3], c.I.p.types[t['e']]['size']))
    if 'size' not in t:
        return NotImplemented
    return c.ret(K(t['size']))


@model('std::mem::drop', 'std::mem::forget')
def drop_(c):
    return c.unit()


@model('std::mem::replace')
def mem_replace(c):
    old = get_raw(c.I, c.st, c.args[0])
    st = c.st.copy()
    put(c.I, st, c.args[0], c.args[1])
    return [(st, old)]


@model('std::boxed::Box::<T>::new')
def box_new(c):
    b = c.I.mk_sym(c.dty, c.I.fresh('box'))
    if b.op != 'sym':
        return NotImplemented
    st = c.st.copy()
    c.I.objty[('D', b.a[1])] = c.atys[0]
    st.mem[('D', b.a[1])] = c.args[0]
    return [(st, b)]


def get_raw(I, st, r):
    obj, path = loc(I, st, r)
    return I.read(st, obj, path)


@model('std::mem::swap')
def mem_swap(c):
    a, b = get_raw(c.I, c.st, c.args[0]), get_raw(c.I, c.st, c.args[1])
    st = c.st.copy()
    put(c.I, st, c.args[0], b)
    put(c.I, st, c.args[1], a)
    return [(st, agg(c.dty, 0, []))]


@model('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read')
def ptr_read(c):
    return c.ret(get_raw(c.I, c.st, c.args[0]))


@model('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def ptr_write(c):
    st = c.st.copy()
    put(c.I, st, c.args[0], c.args[1])
    return [(st, agg(c.dty, 0, []))]


# ---------------------------------------------------------------------------------------- closures
@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def fn_call(c):
    I = c.I
    if c.inst is None:
        return NotImplemented
    ins = I.p.insts[c.inst]
    body = ins.get('body')
    if body is None:
        # constructor functions and plain items
        f = c.args[0]
        return fn_item(c, f, list(c.args[1].a[2]))
    if body.get('spread'):
        return I.enter(c, c.inst, c.args)
    tup = norm(I, c.st, c.args[1])
    args = list(tup.a[2])
    if body['argc'] == len(args) + 1:
        args = [c.args[0]] + args
    return I.enter(c, c.inst, args)


def fn_item(c, f, args):
    I = c.I
    f = norm(I, c.st, f)
    if f.op == 'ref':
        f = get(I, c.st, f)
    t = I.p.types[f.a[0]] if f.op == 'agg' else None
    if t is None or t['k'] != 'fndef':
        raise Gap('call of an unknown function value')
    c.ft = t
    c.args = args
    return I.dispatch_ft(c)


# ---------------------------------------------------------------------------------------- integers
INTS = [n for n in INT]


def int_models(n):
    w, sg = INT[n]
    lo, hi = trange(n)
    P = 'core::num::<impl %s>::' % n

    def wrapping(f):
        def m(c):
            return c.ret(c.I.wrapv(c.st, n, f(c.args[0], c.args[1])))
        return m
    for nm, f in (('add', add), ('sub', sub), ('mul', mul)):
        M[P + 'wrapping_' + nm] = wrapping(f)
        M[P + 'unchecked_' + nm] = (lambda f: lambda c: c.ret(f(c.args[0], c.args[1])))(f)

        def sat(c, f=f):
            p = f(c.args[0], c.args[1])
            I = c.I
            hi_ok = I.prove(c.st, le(p, K(hi)))
            lo_ok = I.prove(c.st, le(K(lo), p))
            r = p
            return c.ret(lim(p, None if lo_ok else K(lo), None if hi_ok else K(hi)))
        M[P + 'saturating_' + nm] = sat

        def chk(c, f=f):
            p = f(c.args[0], c.args[1])
            good = band(le(K(lo), p), le(p, K(hi)))
            return opt_split(c, good, lambda: p)
        M[P + 'checked_' + nm] = chk

        def ovf(c, f=f):
            p = f(c.args[0], c.args[1])
            bad = bor(lt(p, K(lo)), lt(K(hi), p))
            return c.ret(agg(c.dty, 0, [c.I.wrapv(c.st, n, p), bad]))
        M[P + 'overflowing_' + nm] = ovf
    M[P + 'wrapping_neg'] = lambda c: c.ret(c.I.wrapv(c.st, n, neg(c.args[0])))

    def absv(c):
        x = c.args[0]
        return iite(le(ZERO, x), x, neg(x))

    M[P + 'unsigned_abs'] = lambda c: c.ret(absv(c))
    M[P + 'wrapping_abs'] = lambda c: c.ret(c.I.wrapv(c.st, n, absv(c)))

    def abs_(c):
        c.oblige(lt(K(lo), c.args[0]), 'overflow abs')
        return c.ret(absv(c))
    M[P + 'abs'] = abs_

    def abs_diff(c):
        a, b = c.args
        return c.ret(iite(le(b, a), sub(a, b), sub(b, a)))
    M[P + 'abs_diff'] = abs_diff
    M[P + 'signum'] = lambda c: c.ret(iite(lt(ZERO, c.args[0]), ONE, iite(eq(c.args[0], ZERO), ZERO, K(-1))))
    M[P + 'is_negative'] = lambda c: c.ret(lt(c.args[0], ZERO))
    M[P + 'is_positive'] = lambda c: c.ret(lt(ZERO, c.args[0]))

    def checked_div(c):
        a, b = c.args
        return opt_split(c, bnot(eq(b, ZERO)), lambda st: c.I.binop(st, 'Div', a, b, c.atys[0]), True)
    M[P + 'checked_div'] = checked_div
    M[P + 'checked_rem'] = lambda c: opt_split(c, bnot(eq(c.args[1], ZERO)), lambda st: c.I.binop(st, 'Rem', c.args[0], c.args[1], c.atys[0]), True)
    if not sg:
        def dive(op):
            def m(c):
                c.oblige(bnot(eq(c.args[1], ZERO)), 'division by zero')
                return c.ret(c.I.binop(c.st, op, c.args[0], c.args[1], c.atys[0]))
            return m
        M[P + 'div_euclid'] = dive('Div')
        M[P + 'rem_euclid'] = dive('Rem')

        def div_ceil(c):
            c.oblige(bnot(eq(c.args[1], ZERO)), 'division by zero')
            return c.ret(div(add(c.args[0], addk(c.args[1], -1)), c.args[1]))
        M[P + 'div_ceil'] = div_ceil

        def is_mult(c):
            return c.ret(eq(c.I.binop(c.st, 'Rem', c.args[0], c.args[1], c.atys[0]), ZERO)) if c.I.prove(c.st, le(ONE, c.args[1])) else NotImplemented
        M[P + 'is_multiple_of'] = is_mult
    M[P + 'to_le_bytes'] = lambda c: c.ret(mk('arrc', c.I.p.types[c.dty]['e'], tuple(c.I.scalar_bytes(c.st, c.args[0], c.atys[0]))))
    M[P + 'to_ne_bytes'] = M[P + 'to_le_bytes']
    M[P + 'to_be_bytes'] = lambda c: c.ret(mk('arrc', c.I.p.types[c.dty]['e'], tuple(c.I.scalar_bytes(c.st, c.args[0], c.atys[0])[::-1])))
    M[P + 'to_le'] = ident
    M[P + 'from_le'] = ident

    def fbytes(rev):
        def m(c):
            bs = [c.I.arr_select(c.st, c.args[0], K(k)) for k in range(w // 8)]
            return c.ret(c.I.bytes_scalar(bs[::-1] if rev else bs, c.dty))
        return m
    M[P + 'from_le_bytes'] = fbytes(False)
    M[P + 'from_ne_bytes'] = fbytes(False)
    M[P + 'from_be_bytes'] = fbytes(True)

    def shifts(op, mode):
        def m(c):
            a, b = c.args
            if mode == 'wrapping':
                kb = cval(b)
                if kb is None:
                    return NotImplemented
                return c.ret(c.I.binop(c.st, op, a, K(kb % w), c.atys[0]))
            good = lt(b, K(w))
            return opt_split(c, good, lambda st: c.I.binop(st, op, a, b, c.atys[0]), True)
        return m
    for nm, op in (('shl', 'Shl'), ('shr', 'Shr')):
        M[P + 'checked_' + nm] = shifts(op, 'checked')
        M[P + 'wrapping_' + nm] = shifts(op, 'wrapping')

    def bitcount(kind):
        def m(c):
            return m2(c, c.args[0])

        def m2(c, x):
            bits = to_bits(x, n)
            if all(b in (0, 1) for b in bits):
                if kind == 'ones':
                    return c.ret(K(sum(bits)))
                if kind == 'zeros':
                    return c.ret(K(w - sum(bits)))
                seq = bits if kind.startswith('trailing') else bits[::-1]
                want = 0 if kind.endswith('zeros') else 1
                k = 0
                while k < w and seq[k] == want:
                    k += 1
                return c.ret(K(k))
            if w == 128:
                y = bits[0][0] if isinstance(bits[0], tuple) else None
                if isinstance(y, T) and y.op == 'poly' and (single_atom(y) or y).op == 'iite' and all(b == (y, i) for i, b in enumerate(bits)):
                    # every bit of a choice
                    x = y
                for u in patoms(x):
                    if u.op == 'iite' and contains(u, lambda y: y.op == 'unary'):
                        x = c.I.simp(c.st, x)
                        if u in patoms(x) and c.I.truth(c.st, u.a[0], False) is None:
                            raise Fork(u.a[0])
                for u in patoms(x):
                    if u.op == 'iite' and any(cval(c.I.subst(x, {u: y})) is not None for y in (u.a[1], ZERO)):
                        # a constant in one case
                        t = c.I.truth(c.st, u.a[0], False)
                        if t is None:
                            raise Fork(u.a[0])
                        return m2(c, c.I.subst(x, {u: u.a[1] if t else ZERO}))
            u = single_atom(x)
            if w == 128 and u is not None and u.op == 'unary':
                # t ones, a zero, anything (here always fewer than 128 ones)
                inv = x is not A(u)
                t = u.a[0]
                if x is (sub(K((1 << 128) - 1), A(u)) if inv else A(u)) and c.I.prove(c.st, band(le(ZERO, t), le(t, K(127)))):
                    if kind == ('trailing_zeros' if inv else 'trailing_ones'):
                        return c.ret(t)
                    if kind in ('zeros', 'ones'):
                        z = isym(name('bitcount', 'zeros', n, u), 1, w)
                        return c.ret(z if (kind == 'zeros') != inv else sub(K(w), z))
            v = isym(name('bitcount', kind, n, x), 0, w)
            if kind == 'zeros':
                v = sub(K(w), isym(name('bitcount', 'ones', n, x), 0, w))
            return c.ret(v)
        return m
    for kind, nm in (('ones', 'count_ones'), ('zeros', 'count_zeros'), ('trailing_ones', 'trailing_ones'), ('trailing_zeros', 'trailing_zeros'),
                     ('leading_ones', 'leading_ones'), ('leading_zeros', 'leading_zeros')):
        M[P + nm] = bitcount(kind)
    M[P + 'max_value'] = lambda c: c.ret(K(hi))
    M[P + 'min_value'] = lambda c: c.ret(K(lo))

    def is_pow2(c):
        v = cval(c.args[0])
        if v is None:
            return NotImplemented
        return c.ret(TRUE if v > 0 and v & (v - 1) == 0 else FALSE)
    M[P + 'is_power_of_two'] = is_pow2

    def pow_(c):
        b, e = cval(c.args[0]), cval(c.args[1])
        if e is None:
            return NotImplemented
        r = ONE
        for _ in range(e):
            r = mul(r, c.args[0])
        c.oblige(band(le(K(lo), r), le(r, K(hi))), 'overflow pow')
        return c.ret(r)
    M[P + 'pow'] = pow_

    O = 'std::cmp::impls::<impl std::cmp::Ord for %s>::' % n
    PO = 'std::cmp::impls::<impl std::cmp::PartialOrd for %s>::' % n

    def mx(c):
        a, b = c.args
        return c.ret(imax(c, a, b))

    def mn(c):
        a, b = c.args
        return c.ret(imin(c, a, b))
    for pre in (O, 'std::cmp::Ord::'):
        pass
    M[O + 'max'] = mx
    M[O + 'min'] = mn

    def clamp(c):
        x, l, h = c.args
        c.oblige(le(l, h), 'clamp with min > max')
        if c.I.prove(c.st, le(l, x)):
            l = None
        if c.I.prove(c.st, le(x, h)):
            h = None
        return c.ret(lim(x, l, h))
    M[O + 'clamp'] = clamp
    for nm, f in (('lt', lambda a, b: lt(a, b)), ('le', lambda a, b: le(a, b)), ('gt', lambda a, b: lt(b, a)), ('ge', lambda a, b: le(b, a))):
        def cmpf(c, f=f):
            return c.ret(f(deref_int(c, 0), deref_int(c, 1)))
        M[PO + nm] = cmpf

    def cmp(c):
        return c.ret(c.I.binop(c.st, 'Cmp', deref_int(c, 0), deref_int(c, 1), c.I.p.find_type(n)))
    M[O + 'cmp'] = cmp

    def eqf(neg_):
        def m(c):
            r = eq(deref_int(c, 0), deref_int(c, 1))
            return c.ret(bnot(r) if neg_ else r)
        return m
    E = 'std::cmp::impls::<impl std::cmp::PartialEq for %s>::' % n
    M[E + 'eq'] = eqf(False)
    M[E + 'ne'] = eqf(True)
    M['std::clone::impls::<impl std::clone::Clone for %s>::clone' % n] = lambda c: c.ret(get_raw(c.I, c.st, c.args[0]))
    M['<%s as std::default::Default>::default' % n] = lambda c: c.ret(ZERO)
    M['<%s as std::iter::Step>::forward_unchecked' % n] = lambda c: c.ret(add(c.args[0], c.args[1]))
    M['<%s as std::iter::Step>::backward_unchecked' % n] = lambda c: c.ret(sub(c.args[0], c.args[1]))
    for m2 in INTS:
        M['std::convert::num::<impl std::convert::From<%s> for %s>::from' % (m2, n)] = ident

        def try_from(c, n=n):
            lo, hi = trange(n)
            x = c.args[0]
            good = band(le(K(lo), x), le(x, K(hi)))
            I = c.I
            out = []
            for b, st in split_and(c, good):
                if b:
                    out.append((st, ok(I, c.dty, x)))
                else:
                    out.append((st, err(I, c.dty, I.mk_sym(variant_ty(I, c.dty, 'Err'), I.fresh('tryfrom')))))
            return out
        M['std::convert::num::<impl std::convert::TryFrom<%s> for %s>::try_from' % (m2, n)] = try_from
        M['std::convert::num::ptr_try_from_impls::<impl std::convert::TryFrom<%s> for %s>::try_from' % (m2, n)] = try_from
    M['std::convert::num::<impl std::convert::From<bool> for %s>::from' % n] = lambda c: c.ret(b2i(c.args[0]))
    for op, tr in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
        def arith(c, tr=tr, op=op):
            a, b = deref_int(c, 0), deref_int(c, 1)
            p = {'Add': add, 'Sub': sub, 'Mul': mul}[tr](a, b)
            c.oblige(band(le(K(lo), p), le(p, K(hi))), 'assert Overflow ' + tr)
            return c.ret(p)
        for pat in ('<%s as std::ops::%s>::%s', '<&%s as std::ops::%s<%s>>::%s', '<%s as std::ops::%s<&%s>>::%s', '<&%s as std::ops::%s<&%s>>::%s',
                    "<&'a %s as std::ops::%s<%s>>::%s", "<&%s as std::ops::%s>::%s"):
            key = pat % ((n, tr, op) if pat.count('%s') == 3 else (n, tr, n, op))
            M[key] = arith


def imax(c, a, b):
    t = c.I.truth(c.st, le(a, b))
    if t is True:
        return b
    if t is False or c.I.prove(c.st, le(b, a)):
        return a
    for x, y in ((a, b), (b, a)):
        at = single_atom(x)
        if at is not None and at.op == 'lim' and at.a[1] is None and c.I.prove(c.st, le(y, at.a[2])):
            return lim(at.a[0], y, at.a[2])
    if contains(a, gated):
        return lim(a, b, None)
    if contains(b, gated):
        return lim(b, a, None)
    return iite(le(a, b), b, a)


def imin(c, a, b):
    t = c.I.truth(c.st, le(a, b))
    if t is True:
        return a
    if t is False or c.I.prove(c.st, le(b, a)):
        return b
    for x, y in ((a, b), (b, a)):
        at = single_atom(x)
        if at is not None and at.op == 'lim' and at.a[2] is None and c.I.prove(c.st, le(at.a[1], y)):
            return lim(at.a[0], at.a[1], y)
    if contains(a, gated):
        return lim(a, None, b)
    if contains(b, gated):
        return lim(b, None, a)
    return iite(le(a, b), a, b)


def gated(x):
    return x.op in ('iite', 'lim', 'f2i')


def deref_int(c, k):
    v = c.args[k]
    n = 0
    while v.op != 'poly':
        v = get_raw(c.I, c.st, v)
        n += 1
        if n > 4:
            raise Gap('integer behind ' + v.op)
    return v


def split_and(c, cond):
    """branch on a condition that may be a conjunction"""
    I = c.I
    t = I.truth(c.st, cond)
    if t is True:
        return [(True, c.st)]
    if t is False:
        return [(False, c.st)]
    if cond.op in ('and', 'or'):
        for a in cond.a:
            if I.truth(c.st, a) is None:
                raise Fork(a)
    return [(True, c.st.assume(cond)), (False, c.st.assume(bnot(cond)))]


def opt_split(c, good, f, withst=False):
    out = []
    for b, st in split_and(c, good):
        out.append((st, some(c.I, c.dty, f(st) if withst else f()) if b else none(c.I, c.dty)))
    return out


for _n in INTS:
    int_models(_n)

for _n in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    pass


@model('std::cmp::max', 'std::cmp::min')
def cmp_minmax(c):
    if c.args[0].op != 'poly' or c.args[1].op != 'poly':
        return NotImplemented
    return c.ret(imax(c, *c.args) if (c.name or c.rname).endswith('max') else imin(c, *c.args))


@model('intrinsic:integer_max')
def i_max(c):
    return c.ret(imax(c, c.args[0], c.args[1]))


@model('intrinsic:integer_min')
def i_min(c):
    return c.ret(imin(c, c.args[0], c.args[1]))


@model('intrinsic:ctpop')
def i_ctpop(c):
    n = c.I.int_name(c.atys[0])
    return M['core::num::<impl %s>::count_ones' % n](c)


@model('intrinsic:saturating_add', 'intrinsic:saturating_sub', 'intrinsic:wrapping_add', 'intrinsic:wrapping_sub', 'intrinsic:wrapping_mul',
       'intrinsic:unchecked_add', 'intrinsic:unchecked_sub', 'intrinsic:unchecked_mul')
def i_arith(c):
    n = c.I.int_name(c.atys[0])
    ins = c.I.p.insts[c.inst]['intrinsic']
    return M['core::num::<impl %s>::%s' % (n, ins)](c)


@model('intrinsic:cold_path', 'intrinsic:assert_inhabited', 'intrinsic:assert_zero_valid', 'intrinsic:assert_mem_uninitialized_valid')
def i_nop(c):
    return c.unit()


@model('intrinsic:likely', 'intrinsic:unlikely', 'intrinsic:black_box')
def i_id(c):
    return c.ret(c.args[0])


@model('intrinsic:raw_eq')
def i_raw_eq(c):
    a, b = get(c.I, c.st, c.args[0]), get(c.I, c.st, c.args[1])
    if a.op == 'arrc' and b.op == 'arrc':
        return c.ret(arr_eq(c.I, c.st, a, b, len(a.a[1])))
    return NotImplemented


def arr_eq(I, st, a, b, n):
    r = TRUE
    for k in range(n):
        r = band(r, eq(I.arr_select(st, a, K(k)), I.arr_select(st, b, K(k))))
    return r


@model('intrinsic:read_via_copy')
def i_rvc(c):
    return c.ret(get_raw(c.I, c.st, c.args[0]))


@model('intrinsic:write_via_move')
def i_wvm(c):
    st = c.st.copy()
    put(c.I, st, c.args[0], c.args[1])
    return [(st, agg(c.dty, 0, []))]


# ---------------------------------------------------------------------------------------- floats
def fpred(c, *a):
    return c.ret(a[0])


for _f in ('f32', 'f64'):
    _P = 'core::%s::<impl %s>::' % (_f, _f)
    _S = 'std::%s::<impl %s>::' % (_f, _f)
    for _P2 in (_P, _S, 'core::num::<impl %s>::' % _f):
        def fmax(c):
            a, b = c.args
            # NaN arguments lose
            return c.ret(fite(fcmp('Lt', a, b), b, fite(isnan(a), b, a)))

        def fmin(c):
            a, b = c.args
            return c.ret(fite(fcmp('Lt', b, a), b, fite(isnan(a), b, a)))
        M[_P2 + 'max'] = fmax
        M[_P2 + 'min'] = fmin

        def fclamp(c):
            x, lo, hi = c.args
            c.oblige(fcmp('Le', lo, hi), 'clamp with min > max')
            y = fite(fcmp('Lt', x, lo), lo, x)
            return c.ret(fite(fcmp('Lt', hi, y), hi, y))
        M[_P2 + 'clamp'] = fclamp
        M[_P2 + 'is_nan'] = lambda c: c.ret(isnan(c.args[0]))
        for _u in ('abs', 'floor', 'ceil', 'round', 'trunc', 'fract', 'sqrt', 'recip', 'signum', 'round_ties_even'):
            def fun(c, u=_u):
                v = fval(c.args[0])
                if u == 'recip':
                    return c.ret(fop('div', fconst(1.0, c.args[0].a[1] if c.args[0].op == 'fc' else 'f32'), c.args[0]))
                return c.ret(fop(u, c.args[0]))
            M[_P2 + _u] = fun
        M[_P2 + 'mul_add'] = lambda c: c.ret(fop('fma', *c.args))
        M[_P2 + 'to_bits'] = lambda c: c.ret(c.I.cast(c.st, 'Transmute', c.args[0], c.atys[0], c.dty, c.fr, c.line))
        M[_P2 + 'is_finite'] = lambda c: c.ret(mk('bsym', name('is_finite', c.args[0])))
        M[_P2 + 'is_infinite'] = lambda c: c.ret(mk('bsym', name('is_infinite', c.args[0])))

        def powi(c):
            return c.ret(fop('powi', c.args[0], mk('fint', c.args[1])))
        M[_P2 + 'powi'] = powi
    M['std::clone::impls::<impl std::clone::Clone for %s>::clone' % _f] = lambda c: c.ret(get_raw(c.I, c.st, c.args[0]))
    M['<%s as std::default::Default>::default' % _f] = (lambda t: lambda c: c.ret(fconst(0.0, t)))(_f)
    for _i in INTS:
        M['std::convert::num::<impl std::convert::From<%s> for %s>::from' % (_i, _f)] = (lambda t: lambda c: c.ret(i2f(c.args[0], t)))(_f)
    for _op, _tr in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div')):
        def fassign(c, op=_op):
            x = get_raw(c.I, c.st, c.args[0])
            y = c.args[1]
            if y.op == 'ref':
                y = get_raw(c.I, c.st, y)
            st = c.st.copy()
            put(c.I, st, c.args[0], fop(op, x, y))
            return [(st, agg(c.dty, 0, []))]
        for pat in ('<%s as std::ops::%sAssign>::%s_assign', '<%s as std::ops::%sAssign<&%s>>::%s_assign'):
            M[pat % ((_f, _tr, _op) if pat.count('%s') == 3 else (_f, _tr, _f, _op))] = fassign

        def fbin(c, op=_op):
            a = [x if x.op != 'ref' else get_raw(c.I, c.st, x) for x in c.args]
            return c.ret(fop(op, *a))
        for pat in ('<%s as std::ops::%s>::%s', '<&%s as std::ops::%s<%s>>::%s', '<%s as std::ops::%s<&%s>>::%s', '<&%s as std::ops::%s<&%s>>::%s', "<&%s as std::ops::%s>::%s"):
            M[pat % ((_f, _tr, _op) if pat.count('%s') == 3 else (_f, _tr, _f, _op))] = fbin


def isnan(x):
    v = fval(x)
    if v is not None:
        return TRUE if v != v else FALSE
    return bnot(fcmp('Eq', x, x))


M['std::clone::impls::<impl std::clone::Clone for bool>::clone'] = lambda c: c.ret(get_raw(c.I, c.st, c.args[0]))
M["std::clone::impls::<impl std::clone::Clone for &T>::clone"] = lambda c: c.ret(get_raw(c.I, c.st, c.args[0]))
M['<bool as std::default::Default>::default'] = lambda c: c.ret(FALSE)


# ---------------------------------------------------------------------------------------- slices
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def slice_len(c):
    return c.ret(as_slice(c.I, c.st, c.args[0], c.atys[0])[3])


@model('core::slice::<impl [T]>::is_empty')
def slice_is_empty(c):
    return c.ret(eq(as_slice(c.I, c.st, c.args[0], c.atys[0])[3], ZERO))


def range_of(c, rng, rty, ln, check=True):
    """(start, len) selected by a range value; obliges it to be within ln"""
    I = c.I
    t = I.p.types[rty]
    n = t.get('name', '')
    r = norm(I, c.st, rng)
    if r.op == 'sym':
        r = I.expand(r)
    if n == 'std::ops::Range':
        a, b = r.a[2]
    elif n == 'std::ops::RangeTo':
        a, b = ZERO, r.a[2][0]
    elif n == 'std::ops::RangeFrom':
        a, b = r.a[2][0], ln
    elif n == 'std::ops::RangeFull':
        return ZERO, ln
    elif n == 'std::ops::RangeInclusive':
        a, b = r.a[2][0], addk(r.a[2][1], 1)
    elif n == 'std::ops::RangeToInclusive':
        a, b = ZERO, addk(r.a[2][0], 1)
    else:
        raise Gap('index by ' + t['s'])
    return a, b


def index_model(c, want_mut):
    I = c.I
    s = as_slice(I, c.st, c.args[0], c.atys[0])
    t = I.p.types[c.atys[1]]
    if t['k'] == 'uint':
        c.oblige(lt(c.args[1], s[3]), 'index out of bounds')
        return c.ret(elem(s, c.args[1]))
    a, b = range_of(c, c.args[1], c.atys[1], s[3])
    c.oblige(le(a, b), 'slice start after end')
    c.oblige(le(b, s[3]), 'slice end out of bounds')
    return c.ret(sub_slice(s, a, sub(b, a)))


for n in ('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
          'std::array::<impl std::ops::Index<I> for [T; N]>::index'):
    M[n] = lambda c: index_model(c, False)
for n in ('<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
          'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut'):
    M[n] = lambda c: index_model(c, True)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(c):
    I = c.I
    s = as_slice(I, c.st, c.args[0], c.atys[0])
    t = I.p.types[c.atys[1]]
    if t['k'] == 'uint':
        return opt_split(c, lt(c.args[1], s[3]), lambda: elem(s, c.args[1]))
    a, b = range_of(c, c.args[1], c.atys[1], s[3])
    return opt_split(c, band(le(a, b), le(b, s[3])), lambda: sub_slice(s, a, sub(b, a)))


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def slice_get_unchecked(c):
    return index_model(c, True)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_first(c):
    s = as_slice(c.I, c.st, c.args[0], c.atys[0])
    return opt_split(c, lt(ZERO, s[3]), lambda: elem(s, ZERO))


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_last(c):
    s = as_slice(c.I, c.st, c.args[0], c.atys[0])
    return opt_split(c, lt(ZERO, s[3]), lambda: elem(s, addk(s[3], -1)))


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at_unchecked',
       'core::slice::<impl [T]>::split_at_mut_unchecked')
def split_at(c):
    s = as_slice(c.I, c.st, c.args[0], c.atys[0])
    k = c.args[1]
    c.oblige(le(k, s[3]), 'split_at out of bounds')
    return c.ret(agg(c.dty, 0, [sub_slice(s, ZERO, k), sub_slice(s, k, sub(s[3], k))]))


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def split_first(c):
    I = c.I
    s = as_slice(I, c.st, c.args[0], c.atys[0])
    tt = variant_ty(I, c.dty, 'Some')
    n1 = addk(s[3], -1)
    if c.rname.endswith('first'):
        return opt_split(c, lt(ZERO, s[3]), lambda: agg(tt, 0, [elem(s, ZERO), sub_slice(s, ONE, n1)]))
    return opt_split(c, lt(ZERO, s[3]), lambda: agg(tt, 0, [elem(s, n1), sub_slice(s, ZERO, n1)]))


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(c):
    I = c.I
    d = as_slice(I, c.st, c.args[0], c.atys[0])
    s = as_slice(I, c.st, c.args[1], c.atys[1])
    c.oblige(eq(d[3], s[3]), 'copy_from_slice length')
    st = c.st.copy()
    write_range(I, st, d, d[3], slice_arr(I, st, s))
    return [(st, agg(c.dty, 0, []))]


@model('core::slice::<impl [T]>::fill')
def slice_fill(c):
    I = c.I
    d = as_slice(I, c.st, c.args[0], c.atys[0])
    st = c.st.copy()
    write_range(I, st, d, d[3], mk('fill', ety_of(I, c.atys[0]), c.args[1]))
    return [(st, agg(c.dty, 0, []))]


@model('core::slice::<impl [T]>::swap')
def slice_swap(c):
    I = c.I
    s = as_slice(I, c.st, c.args[0], c.atys[0])
    for a in c.args[1:]:
        c.oblige(lt(a, s[3]), 'index out of bounds')
    x, y = rd(I, c.st, s, c.args[1]), rd(I, c.st, s, c.args[2])
    st = c.st.copy()
    I.write(st, s[0], s[1] + (('i', add(s[2], c.args[1])),), y)
    I.write(st, s[0], s[1] + (('i', add(s[2], c.args[2])),), x)
    return [(st, agg(c.dty, 0, []))]


@model('std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec', '<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec')
def to_vec(c):
    s = as_slice(c.I, c.st, c.args[0], c.atys[0])
    return c.ret(mk('vec', s[3], slice_arr(c.I, c.st, s)))


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
def from_raw_parts(c):
    r = norm(c.I, c.st, c.args[0])
    if r.op != 'ref':
        return NotImplemented
    p = r.a[1]
    if p and p[-1][0] == 'bytes':
        size = c.I.p.types[p[-1][1]]['size']
        c.oblige(le(c.args[1], K(size)), 'view larger than its object')
        return c.ret(mkref(r.a[0], p, ZERO, c.args[1]))
    if p and p[-1][0] == 'i':
        return c.ret(mkref(r.a[0], p[:-1], p[-1][1], c.args[1]))
    if r.a[2] is not None:
        c.oblige(le(c.args[1], r.a[3]), 'view larger than its object')
        return c.ret(mkref(r.a[0], p, r.a[2], c.args[1]))
    return NotImplemented


# iterators over slices: aggregate whose first field is the remaining slice
def iter_mk(c, r):
    n = len(c.I.p.types[c.dty]['v'][0]['f'])
    return agg(c.dty, 0, [r] + [UNDEF] * (n - 1))


def as_sref(I, st, r, ty):
    s = as_slice(I, st, r, ty)
    return mkref(*s)


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter", "std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def slice_iter(c):
    return c.ret(iter_mk(c, as_sref(c.I, c.st, c.args[0], c.atys[0])))


def iter_state(c):
    """(place of the iterator, its value, remaining slice)"""
    I = c.I
    it = get(I, c.st, c.args[0])
    if it.op != 'agg':
        raise Gap('iterator ' + it.op)
    r = norm(I, c.st, it.a[2][0])
    return it, as_slice(I, c.st, r)


def iter_put(c, st, it, r):
    put(c.I, st, c.args[0], agg(it.a[0], 0, (r,) + it.a[2][1:]))


def iter_next_gen(c, back, skip=ZERO):
    I = c.I
    it, s = iter_state(c)
    out = []
    for b, st in split(c, lt(skip, s[3])):
        st = st.copy()
        if b:
            n = addk(sub(s[3], skip), -1)
            if back:
                e = elem(s, n)
                r = sub_slice(s, ZERO, n)
            else:
                e = elem(s, skip)
                r = sub_slice(s, addk(skip, 1), n)
            iter_put(c, st, it, r)
            out.append((st, some(I, c.dty, e)))
        else:
            if skip is not ZERO:
                iter_put(c, st, it, sub_slice(s, s[3] if not back else ZERO, ZERO))
            out.append((st, none(I, c.dty)))
    return out


for _it in ('Iter', 'IterMut'):
    M["<std::slice::%s<'a, T> as std::iter::Iterator>::next" % _it] = lambda c: iter_next_gen(c, False)
    M["<std::slice::%s<'a, T> as std::iter::DoubleEndedIterator>::next_back" % _it] = lambda c: iter_next_gen(c, True)
    M["<std::slice::%s<'a, T> as std::iter::Iterator>::nth" % _it] = lambda c: iter_next_gen(c, False, c.args[1])
    M["<std::slice::%s<'a, T> as std::iter::DoubleEndedIterator>::nth_back" % _it] = lambda c: iter_next_gen(c, True, c.args[1])

    def iter_len(c):
        return c.ret(iter_state(c)[1][3])
    M["<std::slice::%s<'_, T> as std::iter::ExactSizeIterator>::len" % _it] = iter_len

    def iter_empty(c):
        return c.ret(eq(iter_state(c)[1][3], ZERO))
    M["<std::slice::%s<'_, T> as std::iter::ExactSizeIterator>::is_empty" % _it] = iter_empty

    def iter_hint(c):
        I = c.I
        n = iter_state(c)[1][3]
        ot = I.p.types[c.dty]['f'][1]
        return c.ret(agg(c.dty, 0, [n, some(I, ot, n)]))
    M["<std::slice::%s<'a, T> as std::iter::Iterator>::size_hint" % _it] = iter_hint

    def get_unchecked(c):
        s = iter_state(c)[1]
        c.oblige(lt(c.args[1], s[3]), 'iterator index out of bounds')
        return c.ret(elem(s, c.args[1]))
    M["<std::slice::%s<'a, T> as std::iter::Iterator>::__iterator_get_unchecked" % _it] = get_unchecked


@model("std::slice::Iter::<'a, T>::as_slice", "std::slice::Iter::<'a, T>::make_slice")
def iter_as_slice(c):
    s = iter_state(c)[1]
    return c.ret(mkref(*s))


@model('<[T] as std::cmp::PartialEq<[U]>>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for &[T]>::eq', 'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq', 'std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq',
       'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq', 'std::array::equality::<impl std::cmp::PartialEq<&[U]> for [T; N]>::eq')
def slice_eq(c):
    I = c.I
    ss = []
    for a, ty in zip(c.args, c.atys):
        a = norm(I, c.st, a)
        t = I.p.types[ty]
        while t['k'] in ('ref', 'ptr') and I.p.types[t['e']]['k'] in ('ref', 'ptr'):
            a = get(I, c.st, a)
            ty = t['e']
            t = I.p.types[ty]
        ss.append(as_slice(I, c.st, a, ty))
    n1, n2 = cval(ss[0][3]), cval(ss[1][3])
    n = n1 if n1 is not None else n2
    if n is None or n > 64:
        return NotImplemented
    r = eq(ss[0][3], ss[1][3])
    if r is FALSE:
        return c.ret(FALSE)
    for k in range(n):
        x, y = rd(I, c.st, ss[0], K(k)), rd(I, c.st, ss[1], K(k))
        if x.op != 'poly':
            return NotImplemented
        r = band(r, eq(x, y))
    return c.ret(r)


# ---------------------------------------------------------------------------------------- Vec
def vec_ty(I, c):
    return I.p.types[c.dty]['targs'][0]


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default', 'std::vec::Vec::<T, A>::with_capacity_in',
       'std::vec::Vec::<T, A>::new_in')
def vec_new(c):
    return c.ret(mk('vec', ZERO, mk('arrsym', vec_ty(c.I, c), name('empty', vec_ty(c.I, c)))))


@model('std::vec::from_elem', 'alloc::vec::from_elem', '<T as std::vec::spec_from_elem::SpecFromElem>::from_elem')
def vec_from_elem(c):
    return c.ret(mk('vec', c.args[1], mk('fill', c.atys[0], c.args[0])))


@model('std::vec::Vec::<T, A>::len', 'std::vec::Vec::<T>::len')
def vec_len(c):
    return c.ret(get(c.I, c.st, c.args[0]).a[0])


@model('std::vec::Vec::<T, A>::is_empty')
def vec_is_empty(c):
    return c.ret(eq(get(c.I, c.st, c.args[0]).a[0], ZERO))


@model('std::vec::Vec::<T, A>::capacity')
def vec_capacity(c):
    v = get(c.I, c.st, c.args[0])
    cap = isym(name('capacity', v), 0, 1 << 49)
    st = c.st.assume(le(v.a[0], cap))
    return [(st, cap)]


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve_exact', 'std::collections::VecDeque::<T, A>::reserve',
       'std::collections::VecDeque::<T, A>::shrink_to_fit')
def vec_reserve(c):
    return c.unit()


def vec_of(c):
    v = get(c.I, c.st, c.args[0])
    if v.op != 'vec':
        raise Gap('vector value ' + v.op)
    return v


@model('std::vec::Vec::<T, A>::push')
def vec_push(c):
    v = vec_of(c)
    st = c.st.copy()
    put(c.I, st, c.args[0], mk('vec', addk(v.a[0], 1), c.I.arr_store(st, v.a[1], v.a[0], c.args[1])))
    return [(st, agg(c.dty, 0, []))]


@model('std::vec::Vec::<T, A>::pop')
def vec_pop(c):
    v = vec_of(c)
    out = []
    for b, st in split(c, lt(ZERO, v.a[0])):
        st = st.copy()
        if b:
            n = addk(v.a[0], -1)
            x = c.I.arr_select(st, v.a[1], n)
            put(c.I, st, c.args[0], mk('vec', n, v.a[1]))
            out.append((st, some(c.I, c.dty, x)))
        else:
            out.append((st, none(c.I, c.dty)))
    return out


@model('std::vec::Vec::<T, A>::clear')
def vec_clear(c):
    v = vec_of(c)
    st = c.st.copy()
    put(c.I, st, c.args[0], mk('vec', ZERO, v.a[1]))
    return [(st, agg(c.dty, 0, []))]


@model('std::vec::Vec::<T, A>::truncate')
def vec_truncate(c):
    v = vec_of(c)
    st = c.st.copy()
    n = imin(c, v.a[0], c.args[1])
    put(c.I, st, c.args[0], mk('vec', n, v.a[1]))
    return [(st, agg(c.dty, 0, []))]


def grow(I, st, v, n, x):
    """elements from the old length on become x"""
    cn, cl = cval(n), cval(v.a[0])
    d = cval(sub(n, v.a[0]))
    if d is not None and d <= 4:
        arr = v.a[1]
        for k in range(max(d, 0)):
            arr = I.arr_store(st, arr, addk(v.a[0], k), x)
        return mk('vec', n, arr)
    ety = I.arr_ety(v.a[1])
    if v.a[0] is ZERO:
        return mk('vec', n, mk('fill', ety, x))
    if v.a[1].op == 'fill' and v.a[1].a[1] is x:
        return mk('vec', n, v.a[1])
    return mk('vec', n, mk('concat', v.a[1], v.a[0], mk('fill', ety, x)))


@model('std::vec::Vec::<T, A>::resize')
def vec_resize(c):
    v = vec_of(c)
    out = []
    for b, st in split(c, le(c.args[1], v.a[0])):
        st = st.copy()
        if b:
            put(c.I, st, c.args[0], mk('vec', c.args[1], v.a[1]))
        else:
            put(c.I, st, c.args[0], grow(c.I, st, v, c.args[1], c.args[2]))
        out.append((st, agg(c.dty, 0, [])))
    return out


@model('std::vec::Vec::<T, A>::extend_from_slice', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def vec_extend_from_slice(c):
    I = c.I
    v = vec_of(c)
    a = norm(I, c.st, c.args[1])
    s = as_slice(I, c.st, a, c.atys[1])
    n = cval(s[3])
    st = c.st.copy()
    if n is not None and n <= 16:
        arr = v.a[1]
        for k in range(n):
            arr = I.arr_store(st, arr, addk(v.a[0], k), rd(I, st, s, K(k)))
        put(I, st, c.args[0], mk('vec', addk(v.a[0], n), arr))
    else:
        src = slice_arr(I, st, s)
        put(I, st, c.args[0], mk('vec', add(v.a[0], s[3]), src if v.a[0] is ZERO else mk('concat', v.a[1], v.a[0], src)))
    return [(st, agg(c.dty, 0, []))]


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_slice',
       'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', 'std::vec::Vec::<T, A>::as_ptr',
       'std::vec::Vec::<T, A>::as_mut_ptr', 'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_mut_slice',
       '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow', '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut')
def vec_deref(c):
    return c.ret(as_sref(c.I, c.st, c.args[0], c.atys[0]))


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::array::<impl std::clone::Clone for [T; N]>::clone', '<std::collections::VecDeque<T, A> as std::clone::Clone>::clone')
def vec_clone(c):
    # element types in this crate are plain data or owners of plain data
    return c.ret(get_raw(c.I, c.st, c.args[0]))


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(c):
    v = norm(c.I, c.st, c.args[0])
    n = len(c.I.p.types[c.dty]['v'][0]['f'])
    return c.ret(agg(c.dty, 0, [v] + [ZERO] + [UNDEF] * (n - 2)))


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def vec_into_next(c):
    I = c.I
    it = get(I, c.st, c.args[0])
    v, pos = it.a[2][0], it.a[2][1]
    v = norm(I, c.st, v)
    out = []
    for b, st in split(c, lt(pos, v.a[0])):
        st = st.copy()
        if b:
            put(I, st, c.args[0], agg(it.a[0], 0, (v, addk(pos, 1)) + it.a[2][2:]))
            out.append((st, some(I, c.dty, I.arr_select(st, v.a[1], pos))))
        else:
            out.append((st, none(I, c.dty)))
    return out


# ---------------------------------------------------------------------------------------- VecDeque
@model('std::collections::VecDeque::<T>::new', 'std::collections::VecDeque::<T>::with_capacity', '<std::collections::VecDeque<T> as std::default::Default>::default')
def deq_new(c):
    return c.ret(mk('deq', ZERO, ZERO, mk('arrsym', vec_ty(c.I, c), name('empty', vec_ty(c.I, c)))))


def deq_of(c):
    v = get(c.I, c.st, c.args[0])
    if v.op != 'deq':
        raise Gap('deque value ' + v.op)
    return v


@model('std::collections::VecDeque::<T, A>::push_back')
def deq_push(c):
    v = deq_of(c)
    st = c.st.copy()
    put(c.I, st, c.args[0], mk('deq', v.a[0], addk(v.a[1], 1), c.I.arr_store(st, v.a[2], add(v.a[0], v.a[1]), c.args[1])))
    return [(st, agg(c.dty, 0, []))]


@model('std::collections::VecDeque::<T, A>::pop_front', 'std::collections::VecDeque::<T, A>::pop_back')
def deq_pop(c):
    v = deq_of(c)
    I = c.I
    out = []
    for b, st in split(c, lt(ZERO, v.a[1])):
        st = st.copy()
        if b:
            if c.rname.endswith('front'):
                x = I.arr_select(st, v.a[2], v.a[0])
                put(I, st, c.args[0], mk('deq', addk(v.a[0], 1), addk(v.a[1], -1), v.a[2]))
            else:
                x = I.arr_select(st, v.a[2], addk(add(v.a[0], v.a[1]), -1))
                put(I, st, c.args[0], mk('deq', v.a[0], addk(v.a[1], -1), v.a[2]))
            out.append((st, some(I, c.dty, x)))
        else:
            out.append((st, none(I, c.dty)))
    return out


@model('std::collections::VecDeque::<T, A>::len')
def deq_len(c):
    return c.ret(deq_of(c).a[1])


@model('std::collections::VecDeque::<T, A>::is_empty')
def deq_is_empty(c):
    return c.ret(eq(deq_of(c).a[1], ZERO))


@model('std::collections::VecDeque::<T, A>::clear')
def deq_clear(c):
    v = deq_of(c)
    st = c.st.copy()
    put(c.I, st, c.args[0], mk('deq', ZERO, ZERO, mk('arrsym', c.I.arr_ety(v.a[2]), name('empty', c.I.arr_ety(v.a[2])))))
    return [(st, agg(c.dty, 0, []))]


@model('std::collections::VecDeque::<T, A>::get', 'std::collections::VecDeque::<T, A>::get_mut', 'std::collections::VecDeque::<T, A>::front', 'std::collections::VecDeque::<T, A>::front_mut')
def deq_get(c):
    v = deq_of(c)
    I = c.I
    obj, path = loc(I, c.st, c.args[0])
    k = c.args[1] if len(c.args) > 1 else ZERO
    return opt_split(c, lt(k, v.a[1]), lambda: mkref(obj, path + (('deqbuf',), ('i', k))))


@model('std::collections::VecDeque::<T, A>::truncate')
def deq_truncate(c):
    v = deq_of(c)
    st = c.st.copy()
    put(c.I, st, c.args[0], mk('deq', v.a[0], imin(c, v.a[1], c.args[1]), v.a[2]))
    return [(st, agg(c.dty, 0, []))]


# ---------------------------------------------------------------------------------------- ranges
def range_next(c, back, frm=False):
    I = c.I
    r = get(I, c.st, c.args[0])
    if r.op == 'sym':
        r = I.expand(r)
    a = r.a[2][0]
    b = None if frm else r.a[2][1]
    if a.op != 'poly':
        return NotImplemented
    if frm:
        n = I.int_name(I.p.types[r.a[0]]['targs'][0])
        c.oblige(lt(a, K(trange(n)[1])), 'assert Overflow Add')
        st = c.st.copy()
        put(I, st, c.args[0], agg(r.a[0], 0, [addk(a, 1)]))
        return [(st, some(I, c.dty, a))]
    out = []
    for t, st in split(c, lt(a, b)):
        st = st.copy()
        if t:
            if back:
                put(I, st, c.args[0], agg(r.a[0], 0, [a, addk(b, -1)]))
                out.append((st, some(I, c.dty, addk(b, -1))))
            else:
                put(I, st, c.args[0], agg(r.a[0], 0, [addk(a, 1), b]))
                out.append((st, some(I, c.dty, a)))
        else:
            out.append((st, none(I, c.dty)))
    return out


M['std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next'] = lambda c: range_next(c, False)
M['std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back'] = lambda c: range_next(c, True)
M['std::iter::range::<impl std::iter::Iterator for std::ops::RangeFrom<A>>::next'] = lambda c: range_next(c, False, True)


def range_incl_next(c, back):
    # kept affine: the start runs past the end instead of setting the exhausted flag
    I = c.I
    r = get(I, c.st, c.args[0])
    a, b = r.a[2][0], r.a[2][1]
    if a.op != 'poly':
        return NotImplemented
    out = []
    for t, st in split(c, le(a, b)):
        st = st.copy()
        if t:
            if back:
                put(I, st, c.args[0], agg(r.a[0], 0, [a, addk(b, -1)] + list(r.a[2][2:])))
                out.append((st, some(I, c.dty, b)))
            else:
                put(I, st, c.args[0], agg(r.a[0], 0, [addk(a, 1), b] + list(r.a[2][2:])))
                out.append((st, some(I, c.dty, a)))
        else:
            out.append((st, none(I, c.dty)))
    return out


M['std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next'] = lambda c: range_incl_next(c, False)
M['std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::RangeInclusive<A>>::next_back'] = lambda c: range_incl_next(c, True)


@model('std::ops::RangeInclusive::<Idx>::new')
def range_incl_new(c):
    return c.ret(agg(c.dty, 0, [c.args[0], c.args[1], FALSE]))


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::nth')
def range_nth(c):
    I = c.I
    r = get(I, c.st, c.args[0])
    a, b = r.a[2]
    k = c.args[1]
    out = []
    for t, st in split(c, lt(add(a, k), b)):
        st = st.copy()
        if t:
            put(I, st, c.args[0], agg(r.a[0], 0, [addk(add(a, k), 1), b]))
            out.append((st, some(I, c.dty, add(a, k))))
        else:
            put(I, st, c.args[0], agg(r.a[0], 0, [b, b]))
            out.append((st, none(I, c.dty)))
    return out


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::size_hint')
def range_hint(c):
    I = c.I
    r = get(I, c.st, c.args[0])
    a, b = r.a[2]
    n = iite(le(a, b), sub(b, a), ZERO)
    return c.ret(agg(c.dty, 0, [n, some(I, I.p.types[c.dty]['f'][1], n)]))


@model('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains')
def range_contains(c):
    I = c.I
    r = get(I, c.st, c.args[0])
    x = deref_int(c, 1)
    a, b = r.a[2][0], r.a[2][1]
    if a.op != 'poly':
        return NotImplemented
    hi = le(x, b) if 'Inclusive' in c.rname else lt(x, b)
    return c.ret(band(le(a, x), hi))


# ---------------------------------------------------------------------------------------- misc
@model('std::intrinsics::cold_path', 'core::hint::cold_path')
def cold(c):
    return c.unit()


@model('std::cmp::Ordering::is_le', 'std::cmp::Ordering::is_lt', 'std::cmp::Ordering::is_ge', 'std::cmp::Ordering::is_gt', 'std::cmp::Ordering::is_eq', 'std::cmp::Ordering::is_ne')
def ord_is(c):
    I = c.I
    d = I.discriminant(c.args[0])
    less = eq(d, K(-1))
    k = c.rname[-2:]
    e = eq(d, ZERO)
    g = eq(d, ONE)
    return c.ret({'le': bnot(g), 'lt': less, 'ge': bnot(less), 'gt': g, 'eq': e, 'ne': bnot(e)}[k])


def precondition(c):
    return c.unit()


# ---------------------------------------------------------------------------------------- reading from memory and through adapters
def _slice_self(c):
    """the byte slice a `&mut &[u8]` reader still holds"""
    return as_slice(c.I, c.st, get(c.I, c.st, c.args[0]))


def _advance(c, st, s, n):
    put(c.I, st, c.args[0], mkref(s[0], s[1], add(s[2], n), sub(s[3], n)))


def _io_error(c, st, tag):
    return err(c.I, c.dty, c.I.mk_sym(variant_ty(c.I, c.dty, 'Err'), c.I.fresh(tag)))


@model('alloc::io::impls::<impl std::io::Read for &[u8]>::read')
def slice_read(c):
    s = _slice_self(c)
    d = as_slice(c.I, c.st, c.args[1], c.atys[1])
    n = imin(c, s[3], d[3])
    st = c.st.copy()
    write_range(c.I, st, d, n, slice_arr(c.I, c.st, s))
    _advance(c, st, s, n)
    return [(st, ok(c.I, c.dty, n))]


@model('alloc::io::impls::<impl std::io::Read for &[u8]>::read_exact')
def slice_read_exact(c):
    s = _slice_self(c)
    d = as_slice(c.I, c.st, c.args[1], c.atys[1])
    t = c.I.truth(c.st, le(d[3], s[3]))
    if t is None:
        raise Fork(le(d[3], s[3]))
    st = c.st.copy()
    if t is False:
        _advance(c, st, s, s[3])
        return [(st, _io_error(c, st, 'eof'))]
    write_range(c.I, st, d, d[3], slice_arr(c.I, c.st, s))
    _advance(c, st, s, d[3])
    return [(st, ok(c.I, c.dty, agg(variant_ty(c.I, c.dty, 'Ok'), 0, [])))]


@model('std::io::Read::read_to_end', 'alloc::io::util::<impl std::io::Read for std::io::Take<T>>::read_to_end')
def take_read_to_end(c):
    """at most `limit` bytes of the inner reader are appended"""
    I = c.I
    t = I.p.types[I.p.types[c.atys[0]]['e']]
    if t.get('name') != 'std::io::Take' or not I.read_limited:
        return NotImplemented
    fs = t['v'][0]['f']
    li = [i for i, (n, ty) in enumerate(fs) if I.p.types[ty]['s'] == 'u64' and n == 'limit']
    if len(li) != 1:
        raise Gap('fields of Take')
    o, p = loc(I, c.st, c.args[0])
    lm = I.read(c.st, o, p + (('f', li[0]),))
    st = c.st.copy()
    res = I.read_limited(c, st, lm)
    for s, n in res:
        if n is not None:
            I.write(s, o, p + (('f', li[0]),), sub(lm, n))
    return [(s, ok(I, c.dty, n) if n is not None else _io_error(c, s, 'ioerror')) for s, n in res]


# ------------------------------------------------------------------------------------------ atomics: one thread at a time
def atomic_cell(c):
    """(object, path) of the number inside the cell, whatever wraps it"""
    I = c.I
    o, p = loc(I, c.st, c.args[0])
    for _ in range(6):
        v = I.read(c.st, o, p)
        v = I.expand(v) if v.op == 'sym' else v
        if v.op != 'agg' or I.p.types[v.a[0]].get('adt') != 'struct':
            return o, p, v
        fs = [i for i, x in enumerate(v.a[2]) if not (x.op == 'agg' and not x.a[2])]
        if len(fs) != 1:
            break
        p = p + (('f', fs[0]),)
    raise Gap('atomic cell')


@model('intrinsic:atomic_load')
def a_load(c):
    return c.ret(atomic_cell(c)[2])


def a_set(c, f):
    o, p, old = atomic_cell(c)
    st = c.st.copy()
    c.I.write(st, o, p, f(old))
    return st, old


@model('intrinsic:atomic_store')
def a_store(c):
    st, old = a_set(c, lambda old: c.args[1])
    return [(st, agg(c.dty, 0, []))]


@model('intrinsic:atomic_xchg')
def a_xchg(c):
    return [a_set(c, lambda old: c.args[1])]


@model('intrinsic:atomic_xadd', 'intrinsic:atomic_xsub')
def a_xadd(c):
    n = c.I.int_name(c.atys[1])
    what = 'wrapping_add' if c.I.p.insts[c.inst]['intrinsic'].endswith('add') else 'wrapping_sub'
    keep = c.args

    def new(old):
        c.args = [old, keep[1]]
        try:
            return M['core::num::<impl %s>::%s' % (n, what)](c)[0][1]
        finally:
            c.args = keep
    return [a_set(c, new)]


# ---------------------------------------------------------------------------------------------------------- i/o errors
@model('std::io::Error::kind', 'core::io::error::Error::kind')
def ioe_kind(c):
    return c.ret(c.I.mk_sym(c.dty, c.I.fresh('kind')))


@model('std::io::Error::new', 'std::io::Error::other', 'core::io::error::Error::new', 'core::io::error::Error::other', 'std::io::Error::from_raw_os_error')
def ioe_new(c):
    return c.ret(c.I.mk_sym(c.dty, c.I.fresh('error')))
