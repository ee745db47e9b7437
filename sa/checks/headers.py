"""frame-header table: obligations"""
from ..kit import *
from ..par import parallel
import os

FRAMES = 1 << 31            # frames of a stream (the table's cursors are 32 bits wide)


class Table:
    def __init__(self, kit):
        self.kit = kit
        self.ty = ty = kit.ty('FrameHeaders')
        f = kit.field
        self.f_nib = f(ty, kit.is_adt('NibbleList'))
        self.f_bit = f(ty, kit.is_adt('BitVec'))
        self.f_size = f(ty, kit.is_vec('u16'))
        self.f_pos = f(ty, kit.is_vec('u64'))
        self.f_hist = f(ty, kit.is_vec(lambda e: e['k'] == 'array'))
        self.f_cur = f(ty, lambda t: t['k'] == 'uint')
        fs = kit.fields(ty)
        if len(fs) != 6:
            raise Missing('columns of FrameHeaders')
        nt, bt = fs[self.f_nib][1], fs[self.f_bit][1]
        self.n_data, self.n_len = f(nt, kit.is_vec('u8')), f(nt, lambda t: t['k'] == 'uint')
        self.b_data, self.b_len = f(bt, kit.is_vec('u64')), f(bt, lambda t: t['k'] == 'uint')
        h = kit.ty('FrameHeader')
        self.hty = h
        self.h_exp = f(h, lambda t: t.get('s') == 'u8')
        self.h_pos = f(h, lambda t: t.get('s') == 'u128')

    def make(self, I, st, obj, L, cur, odd=None):
        """a table of L frames at position cur; odd: number of bytes when L is odd (the unused half of the last is 0)"""
        v = I.expand(I.objval(st, obj))
        u = lambda v, path, x: I.update(st, v, tuple(('f', i) for i in path), x)
        g = lambda v, *path: self.get(I, st, v, *path)
        nb = div(addk(L, 1), K(2))
        data = g(v, self.f_nib, self.n_data).a[1]
        if odd:
            nibs = isym(name('last nibble'), 0, 15)
            data = mk('store', data, addk(nb, -1), nibs)
        v = u(v, (self.f_nib, self.n_data), mk('vec', nb, data))
        v = u(v, (self.f_nib, self.n_len), L)
        v = u(v, (self.f_bit, self.b_len), L)
        for f in (self.f_size, self.f_pos, self.f_hist):
            v = u(v, (f,), mk('vec', L, g(v, f).a[1]))
        v = u(v, (self.f_cur,), cur)
        st.mem[obj] = v
        w = g(v, self.f_bit, self.b_data).a[0]
        return st.assume(le(L, scale(w, 64))).assume(le(w, K(FRAMES))).assume(le(L, K(FRAMES)))

    def get(self, I, st, v, *path):
        for i in path:
            v = I.project(st, v, ('f', i))
        return v

    def lens(self, I, st, v):
        g = lambda *p: self.get(I, st, v, *p)
        return {'exponent column': g(self.f_nib, self.n_len), 'init column': g(self.f_bit, self.b_len),
                'size column': g(self.f_size).a[0], 'bit position column': g(self.f_pos).a[0], 'history column': g(self.f_hist).a[0]}

    def inv(self, ck, I, st, v, L, root, tag):
        """representation invariant with L frames"""
        for nm, x in self.lens(I, st, v).items():
            ck.need(same(I, st, x, L), 'every column has one element per frame', root, '%s: %s: %s' % (tag, nm, show(x)[:120]))
        nd = self.get(I, st, v, self.f_nib, self.n_data)
        nb = div(addk(L, 1), K(2))
        ck.need(same(I, st, nd.a[0], nb), 'the exponents take exactly the bytes they need', root, '%s: %s' % (tag, show(nd.a[0])[:200]))
        w = self.get(I, st, v, self.f_bit, self.b_data).a[0]
        ck.need(I.prove(st, le(L, scale(w, 64))), 'the init bits have room', root, tag)
        par = parity(I, st, L)
        if par == 1:
            s2 = st.assume(le(ONE, L))
            x = I.arr_select(s2, nd.a[1], addk(nb, -1))
            ok = all(all(b == 0 for b in to_bits(y, 'u8')[4:]) or I.prove(s3, le(y, K(15))) for s3, (y,) in worlds(I, s2, x))
            ck.need(ok, 'the unused half of the last exponent byte is 0', root, '%s: %s' % (tag, show(x)[:200]))


def parity(I, st, L):
    m = sub(L, scale(div(L, K(2)), 2))
    return cval(m)


def observe(ck, T, I, st, root_obj, idx, tag, root='root_h_get'):
    """[(state, header or None)] of get(idx)"""
    kit = ck.kit
    args = kit.args(I, root)
    out = []
    for s, x in kit.run(I, root, [args[0], idx], st):
        for s2, y in cases(I, s, x):
            out.append((s2, I.expand(y.a[2][0]) if variant(I, y) == 'Some' else None))
    return out


def fields_equal(ck, T, I, s, a, b, rule, root, tag):
    t = I.p.types[T.hty]
    for k, (fn, ft) in enumerate(t['v'][0]['f']):
        x, y = I.project(s, a, ('f', k)), I.project(s, b, ('f', k))
        ok = eqv(I, s, x, y)
        ck.need(ok, rule, root, '%s: %s: %s instead of %s' % (tag, fn, show(x)[:200], show(y)[:200]))


def bool_bit(b):
    """bit representing the boolean b (as bit() names it), None when b is no single bit"""
    if b is TRUE or b is FALSE:
        return 1 if b is TRUE else 0
    neg = False
    if b.op == 'not':
        b, neg = b.a[0], True
    if b.op == 'eq':
        p = b.a[0]
        for q in (addk(p, 1), sub(ONE, p), p, neg_(p)):
            z, *rest = to_bits(q, 'u128')
            if small(q) and not any(r != 0 for r in rest) and z is not None:
                one = q is addk(p, 1) or q is sub(ONE, p)
                return (z, one != neg)
        return None
    return (to_bits(b2i(b), 'u8')[0], not neg)


def small(p):
    """does p fit an i128?"""
    lo, hi = prange(p)
    return lo is not None and hi is not None and -1 << 127 <= lo and hi < 1 << 127


def neg_(p):
    return scale(p, -1)


def eqv(I, s, x, y):
    if same(I, s, x, y):
        return True
    if x.op == 'arrc' or y.op == 'arrc':
        n = len(x.a[1]) if x.op == 'arrc' else len(y.a[1])
        return all(eqv(I, s, I.arr_select(s, x, K(k)), I.arr_select(s, y, K(k))) for k in range(n))
    for s2, (p, q) in worlds(I, s, x, y):
        if same(I, s2, p, q):
            continue
        if p.op in BOOLS and q.op in BOOLS:
            if I.prove(s2, bor(band(p, q), band(bnot(p), bnot(q)))):
                continue
            a, b = bool_bit(p), bool_bit(q)
            if a is not None and a == b:
                continue
        elif p.op == 'poly' and q.op == 'poly':
            if small(p) and small(q) and None not in to_bits(p, 'u128') and to_bits(p, 'u128') == to_bits(q, 'u128'):
                continue
        if os.environ.get('VERIF_DEBUG') == '2':
            print('eqv', show(p), '|', show(q), [show(f) for f in s2.facts.known()][-6:])
        return False
    return True


def new_header(T, I):
    """a header whose exponent and position fit the file format"""
    h = I.expand(mk('sym', T.hty, name('header')))
    st = State({}, ROOT)
    h = I.update(st, h, (('f', T.h_exp),), isym(name('header', 'exponent'), 0, 15))
    h = I.update(st, h, (('f', T.h_pos),), isym(name('header', 'position'), 0, (1 << 64) - 1))
    return h


def push(ck, T, r, overwrite):
    kit = ck.kit
    root = 'root_h_push'
    I0 = None
    m = isym(name('blocks of 64'), 0, FRAMES >> 7)
    at = addk(scale(m, 64), r)
    for later in ((0, 1) if overwrite else (None,)):
        I = kit.interp()
        args = kit.args(I, root)
        obj = args[0].a[0]
        if overwrite:
            # parity of the length matters for the last byte only
            half = isym(name('later'), 0, FRAMES >> 2)
            L = addk(add(at, scale(half, 2)), 1 + later)
        else:
            L = at
        st = T.make(I, State({}, ROOT), obj, L, at, odd=(r % 2 if not overwrite else (r + 1 + later) % 2))
        h = new_header(T, I)
        tag = ('overwriting entry 64m+%d' if overwrite else 'appending entry 64m+%d') % r
        v0 = st.mem[obj]
        out = kit.run(I, root, [args[0], h], st)
        ck.need(bool(out), 'push returns', root, tag)
        L1 = L if overwrite else addk(L, 1)
        for s, _ in out:
            v1 = s.mem[obj]
            T.inv(ck, I, s, v1, L1, root, tag)
            ck.need(same(I, s, T.get(I, s, v1, T.f_cur), addk(at, 1)), 'push advances the position by one', root, tag)
            got = observe(ck, T, I, s, obj, at, tag)
            for s2, x in got:
                ck.need(x is not None, 'the pushed header can be read back', root, tag)
                if x is not None:
                    fields_equal(ck, T, I, s2, x, h, 'the header read back is the one pushed', root, tag)
            # other entries
            n = isym(name('other block of 64'), 0, FRAMES >> 6)
            for j in sorted({r, r ^ 1, (r + 1) % 64, (r + 7) % 64, (r + 32) % 64}) if not ck.thorough else range(64):
                for where in ('same block', 'earlier block', 'later block'):
                    m2 = m if where == 'same block' else n
                    k = addk(scale(m2, 64), j)
                    if where == 'same block' and j == r:
                        continue
                    s3 = s.assume(lt(k, L))
                    s3 = s3 if where == 'same block' else s3.assume(lt(n, m) if where == 'earlier block' else lt(m, n))
                    if I.P.infeasible_state(s3.facts):
                        continue
                    s0 = s3.copy()
                    s0.mem[obj] = v0
                    before = observe(ck, T, I, s0, obj, k, tag)
                    for sb, xb in before:
                        if xb is None:
                            ck.need(False, 'get(index) for every index below the length', root, tag)
                            continue
                        sa = sb.copy()
                        sa.mem[obj] = v1
                        for sc, xa in observe(ck, T, I, sa, obj, k, tag):
                            ck.need(xa is not None, 'other entries are still there', root, '%s entry 64n+%d' % (tag, j))
                            if xa is not None:
                                fields_equal(ck, T, I, sc, xa, xb, 'other entries are unchanged', root, '%s entry 64n+%d, %s' % (tag, j, where))
        ck.safe(I, 'push and get cannot fail')
        ck.covered(I, root)
        ck.covered(I, 'root_h_get')


def step(ck, T, r):
    """next() at 64m+r: the entry get() returns, one position further; None at the end"""
    kit = ck.kit
    root = 'root_h_next'
    m = isym(name('blocks of 64'), 0, FRAMES >> 7)
    at = addk(scale(m, 64), r)
    for more in (True, False):
        I = kit.interp()
        args = kit.args(I, root)
        obj = args[0].a[0]
        L = add(at, isym(name('rest'), 1, FRAMES >> 1)) if more else isym(name('length'), 0, FRAMES)
        st = T.make(I, State({}, ROOT), obj, L, at)
        if not more:
            st = st.assume(le(L, at))
        v0 = st.mem[obj]
        want = observe(ck, T, I, st, obj, at, '')
        tag = 'position 64m+%d' % r
        for s0, x0 in want:
            ck.need((x0 is not None) == more, 'get(index) is Some exactly below the length', 'root_h_get', tag)
            for s, x in kit.run(I, root, args, s0):
                for s2, y in cases(I, s, x):
                    v1 = s2.mem[obj]
                    some_ = variant(I, y) == 'Some'
                    ck.need(some_ == more, 'iteration ends exactly at the length', root, tag)
                    if some_ and x0 is not None:
                        fields_equal(ck, T, I, s2, I.expand(y.a[2][0]), x0, 'iteration returns the entry at the position', root, tag)
                    ck.need(same(I, s2, T.get(I, s2, v1, T.f_cur), addk(at, 1 if some_ else 0)), 'iteration moves one entry ahead, and not at the end', root, tag)
                    ck.need(same(I, s2, I.update(s2, v1, (('f', T.f_cur),), at), v0), 'iteration changes nothing else', root, tag)
        ck.safe(I, 'iteration cannot fail')
        ck.covered(I, root)


def simple(ck, T):
    kit = ck.kit
    I = kit.interp()
    for root, want in (('root_h_reset', ZERO), ('root_h_set_cursor', None), ('root_h_len', None)):
        args = kit.args(I, root)
        obj = args[0].a[0]
        L = isym(name('length'), 0, FRAMES)
        cur = isym(name('cursor'), 0, FRAMES)
        st = T.make(I, State({}, ROOT), obj, L, cur)
        v0 = st.mem[obj]
        for s, x in kit.run(I, root, args, st):
            v1 = s.mem.get(obj, v0)
            c = args[1] if root == 'root_h_set_cursor' else ZERO if root == 'root_h_reset' else cur
            ck.need(same(I, s, T.get(I, s, v1, T.f_cur), c), 'the position is where it was put', root)
            ck.need(same(I, s, I.update(s, v1, (('f', T.f_cur),), cur), v0), 'moving the position changes nothing else', root)
            if root == 'root_h_len':
                ck.need(same(I, s, x, L), 'len() is the number of entries', root)
        ck.covered(I, root)
    root = 'root_h_new'
    for s, x in kit.run(I, root, [], State({}, ROOT)):
        T.inv(ck, I, s, x, ZERO, root, 'new')
        ck.need(same(I, s, T.get(I, s, x, T.f_cur), ZERO), 'a new table starts at 0', root)
    ck.safe(I, 'cannot fail')
    ck.covered(I, root)


def truncate(ck, T, r):
    """entries behind the position are dropped, the others kept"""
    kit = ck.kit
    root = 'root_h_truncate'
    m = isym(name('blocks of 64'), 0, FRAMES >> 7)
    at = addk(scale(m, 64), r)
    for case in ('shorter even', 'shorter odd', 'not shorter'):
        I = kit.interp()
        args = kit.args(I, root)
        obj = args[0].a[0]
        if case == 'not shorter':
            L = isym(name('length'), 0, FRAMES)
        else:
            L = addk(add(at, scale(isym(name('later'), 0, FRAMES >> 2), 2)), 1 if (r + 1) % 2 == (case == 'shorter odd') else 2)
        st = T.make(I, State({}, ROOT), obj, L, at, odd=case == 'shorter odd')
        if case == 'not shorter':
            st = st.assume(le(L, at))
        v0 = st.mem[obj]
        tag = '%s, position 64m+%d' % (case, r)
        for s, _ in kit.run(I, root, args, st):
            v1 = s.mem.get(obj, v0)
            if case == 'not shorter':
                ck.need(same(I, s, v1, v0), 'nothing to drop, nothing changes', root, tag)
                continue
            T.inv(ck, I, s, v1, at, root, tag)
            ck.need(same(I, s, T.get(I, s, v1, T.f_cur), at), 'dropping entries keeps the position', root, tag)
            n = isym(name('other block of 64'), 0, FRAMES >> 6)
            for j, where in [(j, w) for j in sorted({(r - 1) % 64, (r - 2) % 64, (r + 7) % 64}) for w in ('same block', 'earlier block')]:
                k = addk(scale(m if where == 'same block' else n, 64), j)
                s3 = s.assume(lt(k, at))
                s3 = s3 if where == 'same block' else s3.assume(lt(n, m))
                if I.P.infeasible_state(s3.facts):
                    continue
                s0 = s3.copy()
                s0.mem[obj] = v0
                for sb, xb in observe(ck, T, I, s0, obj, k, tag):
                    sa = sb.copy()
                    sa.mem[obj] = v1
                    for sc, xa in observe(ck, T, I, sa, obj, k, tag):
                        ck.need(xa is not None and xb is not None, 'entries before the position are kept', root, tag)
                        if xa is not None and xb is not None:
                            fields_equal(ck, T, I, sc, xa, xb, 'entries before the position are unchanged', root, '%s entry 64n+%d, %s' % (tag, j, where))
        ck.safe(I, 'dropping entries cannot fail')
        ck.covered(I, root)


def pushes(ck):
    T = Table(ck.kit)

    def one(ck, r):
        with ck.scope('push, append'):
            push(ck, T, r, False)
        with ck.scope('push, overwrite'):
            push(ck, T, r, True)
    parallel(ck, one, range(64))


def drops(ck):
    T = Table(ck.kit)

    def one(ck, r):
        with ck.scope('push, append'):
            push(ck, T, r, False)
        with ck.scope('truncate'):
            truncate(ck, T, r)
    parallel(ck, one, range(64))


def table(ck):
    ck.assume('at most 2^31 frames per stream; the exponent of a pushed header is at most 15 and its bit position fits 64 bits (C09)')
    T = Table(ck.kit)
    with ck.scope('positions'):
        simple(ck, T)

    def one(ck, r):
        with ck.scope('push, append'):
            push(ck, T, r, False)
        with ck.scope('push, overwrite'):
            push(ck, T, r, True)
        with ck.scope('next'):
            step(ck, T, r)
        with ck.scope('truncate'):
            truncate(ck, T, r)
    parallel(ck, one, range(64))
