"""Hash-consed terms: integers are polynomials over atoms, booleans are literals/formulas, floats are opaque trees."""
import struct
from math import gcd


class T:
    __slots__ = ('op', 'a', 'id', 'c', 'sg')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_all = []


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_all)
        t.c = None
        t.sg = 0
        _tab[k] = t
        _all.append(t)
    return t


def cache(t):
    if t.c is None:
        t.c = {}
    return t.c


# ---------------------------------------------------------------- integer types
INT = {}
for _w in (8, 16, 32, 64, 128):
    INT['u%d' % _w] = (_w, False)
    INT['i%d' % _w] = (_w, True)
INT['usize'] = (64, False)
INT['isize'] = (64, True)


def trange(ty):
    w, s = INT[ty]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


# ---------------------------------------------------------------- polynomials
class _Order(dict):
    def __missing__(self, m):
        k = self[m] = (len(m), tuple([x.id for x in m]))
        return k


ORDER = _Order()
_order = ORDER.__getitem__


def poly(d):
    if len(d) > 1:
        ms = [m for m, c in d.items() if c]
        if len(ms) > 1:
            ms.sort(key=_order)
        items = tuple([(m, d[m]) for m in ms])
    else:
        items = tuple([mc for mc in d.items() if mc[1]])
    return mk('poly', items)


def K(n):
    return mk('poly', (((), n),) if n else ())


def A(atom):
    return mk('poly', (((atom,), 1),))


ZERO = K(0)
ONE = K(1)


def isconst(p):
    return p.op == 'poly' and (not p.a[0] or (len(p.a[0]) == 1 and p.a[0][0][0] == ()))


def cval(p):
    """constant value of a poly or None"""
    it = p.a[0]
    if not it:
        return 0
    if len(it) == 1 and it[0][0] == ():
        return it[0][1]
    return None


def add(p, q, k=1):
    if k == 0 or not q.a[0]:
        return p
    d = dict(p.a[0])
    g = d.get
    for m, c in q.a[0]:
        d[m] = g(m, 0) + k * c
    return poly(d)


def sub(p, q):
    return add(p, q, -1)


def neg(p):
    return mk('poly', tuple([(m, -c) for m, c in p.a[0]]))


def scale(p, k):
    return mk('poly', tuple([(m, k * c) for m, c in p.a[0]])) if k else ZERO


def addk(p, k):
    return add(p, K(k))


def _id(x):
    return x.id


def mul(p, q):
    cp, cq = cval(p), cval(q)
    if cp is not None:
        return scale(q, cp)
    if cq is not None:
        return scale(p, cq)
    d = {}
    for m1, c1 in p.a[0]:
        for m2, c2 in q.a[0]:
            m = m1 + m2
            if m1 and m2:
                m = tuple(sorted(m, key=_id))
            d[m] = d.get(m, 0) + c1 * c2
    return poly(d)


def monos(p):
    return [m for m, _ in p.a[0] if m]


def const_part(p):
    # the constant comes first
    it = p.a[0]
    return it[0][1] if it and not it[0][0] else 0


def var_part(p):
    it = p.a[0]
    return it[1:] if it and not it[0][0] else it


def patoms(p):
    c = p.c
    if c is None:
        c = p.c = {}
    s = c.get('pa')
    if s is None:
        s = c['pa'] = frozenset([x for m, _ in p.a[0] for x in m])
    return s


def single_atom(p):
    it = p.a[0]
    if len(it) == 1 and len(it[0][0]) == 1 and it[0][1] == 1:
        return it[0][0][0]
    return None


# ---------------------------------------------------------------- atoms
def isym(name, lo=None, hi=None):
    return A(mk('isym', name, lo, hi))


def arange(a):
    """(lo, hi) of an atom, None for unknown ends"""
    c = cache(a)
    if 'r' in c:
        return c['r']
    c['r'] = (None, None)
    op = a.op
    if op == 'isym':
        r = (a.a[1], a.a[2])
    elif op == 'div':
        lo, hi = prange(a.a[0])
        dl, dh = prange(a.a[1])
        lo2 = 0
        if dl is not None and dl >= 1:
            h2 = hi // dl if hi is not None else None
            if lo is not None and dh is not None and lo >= 0 and dh >= 1:
                lo2 = lo // dh
        else:
            h2 = hi
        r = (lo2, h2)
    elif op in ('wrap', 'sel', 'f2i', 'iop', 'bits'):
        ty = a.a[0]
        r = trange(ty)
        if op == 'bits':
            w, s = INT[ty]
            n = len(a.a[1])
            top = 0
            for k, b in enumerate(a.a[1]):
                if b != 0:
                    top = k + 1
            if not (s and top == w):
                r = (0, (1 << top) - 1)
        elif op == 'iop':
            r = iop_range(a, r)
        elif op == 'f2i':
            fr = frange(a.a[1])
            if fr is not None:
                r = (max(r[0], fr[0]), min(r[1], fr[1]))
    elif op == 'iite':
        lo, hi = prange(a.a[1])
        r = (None if lo is None else min(0, lo), None if hi is None else max(0, hi))
    elif op == 'lim':
        lo, hi = prange(a.a[0])
        if a.a[1] is not None:
            l = prange(a.a[1])[0]
            lo = l if lo is None else lo if l is None else max(l, lo)
            if prange(a.a[1])[1] is not None and hi is not None:
                hi = max(hi, prange(a.a[1])[1])
            else:
                hi = None
        if a.a[2] is not None:
            h = prange(a.a[2])[1]
            if h is not None:
                hi = h if hi is None else min(h, hi)
            l = prange(a.a[2])[0]
            lo = None if l is None or lo is None else min(lo, l)
        r = (lo, hi)
    elif op == 'byteof':
        r = (0, 255)
    elif op == 'unary':
        r = (0, (1 << 128) - 2)
    else:
        r = (None, None)
    c['r'] = r
    return r


def iop_range(a, r):
    n = a.a[1]
    args = a.a[2:]
    if n == 'and':
        hs = []
        for x in args:
            lo, hi = prange(x)
            if lo is not None and lo >= 0 and hi is not None:
                hs.append(hi)
        if hs:
            return (0, min([r[1]] + hs))
    if n in ('or', 'xor'):
        lo0, hi0 = prange(args[0])
        lo1, hi1 = prange(args[1])
        if None not in (lo0, hi0, lo1, hi1) and lo0 >= 0 and lo1 >= 0:
            m = max(hi0, hi1)
            return (max(lo0, lo1) if n == 'or' else 0, min(r[1], (1 << m.bit_length()) - 1))
    if n == 'shr':
        lo, hi = prange(args[0])
        if lo is not None and lo >= 0:
            return (0, hi if hi is not None else r[1])
    if n == 'shl':
        c0 = cval(args[0])
        lo, hi = prange(args[1])
        w, sg = INT[a.a[0]]
        if c0 is not None and c0 > 0 and lo is not None and lo >= 0:
            if hi is not None and c0 << min(hi, 256) <= r[1]:
                return (c0 << lo, c0 << hi)
            if not sg and c0 == 1:
                return (1, 1 << (w - 1))
    if n == 'ctpop':
        return (0, INT[a.a[0]][0] if len(args) < 2 else 128)
    if n == 'abs':
        return (0, r[1])
    return r


def prange(p):
    c = cache(p)
    if 'r' in c:
        return c['r']
    lo = hi = 0
    for m, k in p.a[0]:
        if m == ():
            lo = None if lo is None else lo + k
            hi = None if hi is None else hi + k
            continue
        l, h = 1, 1
        for x in m:
            xl, xh = arange(x)
            if len(m) == 1:
                l, h = xl, xh
            else:
                if xl is None or xl < 0 or l is None:
                    l = h = None
                    break
                l = l * xl
                h = None if (h is None or xh is None) else h * xh
        if k < 0:
            l, h = (None if h is None else h * k), (None if l is None else l * k)
        else:
            l, h = (None if l is None else l * k), (None if h is None else h * k)
        lo = None if (lo is None or l is None) else lo + l
        hi = None if (hi is None or h is None) else hi + h
    r = chain_range(p)
    if r is not None:
        lo = r[0] if lo is None else lo if r[0] is None else max(lo, r[0])
        hi = r[1] if hi is None else hi if r[1] is None else min(hi, r[1])
    c['r'] = (lo, hi)
    return lo, hi


def chain_range(p):
    """range of a choice made in steps, v + (c ? k - v : 0) with v of the same kind: the two cases of the last step"""
    its = [m[0] for m, k in p.a[0] if len(m) == 1 and m[0].op == 'iite']
    if len(its) < 2:
        return None
    last = max(its, key=lambda t: t.id)
    b = last.a[1]
    if b.op != 'poly' or not any(len(m) == 1 and m[0] in its for m, k in b.a[0]):
        return None
    k = dict(p.a[0])[(last,)]
    lo, hi = prange(sub(p, scale(A(last), k)))
    l2, h2 = prange(add(p, scale(sub(b, A(last)), k)))
    return (None if lo is None or l2 is None else min(lo, l2), None if hi is None or h2 is None else max(hi, h2))


def within(p, lo, hi):
    l, h = prange(p)
    return l is not None and h is not None and l >= lo and h <= hi


DIVISORS = set()      # everything some symbolic divisor depends on
DIVIDERS = set()      # symbols something is divided by


def div(p, d):
    """floor division, p >= 0 and d >= 1 known by the caller"""
    cp, cd = cval(p), cval(d)
    if cd is not None:
        if cd == 1:
            return p
        if cd == 0:
            return A(mk('div', p, d))
        if cp is not None:
            return K(cp // cd)
        # pull out exact multiples
        q, r = {}, {}
        for m, c in p.a[0]:
            qq, rr = divmod(c, cd)
            if rr == 0:
                q[m] = qq
            else:
                r[m] = c
        if q and list(r) == [()]:
            q[()], r[()] = divmod(r[()], cd)
            return poly(q)
        rp = poly(r)
        lo, hi = prange(rp)
        if q and lo is not None and lo >= 0:
            if hi is not None and hi < cd:
                return poly(q)
            return add(poly(q), div(rp, d))
        if not q and lo is not None and lo >= 0 and hi is not None and hi < cd:
            return ZERO
        # (x div a) div b = x div ab
        at = single_atom(p)
        if at is not None and at.op == 'div':
            dd = cval(at.a[1])
            if dd is not None:
                return div(at.a[0], K(dd * cd))
        if at is not None and at.op == 'unary' and cd & (cd - 1) == 0 and p is A(at):
            return A(mk('unary', addk(at.a[0], 1 - cd.bit_length()), at.a[1]))
        if at is not None and at.op == 'bits':
            s = cd.bit_length() - 1
            if 1 << s == cd and arange(at)[0] >= 0:
                return bits_poly(at.a[0], at.a[1][s:])
        return A(mk('div', p, d))
    # symbolic divisor: exact multiples
    if len(d.a[0]) == 1 and d.a[0][0][1] == 1 and len(d.a[0][0][0]) == 1:
        x = d.a[0][0][0][0]
        q, r = {}, {}
        for m, c in p.a[0]:
            if x in m:
                l = list(m)
                l.remove(x)
                q[tuple(l)] = q.get(tuple(l), 0) + c
            else:
                r[m] = c
        if q:
            rp = poly(r)
            if cval(rp) == 0:
                return poly(q)
            if prange(rp)[0] is not None and prange(rp)[0] >= 0:
                return add(poly(q), div(rp, d))
            it = single_atom(rp)
            if q and it is not None and it.op == 'iite' and rp is A(it):
                # distribute over the cases: every case is a floor of its own
                return add(poly(q), iite(it.a[0], sub(div(add(p, sub(it.a[1], rp)), d), poly(q)), ZERO))
    if cp == 0:
        return ZERO
    DIVISORS.update(x for x in subterms(d) if x.op != 'poly')
    x = single_atom(d)
    if x is not None and x.op == 'isym':
        DIVIDERS.add(x)
    return A(mk('div', p, d))


def mod(p, d):
    return sub(p, mul(d, div(p, d)))


def wrap(ty, p):
    lo, hi = trange(ty)
    if within(p, lo, hi):
        return p
    w, s = INT[ty]
    M = 1 << w
    # open inner wraps of at least this width
    changed = True
    while changed:
        changed = False
        d = {}
        for m, c in p.a[0]:
            if len(m) == 1 and m[0].op == 'wrap' and INT[m[0].a[0]][0] >= w:
                for m2, c2 in m[0].a[1].a[0]:
                    d[m2] = d.get(m2, 0) + c * c2
                changed = True
            else:
                d[m] = d.get(m, 0) + c
        p = poly(d)
    d = {}
    for m, c in p.a[0]:
        c %= M
        if c > M // 2 or (c == M // 2 and not s):
            c -= M
        d[m] = c
    # constants: choose a representative
    q = poly(d)
    if within(q, lo, hi):
        return q
    cc = cval(q)
    if cc is not None:
        cc %= M
        if s and cc >= M // 2:
            cc -= M
        return K(cc)
    at = single_atom(q)
    if at is not None and at.op == 'bits':
        return bits_poly(ty, at.a[1][:w] if INT[at.a[0]][0] >= w else sext(at, w))
    d = dict(q.a[0])
    c0 = d.get((), 0) % M
    if s and c0 >= M // 2:
        c0 -= M
    d[()] = c0
    q = poly(d)
    if within(q, lo, hi):
        return q
    return A(mk('wrap', ty, q))


def sext(at, w):
    """bits of a bits-atom extended to w bits"""
    iw, s = INT[at.a[0]]
    b = tuple(at.a[1]) + (0,) * (iw - len(at.a[1]))
    fill = b[-1] if s else 0
    return b + (fill,) * (w - iw)


# ---------------------------------------------------------------- bit patterns
def bits_poly(ty, bits):
    """integer of type ty whose two's complement pattern is `bits` (lsb first); entries 0, 1 or (poly, k)"""
    w, s = INT[ty]
    bits = tuple(bits)[:w]
    while bits and bits[-1] == 0:
        bits = bits[:-1]
    if all(b in (0, 1) for b in bits):
        v = sum(b << k for k, b in enumerate(bits))
        if s and v >= 1 << (w - 1):
            v -= 1 << w
        return K(v)
    b0 = bits[0]
    if isinstance(b0, tuple) and b0[1] == 0:
        src = b0[0]
        n = len(bits)
        if all(isinstance(b, tuple) and b[0] is src and b[1] == k for k, b in enumerate(bits)):
            lo, hi = prange(src)
            tl, th = trange(ty)
            if lo is not None and hi is not None:
                if lo >= 0 and hi < (1 << n) and hi <= th:
                    return src
                if n == w and lo >= tl and hi <= th:
                    return src
    return A(mk('bits', ty, bits))


def bit(p, k):
    """bit k of the two's complement expansion of p"""
    c = cval(p)
    if c is not None:
        return (c >> k) & 1
    at = single_atom(p)
    if at is not None:
        if at.op == 'bits':
            w, s = INT[at.a[0]]
            b = at.a[1]
            if k < len(b):
                return b[k]
            if s and len(b) == w:
                return b[-1]
            return 0
        if at.op == 'div':
            d = cval(at.a[1])
            if d is not None and d & (d - 1) == 0 and d:
                return bit(at.a[0], k + d.bit_length() - 1)
        if at.op == 'wrap' and k < INT[at.a[0]][0]:
            return bit(at.a[1], k)
    lo, hi = prange(p)
    if lo is not None and lo >= 0 and hi is not None and k >= hi.bit_length():
        return 0
    if lo is not None and hi is not None and hi < 0 and k >= (-lo - 1).bit_length():
        return 1
    if lo is not None and hi is not None and lo < 0:
        n = max(hi.bit_length(), (-lo - 1).bit_length())
        if k > n:
            k = n
    # low bits of q:  q - 2^n * (q div 2^n)
    if len(p.a[0]) > 1:
        for m, c in p.a[0]:
            if len(m) == 1 and m[0].op == 'div' and c < 0 and (-c) & (-c - 1) == 0 and cval(m[0].a[1]) == -c:
                rest = add(p, poly({m: c}), -1)
                if rest is m[0].a[0]:
                    return bit(m[0].a[0], k) if k < (-c).bit_length() - 1 else 0
            if len(p.a[0]) == 2 and len(m) == 1 and c < 0 and (-c) & (-c - 1) == 0:
                rest = add(p, poly({m: c}), -1)
                if single_atom(rest) is not None and single_atom(rest).op in ('bits', 'div') and div(rest, K(-c)) is poly({m: 1}):
                    return bit(rest, k) if k < (-c).bit_length() - 1 else 0
        # disjoint power-of-two pieces
        pieces = []
        ok = True
        for m, c in p.a[0]:
            q = poly({m: 1})
            l, h = prange(q)
            if c <= 0 or (c & (c - 1) and m != ()) or l is None or l < 0 or h is None:
                ok = False
                break
            if m == ():
                pieces.append((0, c.bit_length(), K(c), c & -c))
            else:
                s0 = c.bit_length() - 1
                pieces.append((s0, s0 + h.bit_length(), q, c))
        if ok:
            for (l1, h1, q1, c1) in pieces:
                for (l2, h2, q2, c2) in pieces:
                    if q1 is not q2 and cval(q1) is None and cval(q2) is None and l1 < h2 and l2 < h1:
                        ok = False
            cs = [x for x in pieces if cval(x[2]) is not None]
            if cs:
                cv = cval(cs[0][2])
                for (l2, h2, q2, c2) in pieces:
                    if cval(q2) is None and (cv >> l2) & ((1 << (h2 - l2)) - 1):
                        ok = False
            if ok:
                for (l1, h1, q1, c1) in pieces:
                    if cval(q1) is not None:
                        if (cval(q1) >> k) & 1:
                            return 1
                    elif l1 <= k < h1:
                        return bit(q1, k - l1)
                return 0
    # multiples of a power of two
    t = None
    for m, c in p.a[0]:
        z = (c & -c).bit_length() - 1
        t = z if t is None else min(t, z)
    if t:
        if k < t:
            return 0
        return bit(poly({m: c >> t for m, c in p.a[0]}), k - t)
    return (p, k)


def to_bits(p, ty):
    """bit pattern of p as an integer of type ty (lsb first, full width)"""
    w, s = INT[ty]
    return tuple(bit(p, k) for k in range(w))


def bitop(op, p, q, ty):
    """bitwise operation, None when a bit is not representable"""
    out = []
    for x, y in zip(to_bits(p, ty), to_bits(q, ty)):
        if op == 'and':
            r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else None
        elif op == 'or':
            r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else None
        else:
            r = y if x == 0 else x if y == 0 else 0 if x == y else None
        if r is None:
            return None
        out.append(r)
    return bits_poly(ty, out)


def is_bits(p):
    at = single_atom(p)
    return at is not None and at.op == 'bits'


# ---------------------------------------------------------------- booleans
TRUE = mk('true')
FALSE = mk('false')


def le0(p):
    """p <= 0"""
    lo, hi = prange(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    g = 0
    c0 = 0
    for m, c in p.a[0]:
        if m == ():
            c0 = c
        else:
            g = gcd(g, c)
    if g > 1:
        d = {m: c // g for m, c in p.a[0] if m}
        d[()] = -((-c0) // g)
        p = poly(d)
    return mk('le', p)


def le(p, q):
    return le0(sub(p, q))


def lt(p, q):
    return le0(addk(sub(p, q), 1))


def eq0(p):
    lo, hi = prange(p)
    if lo == 0 and hi == 0:
        return TRUE
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    g = 0
    c0 = 0
    for m, c in p.a[0]:
        if m == ():
            c0 = c
        else:
            g = gcd(g, c)
    if g and c0 % g:
        return FALSE
    first = p.a[0][-1][1]
    if g > 1 or first < 0:
        k = -g if first < 0 else g
        p = poly({m: c // k for m, c in p.a[0]})
    at = single_atom(p)
    if at is not None and at.op == 'iite':
        # (c ? k : 0) == 0
        k = at.a[1]
        kc = cval(k)
        if kc is not None and kc != 0:
            return bnot(at.a[0])
    if len(p.a[0]) == 2 and p.a[0][0][0] == () and len(p.a[0][1][0]) == 1:
        at = p.a[0][1][0][0]
        if at.op == 'iite' and p.a[0][1][1] == 1:
            kc = cval(at.a[1])
            if kc is not None and kc == -p.a[0][0][1]:
                return at.a[0]
            if kc is not None:
                return FALSE
    if all(not m or (len(m) == 1 and m[0].op == 'iite') for m, c in p.a[0]):
        g = _gated(p, 3)
        if g is not None:
            return g
    return mk('eq', p)


def _gated(p, depth):
    """p == 0 as a formula when p takes constant values only, else None"""
    c = cval(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if depth == 0:
        return None
    ats = {m[0] for m, c in p.a[0] if m}
    at = max(ats, key=lambda x: x.id)
    if cval(at.a[1]) is None and not all(len(m) == 1 and m[0].op == 'iite' for m, c in at.a[1].a[0] if m):
        return None
    out = []
    cond = at.a[0]
    for v in (True, False):
        memo = {}

        def f(t):
            if t.op == 'iite' and t.a[0] is cond:
                return rebuild(t.a[1], f, memo) if v else ZERO
            return None
        q = rebuild(p, f, memo)
        if not all(not m or (len(m) == 1 and m[0].op == 'iite') for m, c in q.a[0]):
            return None
        g = _gated(q, depth - 1)
        if g is None:
            return None
        out.append(g)
    return bite(cond, out[0], out[1])


def eq(p, q):
    return eq0(sub(p, q))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le':
        return le0(sub(ONE, b.a[0]))
    if b.op == 'and':
        return bor(bnot(b.a[0]), bnot(b.a[1]))
    if b.op == 'or':
        return band(bnot(b.a[0]), bnot(b.a[1]))
    return mk('not', b)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a is bnot1(b):
        return FALSE
    if b.id < a.id:
        a, b = b, a
    return mk('and', a, b)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    if a is bnot1(b):
        return TRUE
    if b.id < a.id:
        a, b = b, a
    return mk('or', a, b)


def bnot1(b):
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le':
        return le0(sub(ONE, b.a[0]))
    if b.op in ('and', 'or'):
        return None
    return mk('not', b)


def bite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    n = bnot(c)
    if n.id < c.id:
        c, a, b = n, b, a
    return mk('bite', c, a, b)


def b2i(b):
    return iite(b, ONE, ZERO)


def iite(c, p, q):
    if p is q or c is TRUE:
        return p
    if c is FALSE:
        return q
    n = bnot(c)
    if n.id < c.id:
        c, p, q = n, q, p
    return add(q, A(mk('iite', c, sub(p, q))))


def gather(p):
    """a sum with choices made by the same condition: one choice between the sums"""
    by = {}
    for m, c in p.a[0]:
        if len(m) == 1 and m[0].op == 'iite':
            by.setdefault(m[0].a[0], []).append((c, m[0]))
    for cond, l in by.items():
        if len(l) > 1:
            t = ZERO
            for c, a in l:
                p = sub(p, scale(A(a), c))
                t = add(t, scale(a.a[1], c))
            t = gather(t)
            if t is not ZERO:
                p = add(p, A(mk('iite', cond, t)))
    return p


def lim(x, l, h):
    """x limited to l..h (l <= h is the caller's obligation; either may be None)"""
    lo, hi = prange(x)
    if l is not None and lo is not None:
        b = prange(l)[1]
        if b is not None and b <= lo:
            l = None
    if h is not None and hi is not None:
        b = prange(h)[0]
        if b is not None and hi <= b:
            h = None
    if l is None and h is None:
        return x
    if l is not None and le(x, l) is TRUE:
        return l
    if h is not None and le(h, x) is TRUE:
        return h
    return A(mk('lim', x, l, h))


# ---------------------------------------------------------------- floats
def fconst(v, ty='f32'):
    if ty == 'f32':
        b = struct.unpack('<I', struct.pack('<f', v))[0]
    else:
        b = struct.unpack('<Q', struct.pack('<d', v))[0]
    return mk('fc', b, ty)


def fval(f):
    if f.op != 'fc':
        return None
    if f.a[1] == 'f32':
        return struct.unpack('<f', struct.pack('<I', f.a[0]))[0]
    return struct.unpack('<d', struct.pack('<Q', f.a[0]))[0]


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


def fop(op, *args):
    if op == 'powi':
        # a power of two: every product is exact
        b, e = fval(args[0]), cval(args[1].a[0])
        if e is not None and b is not None and b in (2.0, 0.5) and abs(e) < 100:
            return fconst(b ** e, args[0].a[1])
        return mk('fop', op, *args)
    vs = [fval(x) for x in args]
    if all(v is not None for v in vs):
        ty = args[0].a[1]
        r = None
        if op == 'neg':
            r = -vs[0]
        elif op == 'add':
            r = vs[0] + vs[1]
        elif op == 'sub':
            r = vs[0] - vs[1]
        elif op == 'mul':
            r = vs[0] * vs[1]
        elif op == 'div' and vs[1] != 0:
            r = vs[0] / vs[1]
        if r is not None:
            return fconst(f32(r) if ty == 'f32' else r, ty)
    if op in ('mul', 'add') and args[1].id < args[0].id:
        args = (args[1], args[0])  # IEEE addition and multiplication commute
    return mk('fop', op, *args)


def fite(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    n = bnot(c)
    if n.id < c.id:
        c, a, b = n, b, a
    return mk('fite', c, a, b)


def fcmp(op, a, b):
    va, vb = fval(a), fval(b)
    if va is not None and vb is not None:
        r = {'Lt': va < vb, 'Le': va <= vb, 'Gt': va > vb, 'Ge': va >= vb, 'Eq': va == vb, 'Ne': va != vb}[op]
        return TRUE if r else FALSE
    if op == 'Gt':
        return mk('fcmp', 'Lt', b, a)
    if op == 'Ge':
        return mk('fcmp', 'Le', b, a)
    if op == 'Ne':
        return bnot(fcmp('Eq', a, b))
    if op == 'Eq' and b.id < a.id:
        a, b = b, a
    return mk('fcmp', op, a, b)


def i2f(p, ty):
    c = cval(p)
    if c is not None:
        return fconst(f32(float(c)) if ty == 'f32' else float(c), ty)
    return mk('i2f', p, ty)


def frange(f, depth=0):
    """conservative finite range (as ints, outward) of a float term or None; NaN converts to 0 in f2i"""
    if depth > 12:
        return None
    v = fval(f)
    if v is not None:
        if v != v or v in (float('inf'), float('-inf')):
            return None
        import math
        return (math.floor(v), math.ceil(v))
    if f.op == 'i2f':
        lo, hi = prange(f.a[0])
        if lo is None or hi is None:
            return None
        if max(abs(lo), abs(hi)) < 1 << 24:
            return (lo, hi)
        return (lo - (abs(lo) >> 20) - 1, hi + (abs(hi) >> 20) + 1)
    return None


def f2i(f, ty):
    v = fval(f)
    lo, hi = trange(ty)
    if v is not None:
        if v != v:
            return ZERO
        if v == float('inf'):
            return K(hi)
        if v == float('-inf'):
            return K(lo)
        return K(max(lo, min(hi, int(v))))
    return A(mk('f2i', ty, f))


# ---------------------------------------------------------------- generic traversal
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tchildren(x)


def _tchildren(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tchildren(y)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


G_IITE, G_LIM, G_ITE = 1, 2, 4
GATES = {'iite': G_IITE, 'lim': G_LIM, 'ite': G_ITE, 'fite': G_ITE, 'bite': G_ITE}


def sigbit(t):
    """the bit of a term in the signatures of the terms that contain it (shared with others)"""
    return 16 << t.id % 2039


def sig(t):
    """kinds of gates below a term, and a superset of its subterms"""
    r = t.sg
    if not r:
        r = 8 | GATES.get(t.op, 0) | 16 << t.id % 2039
        for x in children(t):
            r |= x.sg or sig(x)
        t.sg = r
    return r


def rebuild(t, f, memo, want=0):
    """bottom-up rewriting: f(t) -> replacement or None, applied to atoms/terms before descending;
    want: f only ever answers for terms with one of these signature bits"""
    if want and not (t.sg or sig(t)) & want:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        op = t.op
        if op == 'poly':
            same = True
            d = {}
            for m, c in t.a[0]:
                ys = [rebuild(x, f, memo, want) for x in m]
                if all([x is y for x, y in zip(m, ys)]):
                    d[m] = d.get(m, 0) + c
                    continue
                same = False
                term = K(c)
                for y in ys:
                    term = mul(term, y if y.op == 'poly' else A(y))
                for n, k in term.a[0]:
                    d[n] = d.get(n, 0) + k
            r = t if same else poly(d)
        elif not any(True for _ in children(t)):
            r = t
        else:
            na = tuple([_reb(x, f, memo, want) for x in t.a])
            if na == t.a:
                r = t
            else:
                r = remake(op, na)
    memo[t.id] = r
    return r


def _reb(x, f, memo, want):
    if isinstance(x, T):
        return rebuild(x, f, memo, want)
    if isinstance(x, tuple):
        return tuple([_reb(y, f, memo, want) for y in x])
    return x


def remake(op, a):
    """re-apply the smart constructors"""
    if op == 'div':
        return div(*a)
    if op == 'wrap':
        return wrap(*a)
    if op == 'iite':
        return iite(a[0], a[1], ZERO)
    if op == 'lim':
        return lim(*a)
    if op == 'le':
        return le0(a[0])
    if op == 'eq':
        return eq0(a[0])
    if op == 'not':
        return bnot(a[0])
    if op == 'and':
        return band(*a)
    if op == 'or':
        return bor(*a)
    if op == 'bite':
        return bite(*a)
    if op == 'fop':
        return fop(*a)
    if op == 'fite':
        return fite(*a)
    if op == 'fcmp':
        return fcmp(*a)
    if op == 'i2f':
        return i2f(*a)
    if op == 'f2i':
        return f2i(a[1], a[0])
    if op == 'iop' and a[1] in ('and', 'or', 'xor'):
        x, y = cval(a[2]), cval(a[3])
        if x is not None and y is not None:
            return wrap(a[0], K(x & y if a[1] == 'and' else x | y if a[1] == 'or' else x ^ y))
        r = bitop(a[1], a[2], a[3], a[0])
        return r if r is not None else mk(op, *a)
    if op == 'iop' and a[1] in ('shl', 'shr'):
        x, y = cval(a[2]), cval(a[3])
        if x is not None and y is not None:
            y %= INT[a[0]][0]
            return wrap(a[0], K(x << y if a[1] == 'shl' else x >> y))
    if op == 'bits':
        nb = []
        for b in a[1]:
            if isinstance(b, tuple):
                nb.append(bit(b[0], b[1]))
            else:
                nb.append(b)
        return bits_poly(a[0], nb)
    if op == 'ite':
        if a[0] is TRUE or a[1] is a[2]:
            return a[1]
        if a[0] is FALSE:
            return a[2]
    return mk(op, *a)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 6:
        return '..'
    op = t.op
    if op == 'poly':
        if not t.a[0]:
            return '0'
        out = []
        for m, c in t.a[0]:
            s = '*'.join(show(x, d + 1) for x in m)
            if not m:
                out.append('%d' % c)
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%d*%s' % (c, s))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'isym':
        return shown(t.a[0])
    if op in ('fsym', 'bsym'):
        return shown(t.a[0])
    if op == 'fc':
        return repr(fval(t))
    if op == 'le':
        return '[%s<=0]' % show(t.a[0], d + 1)
    if op == 'eq':
        return '[%s==0]' % show(t.a[0], d + 1)
    if op == 'not':
        return '!' + show(t.a[0], d + 1)
    if op == 'n':
        return shown(t)
    if op == 'bits':
        return 'bits:%s{%d}' % (t.a[0], len(t.a[1]))
    return op + '(' + ', '.join(shown(x, d + 1) for x in t.a) + ')'


def shown(x, d=0):
    if isinstance(x, T):
        if x.op == 'n':
            return '.'.join(shown(y, d) for y in x.a)
        return show(x, d)
    if isinstance(x, tuple):
        return '<' + ','.join(shown(y, d + 1) for y in x) + '>'
    return str(x)
