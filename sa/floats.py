"""Shapes of floating-point terms: piecewise evaluation around the clamping points, scaling factors."""
from .terms import *

REGIONS = ('nan', 'lt-1', '-1', 'mid', '1', 'gt1')
F_ONE = {'f32': fconst(1.0, 'f32'), 'f64': fconst(1.0, 'f64')}


def _cmp(op, r, c, left):
    """leaf `op` constant (left: the leaf is the left operand) in region r; None when the region does not decide it"""
    if r == 'nan':
        return False
    if c != c:
        return False
    iv = {'lt-1': (float('-inf'), -1.0), '-1': (-1.0, -1.0), 'mid': (-1.0, 1.0), '1': (1.0, 1.0), 'gt1': (1.0, float('inf'))}[r]
    lo, hi = iv
    if lo == hi:
        x = lo
        return {('Lt', True): x < c, ('Lt', False): c < x, ('Le', True): x <= c, ('Le', False): c <= x, ('Eq', True): x == c, ('Eq', False): x == c}[(op, left)]
    # open interval lo..hi
    below, above = hi <= c, lo >= c        # every x < c / every x > c
    if op == 'Eq':
        return False if below or above else None
    if left:
        return True if below else False if above else None
    return False if below else True if above else None


def piece(t, leaf, r):
    """the value of t for a leaf in region r: 'x', a float, or None"""
    if t is leaf:
        return 'x'
    v = fval(t)
    if v is not None:
        return v
    if t.op == 'fite':
        c = cond(t.a[0], leaf, r)
        if c is None:
            a, b = piece(t.a[1], leaf, r), piece(t.a[2], leaf, r)
            return a if a == b else None
        return piece(t.a[1] if c else t.a[2], leaf, r)
    return None


def cond(c, leaf, r):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == 'not':
        x = cond(c.a[0], leaf, r)
        return None if x is None else not x
    if c.op in ('and', 'or'):
        x, y = cond(c.a[0], leaf, r), cond(c.a[1], leaf, r)
        if c.op == 'and':
            return False if x is False or y is False else True if x and y else None
        return True if x or y else False if x is False and y is False else None
    if c.op == 'fcmp':
        a, b = piece(c.a[1], leaf, r), piece(c.a[2], leaf, r)
        if a is None or b is None:
            return None
        if a == 'x' and b == 'x':
            return {'Lt': False, 'Le': r != 'nan', 'Eq': r != 'nan'}[c.a[0]]
        if a == 'x':
            return _cmp(c.a[0], r, b, True)
        if b == 'x':
            return _cmp(c.a[0], r, a, False)
        return {'Lt': a < b, 'Le': a <= b, 'Eq': a == b}[c.a[0]]
    return None


def is_clamped(t, leaf):
    """t == clamp(leaf, -1, 1); NaN may stay NaN or become 0"""
    want = {'lt-1': (-1.0,), '-1': ('x', -1.0), 'mid': ('x',), '1': ('x', 1.0), 'gt1': (1.0,), 'nan': ('x', 0.0)}
    return all(piece(t, leaf, r) in want[r] for r in REGIONS)


def leaves(t):
    """float inputs of a term"""
    return [x for x in subterms(t) if x.op in ('fsym', 'fsel')]


def truncated(t):
    """the float leaf x when t is the integer (clamp(x, -1, 1) * 32767) as i16; None otherwise"""
    at = single_atom(t) if t.op == 'poly' else t
    if at is None or at.op != 'f2i' or at.a[0] != 'i16':
        return None
    f = at.a[1]
    if f.op != 'fop' or f.a[0] != 'mul':
        return None
    for c, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
        if fval(c) == 32767.0:
            ls = leaves(y)
            ls = [l for l in ls if is_clamped(y, l)]
            if len(ls) == 1:
                return ls[0]
    return None


def normalised(f):
    """the integer poly s when f is s as f32 scaled by 1/32767; None otherwise"""
    if f.op != 'fop':
        return None
    if f.a[0] == 'mul':
        for c, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            if fval(c) == f32(1.0 / 32767.0) and y.op == 'i2f':
                return y.a[0]
    if f.a[0] == 'div' and fval(f.a[2]) == 32767.0 and f.a[1].op == 'i2f':
        return f.a[1].a[0]
    return None
