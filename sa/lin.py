"""Facts of an abstract state and linear entailment (Gauss + Fourier-Motzkin over the rationals with integer tightening),
with bounded case analysis on gated (ite) atoms."""
from math import gcd
from .terms import *

le_ = le


class Fact:
    """persistent list of facts (literals or guards)"""
    __slots__ = ('parent', 'lit', 'depth', 'known_', 'all_')

    def __init__(self, parent, lit):
        self.parent = parent
        self.lit = lit
        self.depth = parent.depth + 1 if parent else 0
        self.known_ = None
        self.all_ = None

    def known(self):
        """set of literals known to be true"""
        if self.known_ is None:
            s = set(self.parent.known()) if self.parent else set()
            if self.lit is not None:
                _expand(self.lit, s)
            self.known_ = s
        return self.known_


def _expand(l, s):
    if l.op == 'and':
        _expand(l.a[0], s)
        _expand(l.a[1], s)
    s.add(l)


ROOT = Fact(None, None)


def chain(node, until=None):
    out = []
    while node is not until and node.parent is not None:
        out.append(node.lit)
        node = node.parent
    out.reverse()
    return out


def lca(a, b):
    while a.depth > b.depth:
        a = a.parent
    while b.depth > a.depth:
        b = b.parent
    while a is not b:
        a, b = a.parent, b.parent
    return a


# ---------------------------------------------------------------- feasibility of a system of p <= 0
def infeasible(ineqs, eqs, maxrows=600):
    """True if {p<=0 for ineqs, p==0 for eqs} has no integer solution (sound, incomplete)"""
    ms = set()
    for ps in (ineqs, eqs):
        for p in ps:
            for m, c in p.a[0]:
                ms.add(m)
    ms.discard(())
    # rows over numbers: 0, 1, ... for the monomials, CONST for the constant
    no = {m: i for i, m in enumerate(sorted(ms, key=_ids))}
    no[()] = CONST
    return _infeasible([{no[m]: c for m, c in p.a[0]} for p in ineqs], [{no[m]: c for m, c in p.a[0]} for p in eqs], maxrows, 3)


CONST = -1


def _ids(m):
    return ORDER[m][1]


def _norm(d):
    """d: var->coef incl. the constant; <= 0; integer tightening"""
    g = 0
    for m, c in d.items():
        if m >= 0:
            g = gcd(g, c)
            if g == 1:
                return d
    if g > 1:
        c0 = d.get(CONST, 0)
        d = {m: c // g for m, c in d.items() if m >= 0}
        d[CONST] = -((-c0) // g)
    return d


def _subst(row, m, c, e, iseq):
    """row*|c| - sign(c)*r*e"""
    r = row[m]
    if c > 0:
        k, r = c, -r
    else:
        k = -c
    n = dict(row) if k == 1 else {v: x * k for v, x in row.items()}
    for v, x in e.items():
        y = n.get(v, 0) + r * x
        if y:
            n[v] = y
        else:
            n.pop(v, None)
    return n if iseq else _norm(n)


def _addrow(tab, d):
    """False unless the row is a contradiction by itself"""
    g = 0
    ms = []
    for m, c in d.items():
        if c and m >= 0:
            ms.append(m)
            if g != 1:
                g = gcd(g, c)
    c0 = d.get(CONST, 0)
    if not ms:
        return c0 > 0
    ms.sort()
    if g > 1:
        c0 = -((-c0) // g)
        key = tuple([(m, d[m] // g) for m in ms])
    else:
        key = tuple([(m, d[m]) for m in ms])
    o = tab.get(key)
    if o is None or o < c0:
        tab[key] = c0
    return False


def _infeasible(I, E, maxrows, again):
    # Gaussian elimination with equalities, prefer unit coefficients
    while E:
        best = None
        for k, e in enumerate(E):
            for m, c in e.items():
                if m >= 0 and (best is None or abs(c) < best[0]):
                    best = (abs(c), k, m)
            if best and best[0] == 1:
                break
        if best is None:
            for e in E:
                if e.get(CONST, 0) != 0:
                    return True
            break
        _, k, m = best
        e = E.pop(k)
        c = e[m]
        NE = []
        for row in E:
            if m not in row:
                NE.append(row)
                continue
            n = _subst(row, m, c, e, True)
            g = 0
            for v, x in n.items():
                if v >= 0:
                    g = gcd(g, x)
            if g:
                if g > 1:
                    if n.get(CONST, 0) % g:
                        return True
                    n = {v: x // g for v, x in n.items()}
                NE.append(n)
            elif n.get(CONST, 0) != 0:
                return True
        E = NE
        I = [_subst(row, m, c, e, False) if m in row else row for row in I]
    # Fourier-Motzkin
    rows = {}
    for d in I:
        if _addrow(rows, d):
            return True
    # a <= b and b <= a: an equation, which keeps its divisibility
    both = []
    for key, c0 in rows.items():
        if key[0][1] > 0:
            k2 = tuple([(m, -c) for m, c in key])
            if k2 in rows:
                s = c0 + rows[k2]
                if s > 0:
                    return True
                if s == 0:
                    both.append((key, k2))
    if both and again:
        E = []
        for key, k2 in both:
            E.append({CONST: rows.pop(key), **dict(key)})
            del rows[k2]
        return _infeasible([{CONST: c0, **dict(key)} for key, c0 in rows.items()], E, maxrows, again - 1)
    while rows:
        # contradictions between opposite rows show up when eliminating
        while True:
            pos, negc = {}, {}
            for key in rows:
                for m, c in key:
                    if c > 0:
                        pos[m] = pos.get(m, 0) + 1
                    else:
                        negc[m] = negc.get(m, 0) + 1
            pure = pos.keys() ^ negc.keys()
            if not pure:
                break
            # a variable with bounds on one side only
            rows = {key: c0 for key, c0 in rows.items() if not any([m in pure for m, c in key])}
        if not rows:
            return False
        v = min(pos, key=lambda m: (pos[m] * negc[m] - pos[m] - negc[m], m))
        P, N, rest = [], [], {}
        for key, c0 in rows.items():
            for m, c in key:
                if m == v:
                    (P if c > 0 else N).append((key, c0, c))
                    break
            else:
                rest[key] = c0
        if len(rest) + len(P) * len(N) > maxrows:
            return False
        for pk, p0, pc in P:
            for nk, n0, nc in N:
                d = {m: x * -nc for m, x in pk}
                for m, x in nk:
                    d[m] = d.get(m, 0) + x * pc
                d[CONST] = n0 * pc - p0 * nc
                if _addrow(rest, d):
                    return True
        rows = rest
    return False


# ---------------------------------------------------------------- definitional facts of atoms
def atom_facts(a):
    """list of polys p with p <= 0 that always hold for atom a"""
    c = cache(a)
    if 'df' in c:
        return c['df']
    out = []
    lo, hi = arange(a)
    p = A(a)
    if lo is not None:
        out.append(sub(K(lo), p))
    if hi is not None and hi < (1 << 63):
        out.append(sub(p, K(hi)))
    elif hi is not None:
        out.append(sub(p, K(hi)))
    if a.op == 'div':
        x, d = a.a
        q = mul(p, d)
        if (prange(d)[0] or 0) >= 1:
            out.append(sub(q, x))                       # d*q <= x
            out.append(addk(sub(sub(x, q), d), 1))      # x - d*q <= d-1
    elif a.op == 'lim':
        x, l, h = a.a
        if l is not None:
            out.append(sub(l, p))
        if h is not None:
            out.append(sub(p, h))
        if l is None:
            out.append(sub(p, x))
        if h is None:
            out.append(sub(x, p))
    elif a.op == 'iop' and a.a[1] == 'and':
        for x in a.a[2:]:
            l, h = prange(x)
            if l is not None and l >= 0:
                out.append(sub(p, x))
    elif a.op == 'iop' and a.a[1] == 'or':
        for x in a.a[2:]:
            l, h = prange(x)
            if l is not None and l >= 0:
                out.append(sub(x, p))
    elif a.op == 'iop' and a.a[1] == 'shr':
        out.append(sub(p, a.a[2]))
    c['df'] = out
    return out


def div_facts(a, le, eqs=()):
    """the same for a division by something that is only known to be at least 1 here"""
    if a.op == 'div' and (prange(a.a[1])[0] or 0) < 1 and positive(a.a[1], le, eqs):
        x, d = a.a
        q = mul(A(a), d)
        return [sub(q, x), addk(sub(sub(x, q), d), 1)]
    return []


def positive(d, le, eqs):
    """d >= 1, from the given p <= 0 and p == 0"""
    at = patoms(d)
    lows = {x: arange(x)[0] for x in at}
    near = []
    nd, dc = var_part(neg(d)), const_part(d)
    for p in le:
        pa = patoms(p)
        if pa.isdisjoint(at):
            continue
        near.append(p)
        if var_part(p) == nd and const_part(p) + dc >= 1:            # c - d <= 0
            return True
        if len(pa) == 1 and len(p.a[0]) <= 2:
            x = next(iter(pa))
            if x in lows:
                c = [k for m, k in p.a[0] if m == (x,)]
                if c and c[0] < 0:              # c0 - k*x <= 0
                    l = -(-const_part(p) // -c[0])
                    if lows[x] is None or lows[x] < l:
                        lows[x] = l
    lo = 0
    for m, c in d.a[0]:
        if c < 0 and m != ():
            lo = None
            break
        v = c
        for x in m:
            if lows[x] is None or lows[x] < 0:
                lo = None
                break
            v *= lows[x]
        if lo is None:
            break
        lo += v
    if lo is not None and lo >= 1:
        return True
    if len(d.a[0]) > 1:
        I = near + [d] + [f for x in at for f in atom_facts(x)]
        return infeasible(I, [p for p in eqs if patoms(p) & at])
    return False


def mono_facts(m, nn):
    """nonnegativity of products"""
    if all(x in nn for x in m):
        return [poly({m: -1})]
    return []


def single_mono(p):
    for m, c in p.a[0]:
        if len(m) == 1:
            return m[0]
        if m:
            return None


def touches(l, atoms):
    """does a fact say something about one of the atoms?"""
    if l.op in ('le', 'eq'):
        return not patoms(l.a[0]).isdisjoint(atoms)
    if l.op == 'not':
        return l.a[0].op == 'eq' and touches(l.a[0], atoms)
    if l.op == 'guard':
        return any(touches(x, atoms) for x in l.a[1]) or any(touches(x, atoms) for x in l.a[2])
    return False


def common_factor(I, E, le, eqs):
    """x*P + c <= 0 with x >= 1 and c >= 0: P <= 0, and P <= -1 for c > 0; after elimination of what is known to be equal"""
    seen = set(I)
    E = list(E) + [p for p in I if p.id < neg(p).id and neg(p) in seen]
    done = []
    while E:
        e = E.pop()
        v = [(m, c) for m, c in e.a[0] if len(m) == 1 and abs(c) == 1]
        if not v:
            done.append(e)
            continue
        m, c = v[-1]
        x = m[0]
        I, E, done = [[eliminate(p, m, c, e) if x in patoms(p) else p for p in ps] for ps in (I, E, done)]
    out = []
    pos = {}
    for ps, signs in ((I, (1,)), (done, (1, -1))):
        for p in set(ps):
            if len(p.a[0]) > 6:
                continue
            ms = [m for m, c in p.a[0] if m != ()]
            if not ms or not any(len(m) > 1 for m in ms):
                continue
            for x in set(ms[0]):
                if not all(x in m for m in ms):
                    continue
                if x not in pos:
                    pos[x] = (arange(x)[0] or 0) >= 1 or positive(A(x), le, eqs)
                if not pos[x]:
                    continue
                P = {}
                for m, c in p.a[0]:
                    if m != ():
                        i = m.index(x)
                        P[m[:i] + m[i + 1:]] = c
                c0 = const_part(p)
                P = poly(P)
                for s in signs:
                    if c0 * s >= 0:
                        r = addk(scale(P, s), 1 if c0 * s > 0 else 0)
                        if cval(r) is None:
                            out.append(r)
                            if c0 or p not in seen:
                                out.append(mul(r, A(x)))
                        elif cval(r) > 0:
                            return [r]
    return sorted(set(out), key=lambda p: p.id)


def eliminate(p, m, c, e):
    for k, d in p.a[0]:
        if k == m:
            return sub(p, scale(e, d * c))
    return p


def nonneg(I, E):
    """atoms that are at least 0"""
    nn = set()
    for p in I + E:
        for a in patoms(p):
            l = arange(a)[0]
            if l is not None and l >= 0:
                nn.add(a)
    for s, ps in ((1, I), (1, E), (-1, E)):
        for p in ps:
            ms = [(m, c * s) for m, c in p.a[0] if m != ()]
            if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][1] < 0:
                # c0 - k*x <= 0
                if const_part(p) * s >= 0:
                    nn.add(ms[0][0][0])
    return nn


class Prover:
    MAXSPLIT = 5

    def __init__(self):
        self.memo = {}
        self.nq = 0

    def lits_of(self, node):
        """(simple le polys, eq polys, guards) of a fact chain"""
        r = node.all_
        if r is None:
            if node.parent is None:
                r = ((), (), ())
            else:
                p = self.lits_of(node.parent)
                le, eqs, gs = list(p[0]), list(p[1]), list(p[2])
                self._sort(node.lit, le, eqs, gs)
                r = (tuple(le), tuple(eqs), tuple(gs))
            node.all_ = r
        return r

    def _sort(self, l, le, eqs, gs):
        if l.op == 'le':
            le.append(l.a[0])
        elif l.op == 'eq':
            eqs.append(l.a[0])
        elif l.op == 'and':
            self._sort(l.a[0], le, eqs, gs)
            self._sort(l.a[1], le, eqs, gs)
        elif l.op in ('guard', 'or', 'bite'):
            gs.append(l)
        elif l.op == 'not' and l.a[0].op == 'eq':
            gs.append(l)

    def truth(self, node, b, deep=True):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        kn = node.known()
        if b in kn:
            return True
        nb = bnot(b)
        if nb in kn:
            return False
        if b.op == 'and':
            x = self.truth(node, b.a[0], deep)
            y = self.truth(node, b.a[1], deep)
            if x is False or y is False:
                return False
            if x and y:
                return True
            return self._deep(node, b, deep)
        if b.op == 'or':
            x = self.truth(node, b.a[0], deep)
            y = self.truth(node, b.a[1], deep)
            if x or y:
                return True
            if x is False and y is False:
                return False
            return self._deep(node, b, deep)
        if b.op == 'not':
            x = self.truth(node, b.a[0], deep)
            return None if x is None else not x
        if b.op == 'bite':
            c = self.truth(node, b.a[0], deep)
            if c is not None:
                return self.truth(node, b.a[1] if c else b.a[2], deep)
            return self._deep(node, b, deep)
        if not deep:
            return None
        return self._deep(node, b, deep)

    def _deep(self, node, b, deep):
        if not deep:
            return None
        if self.prove(node, b):
            return True
        if self.prove(node, bnot(b)):
            return False
        return None

    def prove(self, node, b):
        """does b hold in every concrete state described by the facts?"""
        if b is TRUE:
            return True
        if b in node.known():
            return True
        if b is FALSE:
            return self.infeasible_state(node)
        k = (id(node), b)
        r = self.memo.get(k)
        if r is not None and r[0] is node:
            return r[1]
        if b.op in ('le', 'eq'):
            q = gather(b.a[0])
            if q is not b.a[0]:
                return self.prove(node, le0(q) if b.op == 'le' else eq0(q))
        self.nq += 1
        v = self._refute(node, bnot(b))
        self.memo[k] = (node, v)
        return v

    def infeasible_state(self, node):
        k = (id(node), FALSE)
        r = self.memo.get(k)
        if r is not None and r[0] is node:
            return r[1]
        v = self._refute(node, TRUE)
        self.memo[k] = (node, v)
        return v

    def _refute(self, node, hyp):
        """facts and hyp contradictory?"""
        if FALSE in node.known():
            return True
        le, eqs, gs = self.lits_of(node)
        return self._ref([*le], [*eqs], [*gs], set(node.known()), [hyp], 0)

    def _assume(self, l, le, eqs, gs, known):
        """add literal to the working sets; returns False if contradictory"""
        if l is TRUE:
            return True
        if l is FALSE:
            return False
        if bnot(l) in known:
            return False
        known.add(l)
        if l.op == 'and':
            return self._assume(l.a[0], le, eqs, gs, known) and self._assume(l.a[1], le, eqs, gs, known)
        if l.op == 'le':
            le.append(l.a[0])
        elif l.op == 'eq':
            eqs.append(l.a[0])
        elif l.op in ('or', 'bite', 'guard') or (l.op == 'not' and l.a[0].op in ('eq', 'bite')):
            gs.append(l)
        return True

    def _ref(self, le, eqs, gs, known, new, depth):
        le, eqs, gs, known = list(le), list(eqs), list(gs), set(known)
        goal_atoms = set()
        for l in new:
            for t in ([l] if l.op not in ('and', 'or') else l.a):
                if t.op in ('le', 'eq'):
                    goal_atoms |= patoms(t.a[0])
                elif t.op == 'not' and t.a[0].op == 'eq':
                    goal_atoms |= patoms(t.a[0].a[0])
            if not self._assume(l, le, eqs, gs, known):
                return True
        # propagate guards
        changed = True
        while changed:
            changed = False
            rest = []
            for g in gs:
                r = self._step(g, known)
                if r is None:
                    rest.append(g)
                    continue
                changed = True
                if r is False:
                    return True
                for l in r:
                    if l.op == 'not' and l.a[0].op == 'eq' and l in known:
                        pass
                    tmp = []
                    if not self._assume(l, le, eqs, tmp, known):
                        return True
                    rest.extend(t for t in tmp if t is not g)
            gs = rest
        # gated values whose condition is already decided
        if any(a.op == 'iite' and self._val(a.a[0], known) is not None for a in set().union(*[patoms(p) for p in le + eqs], set())):
            return self._ref2(le, eqs, gs, known, TRUE, depth, goal_atoms)
        if self._lp(le, eqs, goal_atoms):
            return True
        if depth >= self.MAXSPLIT:
            return False
        # choose a case split: relevant ite atoms / disjunctions
        c = self._choose(le, eqs, gs, known, goal_atoms)
        if c is None:
            return False
        return all(self._ref2(le, eqs, gs, known, l, depth + 1, goal_atoms) for l in (c, bnot(c)))

    def _ref2(self, le, eqs, gs, known, lit, depth, goal_atoms):
        # simplify gated atoms under lit
        known = set(known)
        if not self._assume(lit, *( [le := list(le), eqs := list(eqs), gs := list(gs), known])):
            return True
        memo = {}
        cs = {}
        want = G_IITE | G_LIM
        if lit.op == 'eq':
            ms = [(m, c) for m, c in lit.a[0].a[0] if m != ()]
            if len(ms) == 1 and len(ms[0][0]) == 1 and const_part(lit.a[0]) % ms[0][1] == 0:
                cs[ms[0][0][0]] = K(-const_part(lit.a[0]) // ms[0][1])

        def f(t):
            if t in cs:
                return cs[t]
            if t.op == 'iite':
                c = self._val(t.a[0], known)
                if c is True:
                    return rebuild(t.a[1], f, memo, want)
                if c is False:
                    return ZERO
            elif t.op == 'lim':
                x, l, h = t.a
                if l is not None and le_(x, l) in known:
                    return rebuild(l, f, memo, want)
                if h is not None and le_(h, x) in known:
                    return rebuild(h, f, memo, want)
                if (l is None or bnot(le_(x, l)) in known) and (h is None or bnot(le_(h, x)) in known):
                    return rebuild(x, f, memo, want)
            elif t.op in ('le', 'eq', 'fcmp', 'bsym'):
                if t in known:
                    return None
            return None
        if cs and not any(x in DIVISORS for x in cs):
            cs = {}
        for x in cs:
            want |= sigbit(x)
        nle, neqs = [], []
        for p in le:
            q = rebuild(p, f, memo, want)
            c = cval(q)
            if c is not None:
                if c > 0:
                    return True
                continue
            nle.append(q)
        for p in eqs:
            q = rebuild(p, f, memo, want)
            c = cval(q)
            if c is not None:
                if c != 0:
                    return True
                continue
            neqs.append(q)
        more = set()
        for l in known:
            if l.op in ('le', 'eq', 'fcmp') or (l.op == 'not' and l.a[0].op in ('le', 'eq', 'fcmp')):
                l2 = rebuild(l, f, memo, want)
                if l2 is not l:
                    if l2 is FALSE:
                        return True
                    more.add(l2)
        known |= more
        ngs = []
        for g in gs:
            g2 = rebuild(g, f, memo, want)
            if g2 is g:
                ngs.append(g)
                continue
            if g2 is TRUE:
                continue
            if g2 is FALSE:
                return True
            if g2.op != 'guard':
                known.add(g2)
            if g2.op == 'le':
                nle.append(g2.a[0])
            elif g2.op == 'eq':
                neqs.append(g2.a[0])
            elif g2.op == 'and':
                tmp = []
                if not self._assume(g2, nle, neqs, tmp, known):
                    return True
                ngs += tmp
            else:
                ngs.append(g2)
        gs = ngs
        ga = set()
        for x in goal_atoms:
            y = rebuild(x, f, memo, want)
            ga |= patoms(y) if y.op == 'poly' else {y}
        return self._ref3(nle, neqs, gs, known, depth, ga, lit)

    def _ref3(self, le, eqs, gs, known, depth, ga, lit):
        if lit.op in ('le', 'eq'):
            ga = ga | patoms(lit.a[0])
        changed = True
        gs = list(gs)
        while changed:
            changed = False
            rest = []
            for g in gs:
                r = self._step(g, known)
                if r is None:
                    rest.append(g)
                    continue
                changed = True
                if r is False:
                    return True
                for l in r:
                    tmp = []
                    if not self._assume(l, le, eqs, tmp, known):
                        return True
                    rest.extend(t for t in tmp if t is not g)
            gs = rest
        if self._lp(le, eqs, ga):
            return True
        if depth >= self.MAXSPLIT:
            return False
        c = self._choose(le, eqs, gs, known, ga)
        if c is None:
            return False
        return all(self._ref2(le, eqs, gs, known, l, depth + 1, ga) for l in (c, bnot(c)))

    def _val(self, b, known):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in known:
            return True
        if bnot(b) in known:
            return False
        if b.op == 'and':
            x, y = self._val(b.a[0], known), self._val(b.a[1], known)
            if x is False or y is False:
                return False
            return True if x and y else None
        if b.op == 'or':
            x, y = self._val(b.a[0], known), self._val(b.a[1], known)
            if x or y:
                return True
            return False if x is False and y is False else None
        if b.op == 'bite':
            c = self._val(b.a[0], known)
            if c is not None:
                return self._val(b.a[1] if c else b.a[2], known)
        if b.op == 'not':
            c = self._val(b.a[0], known)
            return None if c is None else not c
        return None

    def _step(self, g, known):
        """unit propagation: None (nothing), False (contradiction), list of new literals"""
        if g.op == 'guard':
            c = self._val(g.a[0], known)
            if c is None:
                return None
            return list(g.a[1] if c else g.a[2])
        if g.op == 'or':
            x, y = self._val(g.a[0], known), self._val(g.a[1], known)
            if x or y:
                return []
            if x is False and y is False:
                return False
            if x is False:
                return [g.a[1]]
            if y is False:
                return [g.a[0]]
            return None
        if g.op == 'bite':
            c = self._val(g.a[0], known)
            if c is None:
                return None
            return [g.a[1] if c else g.a[2]]
        if g.op == 'not' and g.a[0].op == 'eq':
            p = g.a[0].a[0]
            lo, hi = prange(p)
            neg1, pos1 = le0(addk(p, 1)), le0(sub(ONE, p))
            if neg1 in known or pos1 in known:
                return []
            if (lo is not None and lo >= 0) or bnot(neg1) in known:
                return [pos1]
            if (hi is not None and hi <= 0) or bnot(pos1) in known:
                return [neg1]
            return None
        if g.op == 'not' and g.a[0].op == 'bite':
            i = g.a[0]
            c = self._val(i.a[0], known)
            if c is None:
                return None
            return [bnot(i.a[1] if c else i.a[2])]
        return None

    def _relevant(self, le, eqs, goal):
        """closure of atoms connected to the goal"""
        rel = set(goal)
        cons = [(p, patoms(p), 0) for p in le] + [(p, patoms(p), 1) for p in eqs]
        chosen = []
        used = [False] * len(cons)
        rounds = 0
        defs_done = set()
        while rounds < 6:
            rounds += 1
            new = set()
            for a in list(rel):
                if a in defs_done:
                    continue
                defs_done.add(a)
                for p in atom_facts(a) + div_facts(a, le, eqs):
                    new |= patoms(p)
                if a.op == 'div':
                    new |= patoms(a.a[1])
            for k, (p, at, e) in enumerate(cons):
                if not used[k] and at & rel:
                    used[k] = True
                    chosen.append((p, e))
                    new |= at
            new -= rel
            if not new:
                break
            rel |= new
        return rel, chosen

    def _lp(self, le, eqs, goal):
        goal = set(goal)
        if not goal:
            for p in le + eqs:
                goal |= patoms(p)
        rel, chosen = self._relevant(le, eqs, goal)
        I = [p for p, e in chosen if not e]
        E = [p for p, e in chosen if e]
        for a in rel:
            I.extend(atom_facts(a) + div_facts(a, le, eqs))
        # products
        ms = set()
        for p in I + E:
            for m in monos(p):
                if len(m) >= 2:
                    ms.add(m)
        if ms:
            cs = {}
            for p in E:
                t = [(m, c) for m, c in p.a[0] if m != ()]
                if len(t) == 1 and len(t[0][0]) == 1 and const_part(p) % t[0][1] == 0:
                    cs[t[0][0][0]] = K(-const_part(p) // t[0][1])
            want = 0
            for x in cs:
                want |= sigbit(x)
            if cs and any(sig(x) & want and contains(x, cs.__contains__) for m in ms for x in m):
                memo = {}
                f = cs.get
                le2, eq2 = [], []
                for src, dst, bad in ((le, le2, lambda c: c > 0), (eqs, eq2, lambda c: c != 0)):
                    for p in src:
                        if dst is eq2 and len([m for m, c in p.a[0] if m != ()]) == 1 and single_mono(p) in cs:
                            continue
                        q = rebuild(p, f, memo, want)
                        c = cval(q)
                        if c is not None:
                            if bad(c):
                                return True
                        else:
                            dst.append(q)
                g2 = set()
                for x in goal:
                    y = rebuild(x, f, memo, want)
                    g2 |= patoms(y) if y.op == 'poly' else {y}
                if self._lp(le2, eq2, g2):
                    return True
            by, both = {}, {}
            for ps, dst in ((I, by), (E, both)):
                for p in ps:
                    if len(p.a[0]) <= 4 and all([len(mm) == 1 for mm in monos(p)]):
                        for mm in monos(p):
                            dst.setdefault(mm[0], []).append(p)
            extra = set()
            nn = nonneg(I, E)
            for m in ms:
                for f in mono_facts(m, nn):
                    extra.add(f)
                if len(m) == 2:
                    for x, y in ((m[0], m[1]), (m[1], m[0])):
                        # multiply facts about x by (y >= 0)
                        if y not in nn:
                            continue
                        Y = A(y)
                        for p in by.get(x, ()):
                            extra.add(mul(p, Y))
                        for p in both.get(x, ()):
                            q = mul(p, Y)
                            extra.add(q)
                            extra.add(neg(q))
            if len(extra) > 60:
                extra = sorted(extra, key=lambda p: (sum(len(m) > 1 and m not in ms for m in monos(p)), len(p.a[0]), p.id))[:60]
            extra = list(extra) + common_factor(I, E, le, eqs)
            I = I + extra
            seen = set()
            for p in extra:
                for a in patoms(p):
                    if a not in rel and a not in seen:
                        seen.add(a)
                        I.extend(atom_facts(a) + div_facts(a, le, eqs))
        return infeasible(I, E)

    def _choose(self, le, eqs, gs, known, goal):
        rel, chosen = self._relevant(le, eqs, goal)
        cands = []
        # divisors whose value depends on a case distinction
        ds = set()
        for a in rel:
            if a.op == 'div' and (prange(a.a[1])[0] or 0) < 1 and not positive(a.a[1], le, eqs):
                ds |= patoms(a.a[1])
                for x in patoms(a.a[1]):
                    if x.op == 'div':
                        ds |= patoms(x.a[0])
        if ds:
            for g in gs:
                ls = [l for l in (g.a if g.op == 'or' else (g.a[0],) if g.op == 'guard' else ()) for l in ([l.a[0]] if l.op == 'not' else [l])]
                for l in ls:
                    if l.op == 'eq' and patoms(l.a[0]) & ds and self._val(l, known) is None:
                        return l
        for a in rel:
            if a.op == 'iite':
                c = a.a[0]
                # innermost undetermined condition
                v = self._val(c, known)
                if v is None:
                    cands.append((0 if a in goal else 1, c.id, self._leaf(c, known)))
            elif a.op == 'lim':
                x, l, h = a.a
                for c in ([le_(x, l)] if l is not None else []) + ([le_(h, x)] if h is not None else []):
                    if self._val(c, known) is None:
                        cands.append((2, c.id, c))
        if cands:
            return min(cands, key=lambda x: (x[0], x[1]))[2]
        for p in le + eqs:
            for x in patoms(p):
                if x.op == 'iite' and x not in rel and self._val(x.a[0], known) is None:
                    l = self._leaf(x.a[0], known)
                    if l.op in ('le', 'eq') and patoms(l.a[0]) & rel:
                        return l
        for g in gs:
            if g.op == 'or':
                # only arithmetic disjunctions about relevant atoms
                for t in g.a:
                    if t.op in ('le', 'eq') and patoms(t.a[0]) & rel:
                        return t
            if g.op == 'guard':
                if any(touches(l, rel) for l in tuple(g.a[1]) + tuple(g.a[2])):
                    return self._leaf(g.a[0], known)
            if g.op == 'not' and g.a[0].op == 'eq':
                for x in patoms(g.a[0].a[0]):
                    if x.op == 'iite' and self._val(x.a[0], known) is None:
                        l = self._leaf(x.a[0], known)
                        if l.op in ('le', 'eq') and patoms(l.a[0]) & rel:
                            return l
            if g.op == 'not' and g.a[0].op == 'eq' and patoms(g.a[0].a[0]) & rel:
                p = g.a[0].a[0]
                l = le0(addk(p, 1))
                if self._val(l, known) is None and self._val(le0(sub(ONE, p)), known) is None:
                    return l
        # an unknown divisor fits at least once or not at all (tried once)
        ds = [(a, le0(A(a))) for a in sorted(rel, key=lambda x: x.id) if a.op == 'div' and (prange(a.a[1])[0] or 0) < 2 and cval(a.a[1]) is None]
        if not any(l in known or bnot(l) in known for a, l in ds):
            for a, l in ds:
                if patoms(a.a[0]) & goal and l not in (TRUE, FALSE):
                    return l
        return None

    def _leaf(self, c, known):
        while c.op in ('and', 'or', 'not', 'bite'):
            for x in c.a:
                if self._val(x, known) is None:
                    c = x
                    break
            else:
                break
        return c
