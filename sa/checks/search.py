"""The search for the exponent of a frame: what it adds up per candidate is what the candidate would cost, and the
candidate written into the header costs no more than any other."""
from ..kit import *
from .. import interp as ip
from . import frames, hist
from .frames import FC, H, W, same, strip16
from .blocks import decide

LOW, HIGH = 1, 15


def callee(I, inst, nm):
    """the instance a contract stub calls under the name nm"""
    for b in I.p.insts[inst]['body']['blocks']:
        k = b['t']['k']
        if isinstance(k, dict) and 'Call' in k:
            f = k['Call']['func'].get('Constant')
            t = f and I.p.types[f['const_']['ty']]
            if t and t['k'] == 'fndef' and (t['res'].get('name') or '').split('::')[-1] == nm:
                return t['res']['inst']
    raise Missing('contract function ' + nm)


def params(I, inst):
    b = I.p.insts[inst]['body']
    return [b['locals'][i] for i in range(b['argc'] + 1)]


class Contract:
    """min_by and min_by_key as their contract: one of the items, not greater than any of them"""

    def __init__(self, c):
        self.c, self.I = c, c.I

    def obj(self, st, ty, v):
        o = ('C', self.I.fresh('item'))
        self.I.objty[o] = ty
        st.mem[o] = v
        return o

    def call(self, st, inst, args):
        return self.I.call_inst(st, inst, args, self.c.fr.uid, self.c.b)

    def ref(self, o):
        return ip.mkref(o)

    def option(self, st, v):
        """[(state, payload or None)]"""
        I = self.I
        v = decide(I, st, I.expand(v) if v.op == 'sym' else v)
        if v.op in ('ite',):
            r = []
            for lit, x in ((v.a[0], v.a[1]), (bnot(v.a[0]), v.a[2])):
                s = st.assume(lit)
                if not I.P.infeasible_state(s.facts):
                    r.extend(self.option(s, x))
            return r
        if v.op != 'agg':
            raise Gap('an iterator returned ' + v.op)
        return [(st, v.a[2][0] if variant(I, v) == 'Some' else None)]

    def not_greater(self, st, v):
        I = self.I
        v = decide(I, st, v)
        if v.op == 'ite':
            r = []
            for lit, x in ((v.a[0], v.a[1]), (bnot(v.a[0]), v.a[2])):
                s = st.assume(lit)
                if not I.P.infeasible_state(s.facts):
                    r.extend(self.not_greater(s, x))
            return r
        if v.op == 'agg':
            return [] if variant(I, v) == 'Greater' else [st]
        d = I.discriminant(v)
        s = st.assume(le(d, ZERO))
        return [] if I.P.infeasible_state(s.facts) else [s]

    def joined(self, st, ss):
        """one state with the linear facts that hold whatever the outcome of a comparison"""
        I = self.I
        if len(ss) < 2 or any(s.mem.get(o) is not v for s in ss for o, v in ss[0].mem.items() if o in st.mem):
            return ss
        cands = []
        for s in ss:
            for l in ip.chain(s.facts, ip.lca(s.facts, st.facts)):
                if l.op == 'le':
                    cands += [l, le(addk(l.a[0], -1), ZERO)]
                elif l.op == 'eq':
                    cands += [le(l.a[0], ZERO), le(scale(l.a[0], -1), ZERO)]
        r = st.copy()
        n = 0
        for l in dict.fromkeys(cands):
            if l not in (TRUE, FALSE) and all(I.prove(s, l) for s in ss):
                r = r.assume(l)
                n += 1
        return [r] if n else ss

    def run(self, key=None, cmp='compared', least=True):
        """least: one state per item that can be the least; otherwise one state with any of the items"""
        c, I = self.c, self.I
        step = callee(I, c.inst, 'step')
        st = c.st.copy()
        it, fn = self.obj(st, c.atys[0], c.args[0]), self.obj(st, c.atys[1], c.args[1])
        done, work = [], [(st, [])]
        while work:
            st, items = work.pop()
            if len(items) > 40 or len(work) > 40:
                raise Gap('search over an unbounded sequence')
            for s, v in self.call(st, step, [self.ref(it)]):
                for s2, x in self.option(s, v):
                    if x is None:
                        done.append((s2, items))
                    else:
                        s2 = s2.copy()
                        o = self.obj(s2, None, x)
                        I.objty[o] = I.p.types[params(I, step)[0]]['targs'][0]
                        work.append((s2, items + [o]))
        res = []
        for st, items in done:
            if not items:
                res.append((st, none(I, c.dty)))
                continue
            if key:
                kf = callee(I, c.inst, key)
                sts = [(st, [])]
                for o in items:
                    n = []
                    for s, ks in sts:
                        for s2, k in self.call(s, kf, [self.ref(fn), self.ref(o)]):
                            s2 = s2.copy()
                            n.append((s2, ks + [self.obj(s2, params(I, kf)[0], k)]))
                    sts = n
                    if len(sts) > 40:
                        raise Gap('search over too many cases')
            else:
                sts = [(st, items)]
            cf = callee(I, c.inst, cmp)
            if not least:
                for s0, ks in sts:
                    for j in range(1, len(ks)):
                        for x, y in ((ks[0], ks[j]), (ks[j - 1], ks[j])):
                            self.call(s0, cf, ([] if key else [self.ref(fn)]) + [self.ref(x), self.ref(y)])
                    v = s0.mem[items[0]]
                    for o in items[1:]:
                        v = ip.vite(mk('bsym', I.fresh('the least one')), s0.mem[o], v)
                    res.append((s0, some(I, c.dty, v)))
                continue
            for s0, ks in sts:
                for j, k in enumerate(ks):
                    ss = [s0]
                    for i, k2 in enumerate(ks):
                        if i != j:
                            a = ([] if key else [self.ref(fn)]) + [self.ref(k), self.ref(k2)]
                            ss = [s4 for s in ss for s4 in self.joined(s, [s3 for s2, v in self.call(s, cf, a) for s3 in self.not_greater(s2, v)])]
                            if len(ss) > 8:
                                raise Gap('comparison with many outcomes')
                    for s in ss:
                        res.append((s, some(I, c.dty, s.mem[items[j]])))
        return res


def contracts(I, least=True):
    for nm, kw in (('min_by', {}), ('min_by_key', {'key': 'keyed', 'cmp': 'ordered'})):
        f = lambda c, kw=kw: Contract(c).run(least=least() if callable(least) else least, **kw)
        for d in ('std::iter::Iterator::' + nm, 'probe::stub_' + nm):
            I.opaque[d] = f


class Search(frames.FrameRun):
    def __init__(self, ck, state, least, T):
        self.costs, self.checked, self.bad = None, 0, False
        super().__init__(ck, 'encode', state, None, least, T, whole=True)

    def prepare(self):
        self.I.on_loop = self.on_loop
        contracts(self.I, lambda: self.costs is not None)

    def w_header(self, c):
        v = self.I.expand(c.args[1]) if c.args[1].op == 'sym' else c.args[1]
        names = [n for n, _ in self.kit.p.types[self.kit.ty('FrameHeader')]['v'][0]['f']]
        self.chosen(c.st, v.a[2][names.index('exponent')])
        return []

    def w_coded(self, c):
        self.chosen(c.st, c.args[1])
        return []

    def least(self, st, j, k, seen=()):
        I = self.I
        if j == k:
            return True
        a, b = self.costs.get(j), self.costs.get(k)
        if a is None:
            return False
        if b is not None:
            return I.prove(st, le(a, b))
        # a candidate left out: fine when another one never costs more
        return any(dominates(m, k) and self.least(st, j, m) for m in range(LOW, HIGH + 1) if m in self.costs)

    def chosen(self, st, e):
        I = self.I
        if not I.record:
            return
        if self.bad:
            self.checked += 1
            return
        if self.costs is None:
            raise Gap('no table of costs was recognised')
        e = decide(I, st, I.simp(st, e))
        self.checked += 1
        for s, j in self.steps(st, e):
            self.need(s, LOW <= j <= HIGH, 'the exponent is one of 1 to 15', str(j))
            for k in range(LOW, HIGH + 1):
                if k != j:
                    self.need(s, self.least(s, j, k), 'no exponent gives a shorter frame than the one in the header', 'exponent %d is chosen although %d may be shorter' % (j, k))

    def steps(self, st, e):
        """[(state, constant)]: a choice made in steps (the candidate of the last step, or what was chosen before it)"""
        I = self.I
        if e.op == 'poly' and single_atom(e) is not None and single_atom(e).op == 'wrap':
            e = A(single_atom(e)).a[0][0][0][0].a[1]
        levels = []
        while cval(e) is None:
            its = [m[0] for m, k in e.a[0] if len(m) == 1 and m[0].op == 'iite'] if e.op == 'poly' else []
            if not its or len(levels) > 20:
                raise Gap('exponent ' + show(e)[:100])
            last = max(its, key=lambda t: t.id)
            k = dict(e.a[0])[(last,)]
            no = sub(e, scale(A(last), k))
            yes = add(no, scale(last.a[1], k))
            c = last.a[0]
            if cval(yes) is None:
                c, yes, no = bnot(c), no, yes
            if cval(yes) is None:
                raise Gap('exponent ' + show(e)[:100])
            levels.append((c, cval(yes)))
            e = no
        seq = [(None, cval(e))] + levels[::-1]
        # step i keeps what was chosen before (candidate m) or takes its own, by comparing the costs of the two
        cost = {single_atom(t) for t in self.costs.values()}
        won = True
        for i in range(1, len(seq)):
            c, j = seq[i]
            for p in range(i):
                m = seq[p][1]
                known = {seq[q][0]: q == p for q in range(max(p, 1), i)}

                def under(x):
                    if x in known:
                        return TRUE if known[x] else FALSE
                    if x.op in BOOLS and x.op != 'fcmp' and bnot(x) in known:
                        return FALSE if known[bnot(x)] else TRUE
                    return None
                memo = {}
                x = rebuild(c, under, memo)
                for _ in range(3):
                    y = self.selects(st, x)
                    if y is x:
                        break
                    x = y
                a, b = self.costs.get(j), self.costs.get(m)
                if a is not None and b is not None and x in (lt(a, b), le(a, b)):
                    continue
                l = bnot(x) if x.op == 'not' else x
                if l.op != 'le' or not all(len(mm) == 1 and mm[0] in cost for mm, k in l.a[0].a[0] if mm != ()):
                    raise Gap('choice between %d and %d by %s' % (m, j, show(x)[:200]))
                won = False
        out = []
        for i, (c, j) in enumerate(seq):
            s = st
            if won:
                for _, k in seq:
                    if k != j and j in self.costs and k in self.costs:
                        s = s.assume(le(self.costs[j], self.costs[k]))
            out.append((s, j))
        return out

    def selects(self, st, x):
        I = self.I

        def f(t):
            if t.op == 'sel' and cval(t.a[2]) is not None:
                v = I.arr_select(st, t.a[1], t.a[2])
                return single_atom(v) if v.op == 'poly' and single_atom(v) is not None else None
            return None
        return rebuild(x, f, {})

    # ------------------------------------------------------------ the loop over the samples
    def on_loop(self, fr, L, s0, h, o, info):
        I = self.I
        if not I.record:
            return
        cells = []
        for key, f in info['phi'].items():
            if f.op != 'poly' or key in info['affine']:
                continue
            vs = [I.leaf_get(b.mem[key[0]], key[1]) for b in o.back]
            ds = [sub(v, f) if v is not None and v.op == 'poly' else None for v in vs]
            if ds and all(d is not None for d in ds) and any(contains(d, lambda t: t.op in ('div', 'bits')) and contains(d, lambda t: t.op == 'f2i') for d in ds):
                cells.append((key, f, ds))
        if len(cells) < 8:
            return
        if self.costs is not None:
            raise Gap('more than one table of costs')
        where = self.root
        if not I.prove(s0, eq(s0.mem[W], self.first)):
            raise Gap('search at sample ' + show(s0.mem[W])[:80])
        # the history the predictions are made from
        hs = []
        for key, f in info['phi'].items():
            g = hist.norm_h(f)
            if g.op == 'hist' and key[0] != H:
                vs = [I.leaf_get(b.mem[key[0]], key[1]) for b in o.back]
                if vs and all(v is not None and v.op == 'hpush' and hist.norm_h(v.a[0]) is g for v in vs):
                    hs.append((key, g, [v.a[1] for v in vs]))
        reads = any(contains(d, lambda t: t.op == 'isym' and isinstance(t.a[0], tuple) and t.a[0] and t.a[0][0] == 'hprev') for _, _, ds in cells for d in ds if d is not None)
        n = info['n']
        if not hs:
            hv = hist.norm_h(s0.mem[H])
            if not reads and not any(contains(d, lambda t: t is single_atom(hist.prev(I, s0, hv, 1))) for _, _, ds in cells for d in ds):
                raise Gap('the search keeps its history in another way')
            self.bad = True
            self.need(s0, False, 'the search follows the history sample by sample', 'the history the residuals are computed from does not change')
            return
        got = {}
        bad = None
        for key, g, pushed in hs:
            init = hist.norm_h(info['init'][key])
            want = hist.norm_h(s0.mem[H])
            if not (init is want or frames.canon_f(init) is frames.canon_f(want)):
                bad = 'it starts from %s, not from the history before the frame' % show(init)[:200]
                continue
            table, why = self.table(o, g, pushed, cells, n)
            if table is not None:
                got = table
                bad = None
                break
            bad = why
        self.need(s0, bad is None, 'the search adds up the cost of every sample of the frame, for every candidate alike', str(bad))
        if bad is not None:
            self.bad = True
            return
        ends = [s for sl in o.exits.values() for s in sl] + list(o.ret)
        costs = {}
        for s in ends:
            if I.P.infeasible_state(s.facts):
                continue
            self.need(s, I.prove(s, eq(add(n, self.first), self.size)), 'the search looks at every sample of the frame that is stored as a residual', '%s of %s' % (show(add(n, self.first))[:100], show(self.size)[:80]))
            for k, key in got.items():
                v = I.leaf_get(s.mem[key[0]], key[1])
                if costs.setdefault(k, v) is not v:
                    raise Gap('costs differ between the ways out of the search')
        for k, key in got.items():
            if cval(info['init'][key]) is None:
                raise Gap('a cost starts at ' + show(info['init'][key])[:80])
        k0 = {cval(info['init'][key]) for key in got.values()}
        self.need(s0, len(k0) == 1, 'every candidate starts from the same cost', str(sorted(k0)))
        self.costs = costs

    def table(self, o, g, pushed, cells, n):
        """{exponent: leaf} for the cells that add up the cost of an exponent"""
        I = self.I
        table = {}
        for bi, b in enumerate(o.back):
            s = b.copy()
            s.mem[H] = g
            s.mem[W] = add(n, self.first)
            x = strip16(I, s, pushed[bi])
            if not self.sample_at(s, x):
                return None, 'the history is extended by %s, not by the sample' % show(x)[:300]
            pred = self.prediction(s)
            # the residual
            cands = []
            for _, _, ds in cells[:1]:
                for t in subterms(ds[bi]):
                    if t.op in ('wrap', 'lim', 'f2i') and t not in cands:
                        cands.append(t)
            w = None
            for t in cands:
                v = strip16(I, s, add(pred, A(t)))
                if frames.floats.truncated(v) is None:
                    v = strip16(I, s, frames.canon_f(add(pred, A(t))))
                if self.sample_at(s, v):
                    w = A(t)
                    break
            if w is None:
                return None, 'what it adds up depends on %s, not on the residual that is stored' % '; '.join(show(A(t))[:150] for t in cands[:3])
            base = {}
            for key, f, ds in cells:
                ks = set()
                for sg, lit in ((1, le(ZERO, w)), (-1, lt(w, ZERO))):
                    s2 = s.assume(lit)
                    d = decide(I, s2, I.simp(s2, ds[bi]))
                    hit = None
                    for k in range(LOW, HIGH + 1):
                        r = I.simp(s2, sub(sub(d, div(scale(w, sg), K(1 << k))), K(k)))
                        if not contains(r, lambda t: t is single_atom(w)):
                            hit = (k, r)
                            break
                    if hit is None:
                        # 2^15 times: the quotient is 0 or 1, possibly decided
                        return None, 'it adds %s to a candidate' % show(d)[:300]
                    k, r = hit
                    if base.setdefault(sg, r) is not r and not I.prove(s2, eq(base[sg], r)):
                        return None, 'candidate %d is charged %s, others %s' % (k, show(r)[:100], show(base[sg])[:100])
                    ks.add(k)
                if len(ks) != 1:
                    return None, 'a candidate stands for different exponents'
                k = ks.pop()
                if table.setdefault(k, key) != key:
                    return None, 'two candidates stand for exponent %d' % k
        return table, None


def dominates(m, k):
    """(e >> m) + m <= (e >> k) + k for every magnitude e up to 32768"""
    if m >= k:
        return False
    # the difference (e >> m) - (e >> k) grows with e only through its steps: it is largest at the last e of a step
    return max((e >> m) - (e >> k) for e in list(range((1 << m) - 1, 32769, 1 << m)) + [32768]) <= k - m


class Whole(frames.FrameRun):
    """a frame with the search, whatever it chooses"""

    def prepare(self):
        contracts(self.I, False)


def exponent(ck, T, topics=('safe', 'ranked')):
    """the search for the exponent: encode_frame analysed together with it"""
    for size, least in ((0, None), (None, 1)):
        with ck.scope('choice of the exponent, %s samples' % (size if size is not None else '1 or more')):
            frames.encoded(ck, Whole(ck, 'encode', 'Encoding', size, least, T, whole=True), topics)


def minimal(ck, T):
    for state, least in (('Encoding', 1), ('Init', 4)):
        with ck.scope('frame, %s' % state):
            S = Search(ck, state, least, T)
            for g in S.I.gaps:
                ck.unknown('the search is understood', S.root, str(g)[:300])
            if not S.checked and not S.I.gaps:
                ck.unknown('the search is understood', S.root, 'no header with an exponent in it')
