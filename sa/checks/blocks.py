"""AdhocCodec: how samples are cut into blocks, split into channels and handed to the frame codec (which is opaque here and is
judged on its own), and how decoded samples are put together again.

Table of headers and frame codec are replaced by contracts:
  table         len, truncate_to_cursor, get, next, push, set_cursor, reset act on (length, cursor) and on an unknown function from
                index to header (C08 shows that the table is such a function)
  encode_frame  appends one header, writes some bits, changes the state of its channel only
  decode_frame  takes one header, reads some bits, buffers `size` samples, changes the state of its channel only"""
from fractions import Fraction

from ..kit import *
from ..models import loc, M
from . import adhocparts, hist
from .adhocparts import Run
from .adhocio import Adhoc
from .wavparts import SYM_K, settle, is_err

FH = 'adhoc_audio::codec::FrameHeaders'
FC = 'adhoc_audio::codec::FrameCodec'
KNOWN_FH = {'new', 'len', 'truncate_to_cursor', 'get', 'push', 'set_cursor', 'reset', 'next', 'is_consistent', 'calculate_weight_upperbound', 'get_elem_size_in_bits'}
SAMPLES, FRAMES_ = ('G', 'stored samples'), ('G', 'frames')
POPS, CALLS = ('G', 'popped samples'), ('G', 'decode calls')
MODULUS = 507961
DITHER = Fraction(1001, 10 ** 6)          # 0.001 as f32, rounded up
CHUNK_BITS = 1 << 48


# ------------------------------------------------------------------------------------------------ real polynomials
def fpoly(t, memo=None):
    """a float term as polynomial over its leaves, in real arithmetic: {sorted tuple of leaves: Fraction}; None when it is none"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = None
    r = None
    v = fval(t)
    if v is not None:
        r = {(): Fraction(v)} if v == v and abs(v) != float('inf') else None
        if r == {(): 0}:
            r = {}
    elif t.op == 'fop' and t.a[0] in ('add', 'sub', 'mul', 'neg', 'fma', 'div'):
        xs = [fpoly(x, memo) for x in t.a[1:]]
        if all(x is not None for x in xs):
            o = t.a[0]
            if o == 'add':
                r = padd(xs[0], xs[1])
            elif o == 'sub':
                r = padd(xs[0], xs[1], -1)
            elif o == 'neg':
                r = padd({}, xs[0], -1)
            elif o == 'mul':
                r = pmul(xs[0], xs[1])
            elif o == 'fma':
                r = padd(pmul(xs[0], xs[1]), xs[2])
            elif o == 'div' and set(xs[1]) == {()}:
                r = {m: c / xs[1][()] for m, c in xs[0].items()}
            elif o == 'div':
                r = {(t,): Fraction(1)}
        else:
            r = {(t,): Fraction(1)}
    else:
        r = {(t,): Fraction(1)}
    memo[t] = r
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def decide(I, s, t):
    """take the branch of every case distinction that is decided in state s"""
    memo = {}

    def g(x):
        if x.op in ('fite', 'ite'):
            v = I.truth(s, x.a[0])
            if v is not None:
                return rebuild(x.a[1] if v else x.a[2], g, memo)
        if x.op == 'iite':
            v = I.truth(s, x.a[0])
            if v is not None:
                return rebuild(x.a[1], g, memo) if v else ZERO
        return None
    return rebuild(t, g, memo)


# ------------------------------------------------------------------------------------------------ contracts
class Contracts:
    def __init__(self, ck, R, mode):
        self.ck, self.R, self.I, self.A, self.T, self.mode = ck, R, R.I, R.A, R.A.T, mode
        I = self.I
        self.calls = self.pops = 0
        self.numbers = []
        self.on_pop = self.on_decode = self.on_encode = lambda *a: None
        for g in (SAMPLES, FRAMES_, POPS, CALLS):
            I.ghosts[g] = ZERO
        defs = {i['def'] for i in ck.kit.p.insts}
        self.header_ty = ck.kit.ty('FrameHeader')
        op = I.opaque
        op[FH + '::len'] = lambda c: c.ret(self.length(c.st, self.at(c, 0)))
        op[FH + '::truncate_to_cursor'] = self.truncate
        op[FH + '::reset'] = lambda c: self.set_cur(c, ZERO)
        op[FH + '::set_cursor'] = lambda c: self.set_cur(c, c.args[1])
        op[FH + '::get'] = self.get
        op[FC + '::encode_frame'] = self.encode_frame
        op[FC + '::decode_frame'] = self.decode_frame
        # the queue of decoded samples of a channel, when reached through the list of channels
        self.queue = ck.kit.field(self.A.fty, lambda t: t['k'] == 'adt' and t['name'].endswith('VecDeque'))
        fty = ck.kit.p.types[ck.kit.fields(self.A.fty)[self.queue][1]]
        self.stream_sym = mk('arrsym', fty['targs'][0], name('decoded samples'))
        for m, h in (('pop_front', self.q_take),) if mode == 'seek' else (('is_empty', self.q_is_empty), ('len', self.q_len), ('pop_front', self.q_pop)):
            self.wrap_queue('std::collections::VecDeque::<T, A>::' + m, h)

    def wrap_queue(self, d, h):
        def f(c):
            e = self.queue_of(c)
            return M[d](c) if e is None else h(c, e)
        self.I.opaque[d] = f

    def queue_of(self, c):
        o, pa = self.at(c, 0)
        if o == self.R.obj and pa[:2] == (('f', self.A.states), ('buf',)) and len(pa) == 4 and pa[3] == ('f', self.queue):
            return pa[2][1]
        return None

    # ---- decoded samples: the t-th sample popped in a call is sample t of the stream when channels take turns
    def left(self, st, e):
        """number of samples buffered for channel e; the frames of a block are of one size"""
        I, ch = self.I, self.R.P['ch']
        t, f = (decide(I, st, I.simp(st, st.mem.get(g, ZERO))) for g in (POPS, CALLS))
        if not whole_multiple(I, st, f, ch):
            return isym(I.fresh('buffered'), 0, 1 << 60)
        f = self.canon(st, f)
        if whole_multiple(I, st, t, ch):
            return isym(name('buffered', f, self.canon(st, t)), 0, 1 << 60)
        if self.in_turn(st, t, e):
            return isym(name('buffered', f, self.canon(st, sub(t, e))), 0, 1 << 60)
        return isym(I.fresh('buffered'), 0, 1 << 60)

    def canon(self, st, x):
        """the term this number was called before"""
        if x in self.numbers:
            return x
        for y in reversed(self.numbers[-8:]):
            if self.I.prove(st, eq(x, y)):
                return y
        self.numbers.append(x)
        return x

    def in_turn(self, st, t, e):
        I, ch = self.I, self.R.P['ch']
        return I.prove(st, le(ZERO, e)) and I.prove(st, lt(e, ch)) and whole_multiple(I, st, sub(t, e), ch)

    def q_is_empty(self, c, e):
        return c.ret(eq(self.left(c.st, e), ZERO))

    def q_len(self, c, e):
        return c.ret(self.left(c.st, e))

    def q_pop(self, c, e):
        I = self.I
        t = c.st.mem.get(POPS, ZERO)
        if I.record:
            self.pops += 1
            self.on_pop(c.st, e, t)
        n = self.left(c.st, e)
        out = []
        v = True if I.prove(c.st, lt(ZERO, n)) else False if I.prove(c.st, le(n, ZERO)) else None
        if v is not False:
            st = c.st.copy() if v else c.st.assume(lt(ZERO, n)).copy()
            x = I.arr_select(st, self.stream_sym, t)
            st.mem[POPS] = addk(t, 1)
            out.append((st, some(I, c.dty, x)))
        if v is not True:
            out.append((c.st if v is False else c.st.assume(eq(n, ZERO)), none(I, c.dty)))
        return out

    def q_take(self, c, e):
        """a sample is dropped: only which channel's turn it is matters"""
        I = self.I
        st = c.st.copy()
        t = st.mem.get(POPS, ZERO)
        if I.record:
            self.pops += 1
            self.on_pop(st, e, t)
        st.mem[POPS] = addk(t, 1)
        return [(st, I.mk_sym(c.dty, I.fresh('dropped')))]

    def decode_frame(self, c):
        I, A, R = self.I, self.A, self.R
        st = c.st.copy()
        e = self.channel(c, 0)
        if not self.field_of(c, 1, A.stream) or not self.field_of(c, 2, A.heads):
            raise Gap('frame read from another stream')
        F = st.mem.get(CALLS, ZERO)
        if I.record:
            self.calls += 1
            self.on_decode(st, e, F)
        q = (('f', A.stream),) + tuple(A.S.cur[:-1])
        v = I.read(st, R.obj, q + tuple(A.S.cur[-1:]))
        I.write(st, R.obj, q + tuple(A.S.cur[-1:]), isym(I.fresh('bit position'), 0, CHUNK_BITS))
        # everything of the channel but the queue, whose contents are the counters above
        so, sp = self.at(c, 0)
        for i, (fn, ft) in enumerate(self.ck.kit.fields(A.fty)):
            if i != self.queue:
                I.write(st, so, sp + (('f', i),), I.mk_sym(ft, I.fresh('channel after frame')))
        st.mem[CALLS] = addk(F, 1)
        if self.mode == 'seek':
            at = self.at(c, 2)
            k, L = self.cursor(st, at), self.length(st, at)
            if I.record and not I.prove(st, lt(k, L)):
                raise Gap('frame behind the last header')
            self.wr(st, at, (self.T.f_cur,), addk(k, 1))
            return [(st, I.mk_sym(c.dty, I.fresh('size')))]
        return [(st, agg(c.dty, 0, []))]

    # ---- table
    def at(self, c, k):
        return loc(self.I, c.st, c.args[k])

    def rd(self, st, at, path):
        return self.I.read(st, at[0], at[1] + tuple(('f', i) for i in path))

    def wr(self, st, at, path, v):
        self.I.write(st, at[0], at[1] + tuple(('f', i) for i in path), v)

    def length(self, st, at):
        return self.rd(st, at, (self.T.f_nib, self.T.n_len))

    def cursor(self, st, at):
        return self.rd(st, at, (self.T.f_cur,))

    def set_len(self, st, at, n):
        self.wr(st, at, (self.T.f_nib, self.T.n_len), n)

    def set_cur(self, c, v):
        st = c.st.copy()
        self.wr(st, self.at(c, 0), (self.T.f_cur,), v)
        return [(st, agg(c.dty, 0, []))]

    def truncate(self, c):
        st = c.st.copy()
        at = self.at(c, 0)
        n, k = self.length(st, at), self.cursor(st, at)
        if self.I.prove(st, le(k, n)):
            self.set_len(st, at, k)
        elif not self.I.prove(st, le(n, k)):
            self.set_len(st, at, lim(n, None, k))
        return [(st, agg(c.dty, 0, []))]

    def header(self, i, st=None):
        """header number i of the unknown stream; where st shows that i is a number already in use it goes by the earlier name"""
        I, p = self.I, self.ck.kit.p
        if st is not None and i not in self.numbers:
            i = next((j for j in self.numbers[:8] if I.prove(st, eq(i, j))), i)
        if i not in self.numbers:
            self.numbers.append(i)
        fs = []
        for fn, ft in p.types[self.header_ty]['v'][0]['f']:
            s = p.types[ft]['s']
            if s == 'bool':
                fs.append(mk('bsym', name('header', fn, i)))
            elif s == 'u8':
                fs.append(isym(name('header', fn, i), 0, 15))
            elif s == 'u16':
                fs.append(isym(name('header', fn, i), 0, 65535))
            elif s == 'u128':
                fs.append(isym(name('header', fn, i), 0, (1 << 64) - 1))
            else:
                fs.append(I.mk_sym(ft, name('header', fn, i)))
        return agg(self.header_ty, 0, fs)

    def get(self, c):
        n = self.length(c.st, self.at(c, 0))
        i = c.args[1]
        out = []
        t = self.I.truth(c.st, lt(i, n))
        if t is not False:
            out.append((c.st if t else c.st.assume(lt(i, n)), some(self.I, c.dty, self.header(i, c.st))))
        if t is not True:
            out.append((c.st if t is False else c.st.assume(le(n, i)), none(self.I, c.dty)))
        return out

    # ---- places
    def channel(self, c, k):
        """index of the channel whose frame codec argument k points to"""
        o, pa = self.at(c, k)
        A = self.A
        if o != self.R.obj or pa[:2] != (('f', A.states), ('buf',)) or len(pa) != 3 or pa[2][0] != 'i':
            raise Gap('frame codec outside the list of channels')
        return pa[2][1]

    def field_of(self, c, k, f):
        return self.at(c, k) == (self.R.obj, (('f', f),))

    def code(self):
        """the contracts cover the functions of the table the analysed code uses"""
        for d in self.ck.funcs:
            if d.startswith(FH + '::') and d.split('::')[-1] not in KNOWN_FH and '{closure' not in d:
                self.ck.unknown('function of the header table without a contract', self.R.root, d)

    # ---- frame codec
    def encode_frame(self, c):
        I, A, R = self.I, self.A, self.R
        st = c.st.copy()
        e = self.channel(c, 0)
        if not self.field_of(c, 1, A.stream) or not self.field_of(c, 2, A.heads):
            raise Gap('frame written to another stream')
        o, pa, off, n = as_slice(I, st, c.args[3], c.atys[3])
        S, F = st.mem.get(SAMPLES, ZERO), st.mem.get(FRAMES_, ZERO)
        at = self.at(c, 2)
        if I.record:
            self.calls += 1
            self.on_encode(st, e, (o, pa, off, n), S, F, at)
        # effects
        q = (('f', A.stream),) + tuple(A.S.cur[:-1])
        I.write(st, R.obj, q, I.mk_sym(ck_bits(A), I.fresh('bits after frame')))
        so, sp = self.at(c, 0)
        I.write(st, so, sp, I.mk_sym(A.fty, I.fresh('channel after frame')))
        # a header at the cursor: appended when the cursor is at the end, which `fresh` demands
        k, L = self.cursor(st, at), self.length(st, at)
        if not I.prove(st, lt(k, L)):
            self.set_len(st, at, addk(L, 1))
        self.wr(st, at, (self.T.f_cur,), addk(k, 1))
        st.mem[SAMPLES] = add(S, n)
        st.mem[FRAMES_] = addk(F, 1)
        return [(st, agg(c.dty, 0, []))]


def ck_bits(A):
    return A.kit.ty('BitStream')


def whole_multiple(I, s, x, ch):
    """is x a multiple of ch?"""
    at = single_atom(ch)
    x = I.simp(s, x)
    if all(at in m for m, c in x.a[0]):
        return True
    return I.prove(s, eq(x, mul(ch, div(x, ch))))


def dither_range(R, st):
    """the state of the noise generator: below its modulus (new and load start it there, every step keeps it there)"""
    I, A = R.I, R.A
    v = R.I.objval(st, R.obj)
    for i, (fn, ft) in enumerate(R.kit.fields(A.ty)):
        t = R.kit.p.types[ft]
        if t['k'] == 'adt' and t['name'].endswith('PseudoRandom'):
            return I.project(st, I.project(st, v, ('f', i)), ('f', 0))
    return None


def encode(ck, topics):
    """everything about AdhocCodec::encode above the level of frames"""
    kit = ck.kit
    ck.assume('the codec has stream info with 1 to 65535 channels and one state per channel; slices have at most 2^48 elements')
    box = {}

    def setup(R, st):
        st = st.assume(le(R.args[1].a[3], K(LEN_MAX)))
        z = dither_range(R, st)
        if z is not None:
            st = st.assume(le(z, K(MODULUS - 1)))
        box['z'] = z
        C = box['C'] = Contracts(ck, R, 'encode')
        C.on_encode = lambda *a: on_encode(ck, R, C, topics, *a)
        return st
    R = Run(ck, 'root_a_encode', blocks=True, split=False, setup=setup)
    I, C, ch = R.I, box['C'], R.P['ch']
    C.code()
    ck.need(C.calls > 0, 'encode hands frames to the frame codec', R.root)
    if 'safe' in topics:
        ck.safe(I, 'encode cannot panic')
    if 'ranked' in topics:
        ck.ranked(I, 'every loop of encode makes progress')
    n_in = R.args[1].a[3]
    want = mul(ch, div(n_in, ch))
    for s, v in R.out:
        for s2, x in cases(I, s, v):
            if 'count' in topics:
                ok = x.op == 'agg' and variant(I, x) == 'Some'
                ck.need(ok, 'encode always reports a count', R.root, show(x)[:100])
                if ok:
                    n = x.a[2][0]
                    ck.need(I.prove(s2, eq(n, want)), 'the count is the largest multiple of the channel count within the input', R.root, show(n)[:200])
                    ck.need(I.prove(s2, eq(n, s2.mem.get(SAMPLES, ZERO))), 'the count is the number of samples handed to the frame codec', R.root, '%s stored' % show(s2.mem.get(SAMPLES, ZERO))[:200])
            post = R.post(s2)
            if 'order' in topics:
                ck.need(whole_multiple(I, s2, s2.mem.get(FRAMES_, ZERO), ch), 'a call stores whole blocks: one frame for every channel', R.root, show(s2.mem.get(FRAMES_, ZERO))[:200])
            if 'gain' in topics:
                for i in (R.A.level,) + R.A.gains():
                    ck.need(same(I, s2, R.A.get(I, s2, post, i), R.A.get(I, s2, R.v0, i)), 'encode leaves level and gains as they are', R.root, kit.fields(R.A.ty)[i][0])
            if 'order' in topics or 'safe' in topics:
                sv = R.A.get(I, s2, post, R.A.states)
                ck.need(same(I, s2, sv.a[0], ch), 'there is one state per channel after encode', R.root, show(sv.a[0])[:100])
                z = dither_range(R, s2)
                if z is not None:
                    ck.need(I.prove(s2, le(z, K(MODULUS - 1))), 'the noise generator stays in its range', R.root, show(z)[:200])
    return R


def on_encode(ck, R, C, topics, st, e, sl, S, F, at):
    I, A, ch = R.I, R.A, R.P['ch']
    o, pa, off, n = sl
    where = R.root
    if 'narrow' in topics:
        ck.need(I.prove(st, le(n, K(65535))), 'no block is larger than the 16 bits a frame has for its size', where, 'frame of %s samples' % show(n)[:200])
    if 'fresh' in topics:
        L, k = C.length(st, at), C.cursor(st, at)
        ck.need(I.prove(st, eq(L, k)), 'no header of an earlier recording lies behind the frame that is written', where, 'length %s, cursor %s' % (show(L)[:120], show(k)[:120]))
    if 'order' in topics:
        ck.need(I.prove(st, le(ZERO, e)) and I.prove(st, lt(e, ch)) and whole_multiple(I, st, sub(F, e), ch), 'frames are written in channel order', where, 'channel %s is frame %s of the call' % (show(e)[:120], show(F)[:120]))
    if not ({'content', 'gain', 'error'} & set(topics)):
        return
    s2 = st.assume(lt(SYM_K, n))
    if I.P.infeasible_state(s2.facts):
        return
    arr = I.read(s2, o, pa)
    x = decide(I, s2, I.resolve(s2, I.arr_select(s2, arr, add(off, SYM_K))))
    src = I.objval(R.st0, R.args[1].a[0])
    P = fpoly(x)
    leaf = lambda y: y.op == 'fsel' and y.a[0] is src
    xs = {y for m in (P or {}) for y in m if contains(y, leaf)}
    if P is None or len(xs) != 1 or not leaf(next(iter(xs))):
        ck.need(False, 'a stored sample is a linear function of one input sample', where, show(x)[:400])
        return
    xl = next(iter(xs))
    if 'content' in topics:
        # samples of all channels stored before this block
        base = sub(S, mul(e, n))
        idx = add(add(base, mul(ch, SYM_K)), e)
        ck.need(I.prove(s2, eq(xl.a[1], idx)), 'sample i of channel c comes from position i*channels+c of the block, blocks follow each other', where, 'position %s, expected %s' % (show(xl.a[1])[:200], show(idx)[:200]))
    if 'gain' in topics:
        g = A.get(I, st, I.objval(R.st0, R.obj), A.gains()[1])
        lin = {m: c for m, c in P.items() if xl in m}
        ck.need(lin == {tuple(sorted((xl, g), key=lambda y: y.id)): 1}, 'encode multiplies each sample once by the encode gain', where, 'coefficient of the sample: %s' % ' + '.join('%s*%s' % (c, [show(y)[:40] for y in m]) for m, c in lin.items()))
        rest = {}
        for m, c in P.items():
            if xl not in m:
                k = tuple(y for y in m if y is not g)
                rest[k] = rest.get(k, 0) + c
        ck.need(not any(rest.values()), 'nothing is added to a sample at level 0', where, ' + '.join('%s*%s' % (float(c), [show(y)[:60] for y in m]) for m, c in rest.items() if c))
    if 'error' in topics:
        v0 = I.objval(R.st0, R.obj)
        level, up, down = (A.get(I, st, v0, k) for k in (A.level,) + A.gains())
        for l in range(11):
            gain = Fraction(1, 1 << l)
            m = {up: fconst(float(1 << l)), down: fconst(1.0 / (1 << l))}
            if single_atom(level) is not None:
                m[single_atom(level)] = K(l)
            P = fpoly(rebuild(x, lambda t: m.get(t), {})) or {}
            rest = {k: c for k, c in P.items() if k and k != (xl,)}
            ck.need(P.get((xl,)) == gain and not any(contains(y, leaf) for k in rest for y in k), 'a sample is multiplied once by 1/2^level', where, 'level %d' % l)
            lo, hi = interval(rest)
            lo, hi = (lo + P.get((), 0)) / gain, (hi + P.get((), 0)) / gain
            ck.need(max(-lo, hi) <= DITHER, 'what is added to a sample before it is quantised is at most 0.001 at the scale of the output', where, 'level %d: between %.6f and %.6f' % (l, lo, hi))


def interval(P):
    """the range of a polynomial over converted integers and case distinctions"""
    def of(y):
        if y.op == 'i2f':
            l, h = prange(y.a[0])
            if l is not None and h is not None:
                return l, h
        if y.op == 'fite':
            r = [fpoly(z) for z in y.a[1:]]
            if None not in r:
                r = [interval(z) for z in r]
                return min(a for a, _ in r), max(b for _, b in r)
        raise Gap('range of %s, which is added to a sample' % show(y)[:200])
    lo = hi = Fraction(0)
    for m, c in P.items():
        a = b = Fraction(c)
        for y in m:
            l, h = of(y)
            e = (a * l, a * h, b * l, b * h)
            a, b = min(e), max(e)
        lo, hi = lo + a, hi + b
    return lo, hi


# ------------------------------------------------------------------------------------------------------------ decode
def decode(ck, topics):
    """everything about AdhocCodec::decode above the level of frames"""
    kit = ck.kit
    ck.assume('the codec has stream info with 1 to 65535 channels and one state per channel; all channels have decoded and handed out equally much (as after new, load, init, encode, decode and seek); the frames of a block are of one size; slices have at most 2^48 elements')
    box = {}

    def setup(R, st):
        C = box['C'] = Contracts(ck, R, 'decode')
        ch = R.P['ch']
        if 'order' in topics:
            C.on_pop = lambda st, e, t: ck.need(C.in_turn(st, t, e), 'samples are taken from the channels in turn', R.root, 'channel %s for sample %s' % (show(e)[:100], show(t)[:200]))
            C.on_decode = lambda st, e, f: ck.need(C.in_turn(st, f, e), 'frames are decoded in channel order', R.root, 'channel %s for frame %s' % (show(e)[:100], show(f)[:200]))
        return st.assume(le(R.args[1].a[3], K(LEN_MAX)))
    R = Run(ck, 'root_a_decode', blocks=True, split=False, setup=setup)
    I, C, ch = R.I, box['C'], R.P['ch']
    C.code()
    ck.need(C.calls > 0 and C.pops > 0, 'decode decodes frames and takes samples from the channels', R.root)
    if 'safe' in topics:
        ck.safe(I, 'decode cannot panic')
    if 'ranked' in topics:
        ck.ranked(I, 'every loop of decode makes progress')
    L = R.args[1].a[3]
    out0 = I.objval(R.st0, R.args[1].a[0])
    some_ = False
    for s, v in R.out:
        for s2, x in cases(I, s, v):
            if x.op != 'agg':
                ck.unknown('decode returns Some or None', R.root, show(x)[:100])
                continue
            T_ = s2.mem.get(POPS, ZERO)
            var = variant(I, x)
            if var == 'Some':
                some_ = True
                n = x.a[2][0]
                if 'prefix' in topics:
                    ck.need(I.prove(s2, le(ONE, n)), 'Some(n) has 0 < n', R.root, show(n)[:200])
                    ck.need(I.prove(s2, le(n, L)), 'Some(n) has n <= buf.len()', R.root, show(n)[:200])
                    ck.need(whole_multiple(I, s2, n, ch), 'n is a multiple of the channel count', R.root, show(n)[:200])
            else:
                n = ZERO
            if 'prefix' in topics:
                ck.need(I.prove(s2, eq(n, T_)), 'every sample taken from a channel is returned, none is lost', R.root, '%s returned, %s taken' % (show(n)[:200], show(T_)[:200]))
            out1 = s2.mem.get(R.args[1].a[0], out0)
            s3 = s2.assume(le(n, SYM_K)).assume(lt(SYM_K, L))
            if 'prefix' in topics and not I.P.infeasible_state(s3.facts):
                a, b = (decide(I, s3, I.resolve(s3, I.arr_select(s3, o, SYM_K))) for o in (out1, out0))
                ck.need(same(I, s3, a, b), 'elements of the buffer past n are left untouched', R.root, show(a)[:300])
            s3 = s2.assume(lt(SYM_K, n))
            if not I.P.infeasible_state(s3.facts) and {'content', 'gain'} & set(topics):
                y = decide(I, s3, I.resolve(s3, I.arr_select(s3, out1, SYM_K)))
                leaf = I.arr_select(s3, C.stream_sym, SYM_K)
                P = fpoly(y)
                if 'content' in topics:
                    ck.need(P is not None and all(leaf in m for m in P) and len(P) == 1, 'element k is the k-th next sample of the stream, channels in turn', R.root, show(y)[:300])
                if 'gain' in topics:
                    g = R.A.get(I, R.st0, R.v0, R.A.gains()[0])
                    ck.need(P is not None and any(z.op == 'fsel' for m in P for z in m) and {tuple(z for z in m if z.op != 'fsel'): c for m, c in P.items()} == {(g,): 1} and all(sum(z.op == 'fsel' for z in m) == 1 for m in P), 'decode multiplies each returned sample once by the decode gain', R.root, show(y)[:300])
            post = R.post(s2)
            if 'gain' in topics:
                for i in (R.A.level,) + R.A.gains():
                    ck.need(same(I, s2, R.A.get(I, s2, post, i), R.A.get(I, s2, R.v0, i)), 'decode leaves level and gains as they are', R.root, kit.fields(R.A.ty)[i][0])
            if 'order' in topics:
                ck.need(whole_multiple(I, s2, s2.mem.get(CALLS, ZERO), ch), 'a call decodes whole blocks: one frame for every channel', R.root, show(s2.mem.get(CALLS, ZERO))[:200])
                ck.need(same(I, s2, R.A.get(I, s2, post, R.A.heads), R.A.get(I, s2, R.v0, R.A.heads)), 'decode itself does not move in the list of frames', R.root)
    ck.need(some_, 'decode can return samples', R.root)
    return R


# ------------------------------------------------------------------------------------------------------------ seek
BITS, BITS_AT = ('G', 'bit position set'), ('G', 'bit position set before frame')
BS = 'adhoc_audio::collections::bitstream::BitStream::'


def seek(ck, topics):
    """AdhocCodec::seek(Start(d)) above the level of frames"""
    kit = ck.kit
    ck.assume('the codec has stream info with 1 to 65535 channels and one state per channel; the list of frames holds whole blocks, at most 2^31 frames')
    box = {}

    def setup(R, st):
        C = box['C'] = Contracts(ck, R, 'seek')
        I = R.I
        hist.install(I)
        I.ghosts[BITS], I.ghosts[BITS_AT] = isym(name('bit position before'), 0, None), K(-1)

        def moved(c, to):
            o, pa = loc(I, c.st, c.args[0])
            if o != R.obj or pa[:1] != (('f', R.A.stream),):
                raise Gap('bit stream outside the codec')
            st = c.st.copy()
            I.write(st, o, pa + tuple(R.A.S.cur[-1:]), to)
            st.mem[BITS], st.mem[BITS_AT] = to, st.mem.get(CALLS, ZERO)
            return [(st, agg(c.dty, 0, []))]

        def other(d):
            def f(c):
                raise Gap(d)
            return f
        for d in {i['def'] for i in kit.p.insts}:
            if d.startswith(BS) and d.split('::')[-1] not in ('bit_cursor', 'capacity_upperbound', 'new'):
                I.opaque[d] = other(d)
        I.opaque[BS + 'seek_start'] = lambda c: moved(c, ZERO)
        I.opaque[BS + 'set_bit_cursor'] = lambda c: moved(c, c.args[1])
        if 'place' in topics:
            C.on_pop = lambda st, e, t: ck.need(C.in_turn(st, t, e), 'samples are dropped from the channels in turn', R.root, 'channel %s is drop %s' % (show(e)[:100], show(t)[:200]))
            C.on_decode = lambda st, e, f: on_seek_decode(ck, R, C, st, e, f)
        if 'zero' in topics:
            st = st.assume(eq(R.args[1], ZERO))
        return st
    R = Run(ck, 'root_a_seek', blocks=True, split=False, setup=setup)
    I, A, C, ch = R.I, R.A, box['C'], R.P['ch']
    C.code()
    if 'safe' in topics:
        ck.safe(I, 'seek cannot panic')
    if 'ranked' in topics:
        ck.ranked(I, 'every loop of seek makes progress')
    n = 0
    zero = eq(R.args[1], ZERO)
    for s, v in [(s.assume(l), v) for s, v in R.out for l in (zero, bnot(zero))]:
        if I.P.infeasible_state(s.facts):
            continue
        post = R.post(s)
        n += 1
        if 'gain' in topics:
            for i in (A.level,) + A.gains():
                ck.need(same(I, s, A.get(I, s, post, i), A.get(I, s, R.v0, i)), 'seek leaves level and gains as they are', R.root, kit.fields(A.ty)[i][0])
        if not {'place', 'zero'} & set(topics):
            continue
        f = decide(I, s, I.simp(s, s.mem.get(CALLS, ZERO)))
        t = decide(I, s, I.simp(s, s.mem.get(POPS, ZERO)))
        heads = A.get(I, s, post, A.heads)
        k, L = (decide(I, s, I.simp(s, x)) for x in (A.get(I, s, heads, A.T.f_cur), A.get(I, s, heads, A.T.f_nib, A.T.n_len)))
        ck.need(same(I, s, L, R.P['frames']), 'seek keeps every frame', R.root, show(L)[:200])
        ck.need(whole_multiple(I, s, t, ch), 'every channel drops the same number of samples', R.root, show(t)[:300])
        ck.need(I.prove(s, eq(f, ZERO)) or I.prove(s, eq(f, ch)), 'seek decodes one frame of every channel, or none', R.root, show(f)[:200])
        ck.need(whole_multiple(I, s, k, ch) and I.prove(s, le(k, L)), 'seek lands between two blocks', R.root, show(k)[:200])
        if I.truth(s, eq(f, ZERO)) is not True:
            if 'place' in topics:
                size = C.header(sub(k, ch), s).a[2][[n for n, _ in kit.p.types[C.header_ty]['v'][0]['f']].index('size')]
                ck.need(I.prove(s, le(t, mul(ch, size))), 'no more is dropped than the frame holds', R.root, '%s of %s' % (show(t)[:300], show(size)[:100]))
            continue
        ck.need(I.prove(s, eq(t, ZERO)), 'nothing is dropped where nothing is decoded', R.root, show(t)[:200])
        at_end = I.prove(s, eq(k, L))
        at_start = I.prove(s, eq(R.args[1], ZERO)) and I.prove(s, eq(k, ZERO)) and I.prove(s, eq(s.mem.get(BITS), ZERO))
        ck.need(at_end or at_start, 'without a decoded frame the codec is at the end, or at the start for Start(0)', R.root, 'frame %s of %s' % (show(k)[:160], show(L)[:100]))
        if at_start or 'place' in topics:
            sv = A.get(I, s, post, A.states)
            s2 = s.assume(lt(SYM_K, ch))
            x = I.arr_select(s2, I.expand(sv).a[1], SYM_K)
            fresh_channel(ck, R, s2, x)
    ck.need(n > 0, 'seek returns', R.root)
    ck.need('zero' in topics or C.calls > 0, 'seek decodes the frame it lands in', R.root)
    return R


def fresh_channel(ck, R, s, x):
    I, A = R.I, R.A
    rule = 'a channel without a decoded frame starts afresh'
    for i, (fn, ft) in enumerate(R.kit.fields(A.fty)):
        v = I.resolve(s, I.project(s, x, ('f', i)))
        t = R.kit.p.types[ft]
        if i == A_queue(R):
            ck.need(v.op == 'deq' and I.prove(s, eq(v.a[1], ZERO)), rule, R.root, '%s: %s' % (fn, show(v)[:200]))
        elif t['k'] == 'adt' and t['name'].endswith('CircularStack'):
            ck.need(v.op == 'hnew', rule, R.root, '%s: %s' % (fn, show(v)[:200]))
        else:
            ck.need(variant(I, v) == 'Init' if v.op == 'agg' else False, rule, R.root, '%s: %s' % (fn, show(v)[:200]))


def A_queue(R):
    return R.kit.field(R.A.fty, lambda t: t['k'] == 'adt' and t['name'].endswith('VecDeque'))


def on_seek_decode(ck, R, C, st, e, f):
    """the state in which the first frame of a channel is decoded after a seek"""
    I, A, ch = R.I, R.A, R.P['ch']
    where = R.root
    ck.need(I.prove(st, eq(e, f)), 'frames are decoded in channel order, one per channel', where, 'channel %s for frame %s' % (show(e)[:100], show(f)[:200]))
    heads = A.get(I, st, I.objval(st, R.obj), A.heads)
    k = A.get(I, st, heads, A.T.f_cur)
    first = sub(k, e)
    ck.need(whole_multiple(I, st, first, ch), 'the frame decoded for a channel is the one of that channel', where, 'channel %s gets frame %s' % (show(e)[:100], show(k)[:200]))
    names = [n for n, _ in R.kit.p.types[C.header_ty]['v'][0]['f']]
    fld = lambda i, n: C.header(i, st).a[2][names.index(n)]
    at, pos = st.mem.get(BITS_AT), st.mem.get(BITS)
    frame = k if I.prove(st, eq(at, f)) and not I.prove(st, eq(f, ZERO)) else first if I.prove(st, eq(at, ZERO)) else None
    ck.need(frame is not None and I.prove(st, eq(pos, fld(frame, 'bit_cursor'))), 'the bits of the frame are read from where its header says they are', where, 'position %s set before frame %s' % (show(pos)[:200], show(at)[:60]))
    init = fld(k, 'is_init')
    h3 = fld(k, 'stack_history')
    for truth_ in (True, False):
        if I.truth(st, init) is (not truth_):
            continue
        s2 = st.assume(init if truth_ else bnot(init))
        if I.P.infeasible_state(s2.facts):
            continue
        x = I.read(s2, R.obj, (('f', A.states), ('buf',), ('i', e)))
        for i, (fn, ft) in enumerate(R.kit.fields(A.fty)):
            t = R.kit.p.types[ft]
            v = decide(I, s2, I.resolve(s2, I.project(s2, x, ('f', i))))
            v = I.resolve_ite(s2, v)
            if i == A_queue(R):
                ck.need(v.op == 'deq' and I.prove(s2, eq(v.a[1], ZERO)), 'no sample decoded before the seek is left in a channel', where, '%s: %s' % (fn, show(v)[:200]))
            elif t['k'] == 'adt' and t['name'].endswith('CircularStack'):
                if truth_:
                    ck.need(v.op == 'hnew', 'the first frame of a stream is decoded with an empty history', where, '%s: %s' % (fn, show(v)[:300]))
                    continue
                try:
                    for j in (1, 2, 3):
                        y, want = (decide(I, s2, z) for z in (hist.prev(I, s2, v, j), I.arr_select(s2, h3, K(3 - j))))
                        ck.need(I.prove(s2, eq(y, want)), 'any other frame is decoded with the history its header holds', where, 'sample %d back: %s, expected %s' % (j, show(y)[:160], show(want)[:100]))
                except Gap:
                    ck.unknown('any other frame is decoded with the history its header holds', where, show(v)[:300])
            elif t['k'] == 'adt' and t['adt'] == 'enum':
                want = 'Init' if truth_ else 'Decoding'
                ck.need(v.op == 'agg' and variant(I, v) == want, 'a frame is decoded in the state it was encoded in', where, '%s: %s, expected %s' % (fn, show(v)[:200], want))
