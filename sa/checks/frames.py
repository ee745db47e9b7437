"""One frame of one channel: FrameCodec::encode_frame and decode_frame.

The samples of the frame are followed as a history of their own (ghost): the encoder must store each 16-bit sample so that
the decoder's rule gets it back from that history, the decoder must apply that rule to every symbol it reads.  The history
the codec itself keeps has to end up equal to the ghost."""
from ..kit import *
from ..models import loc, M
from .. import floats
from . import hist
from .blocks import decide

BS = 'adhoc_audio::collections::bitstream::BitStream::'
FH = 'adhoc_audio::codec::FrameHeaders'
FC = 'adhoc_audio::codec::FrameCodec'
W, H, J, HEADS = ('G', 'symbols'), ('G', 'history'), ('G', 'samples out'), ('G', 'headers')
THERE = mk('bsym', name('there is a header'))
POS0 = isym(name('bit position at the frame'), 0, 1 << 48)


def strip16(I, s, x):
    """an i16 given modulo 2^16: without the inner wrap-arounds"""
    for _ in range(8):
        r = ZERO
        again = False
        for m, c in x.a[0]:
            a = m[0] if len(m) == 1 else None
            if a is not None and a.op == 'wrap' and a.a[0] in ('i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i128', 'u128', 'usize', 'isize'):
                r = add(r, scale(a.a[1], c))
                again = True
            elif c % 65536 == 0:
                again = True
            else:
                r = add(r, poly({m: c}))
        x = r
        if not again:
            break
    x = I.simp(s, x) if s is not None else x
    lo, hi = prange(x)
    if lo is not None and hi is not None and lo >= -32768 and hi <= 32767:
        return x
    return wrap('i16', x)


def canon_f(t, memo=None):
    """commutative operations with sorted operands"""
    def g(x):
        if x.op == 'fop' and x.a[0] in ('add', 'mul') and len(x.a) == 3 and x.a[1].id > x.a[2].id:
            a, b = rebuild(x.a[1], g, memo), rebuild(x.a[2], g, memo)
            a, b = (a, b) if a.id <= b.id else (b, a)
            return mk('fop', x.a[0], a, b)
        return None
    memo = {} if memo is None else memo
    return rebuild(t, g, memo)


def hold(k):
    return isym(name('last sample', k), -32768, 32767)


class FrameRun:
    def __init__(self, ck, which, state, size=None, least=None, predict=None, whole=False):
        """which: encode | decode; state: name of the CodecState; size: exactly that many samples; least: at least that many"""
        kit = ck.kit
        self.ck, self.kit, self.which, self.state = ck, kit, which, state
        self.root = 'root_f_' + which
        I = self.I = kit.interp(unroll=20)
        self.T = predict
        self.events = 0
        self.marks = {'raw': 0, 'coded': 0, 'out': 0, 'push': 0}
        self.exps, self.headers = [], []
        hist.install(I)
        self.args = kit.args(I, self.root)
        st = State({}, ROOT)
        self.obj = self.args[0].a[0]
        self.fty = kit.ty('FrameCodec')
        fs = kit.fields(self.fty)
        self.i_state = kit.field(self.fty, lambda t: t['k'] == 'adt' and t['name'].endswith('CodecState'))
        self.i_hist = kit.field(self.fty, lambda t: t['k'] == 'adt' and t['name'].endswith('CircularStack'))
        self.i_queue = kit.field(self.fty, lambda t: t['k'] == 'adt' and t['name'].endswith('VecDeque'))
        v = I.expand(I.objval(st, self.obj))
        h0 = self.h0 = mk('hnew') if state == 'Init' else mk('hist', 0, name('history before'))
        sty = fs[self.i_state][1]
        k = [x['n'] for x in kit.p.types[sty]['v']].index(state)
        f = list(v.a[2])
        f[self.i_state] = agg(sty, k, [])
        f[self.i_hist] = h0
        st.mem[self.obj] = mk('agg', v.a[0], v.a[1], tuple(f))
        self.v0 = st.mem[self.obj]
        for g, x in ((W, ZERO), (H, h0), (J, ZERO), (HEADS, ZERO)):
            I.ghosts[g] = x
            st.mem[g] = x
        op = I.opaque
        for d in {i['def'] for i in kit.p.insts}:
            if d.startswith(BS) or d.startswith(FH + '::'):
                op.setdefault(d, self.other(d))
        op[BS + 'bit_cursor'] = self.bit_cursor
        if which == 'encode':
            self.pcm = self.args[3]
            self.size = self.pcm.a[3]
            op[BS + 'write'] = self.w_raw
            op[BS + 'write_compressed'] = self.w_coded
            op[FH + '::push'] = self.w_header
            if not whole and any(i['def'] == FC + '::compute_optimal_divisor_exponent' for i in kit.p.insts):
                op[FC + '::compute_optimal_divisor_exponent'] = lambda c: c.ret(isym(name('exponent'), 1, 15))
            st = st.assume(le(self.size, K(65535)))
        else:
            hty = kit.ty('FrameHeader')
            fs_ = []
            for fn, ft in kit.p.types[hty]['v'][0]['f']:
                if fn == 'exponent':
                    fs_.append(isym(name('header exponent'), 1, 15))
                else:
                    fs_.append(I.mk_sym(ft, name('header', fn)))
                if fn == 'size':
                    self.size = fs_[-1]
            self.header = agg(hty, 0, fs_)
            self.exp = isym(name('header exponent'), 1, 15)
            op[BS + 'read'] = self.r_raw
            op[BS + 'read_compressed'] = self.r_coded
            op['<' + FH + ' as std::iter::Iterator>::next'] = self.r_header
            for m in ('push_back',):
                self.wrap_queue('std::collections::VecDeque::<T, A>::' + m, self.out)
        if size is not None:
            st = st.assume(eq(self.size, K(size)))
        if least is not None:
            st = st.assume(le(K(least), self.size))
        self.st0 = st
        self.first = lim(self.size, None, K(3)) if state == 'Init' else ZERO
        self.prepare()
        self.outs = [(s, v) for s, v in kit.run(I, self.root, self.args, st) if not I.P.infeasible_state(s.facts)]
        ck.covered(I, self.root)

    # ------------------------------------------------------------ plumbing
    def prepare(self):
        pass

    def other(self, d):
        def f(c):
            raise Gap(d + ' in a frame')
        return f

    def wrap_queue(self, d, h):
        def f(c):
            o, pa = loc(self.I, c.st, c.args[0])
            if o == self.obj and pa[:1] == (('f', self.i_queue),) and self.I.record:
                h(c)
            if o == self.obj and pa[:1] == (('f', self.i_queue),):
                c.st = c.st.copy()
                c.st.mem[J] = addk(c.st.mem[J], 1)
            return M[d](c)
        self.I.opaque[d] = f

    def unit(self, c, st):
        return [(st, agg(c.dty, 0, []))]

    def prevs(self, st):
        return [hist.prev(self.I, st, st.mem[H], k) for k in (3, 2, 1)]

    def prediction(self, st):
        """the decoder's prediction from the ghost history"""
        p = dict(zip((hold(3), hold(2), hold(1)), self.prevs(st)))
        p = {single_atom(k): v for k, v in p.items()}
        return rebuild(self.T, lambda t: p.get(t), {})

    def need(self, st, cond, rule, detail=''):
        return self.ck.need(cond, rule, self.root, '%s frame: %s' % (self.state, detail))

    def took(self, st, v):
        st = st.copy()
        st.mem[H] = mk('hpush', st.mem[H], v)
        st.mem[W] = addk(st.mem[W], 1)
        return st

    def raw_turn(self, st):
        return self.I.prove(st, lt(st.mem[W], self.first))

    def coded_turn(self, st):
        return self.I.prove(st, le(self.first, st.mem[W])) and self.I.prove(st, lt(st.mem[W], self.size))

    # ------------------------------------------------------------ encoder
    def bit_cursor(self, c):
        w = c.st.mem[W]
        return c.ret(POS0 if self.I.prove(c.st, eq(w, ZERO)) else isym(name('bit position after', w), 0, 1 << 48))

    def sample_at(self, st, v):
        """is the 16-bit value v the quantised next sample of the slice?"""
        I = self.I
        x = floats.truncated(v)
        if x is None or x.op != 'fsel':
            return False
        want = I.arr_select(st, I.expand(I.read(st, self.pcm.a[0], self.pcm.a[1])) if False else self.pcm_arr(st), add(self.pcm.a[2], st.mem[W]))
        if want.op != 'fsel':
            return x is want
        return x.a[0] is want.a[0] and (x.a[1] is want.a[1] or I.prove(st, eq(x.a[1], want.a[1])))

    def pcm_arr(self, st):
        return self.I.read(st, self.pcm.a[0], self.pcm.a[1])

    def w_raw(self, c):
        I = self.I
        t = I.p.types[c.targs[0]]['s']
        v = c.args[1]
        if t not in ('u16', 'i16') or v.op != 'poly':
            raise Gap('fixed-width write of %s in a frame' % t)
        x = strip16(I, c.st, v)
        if I.record:
            self.marks['raw'] += 1
            self.need(c.st, self.raw_turn(c.st), 'only the first three samples of a stream are stored as they are', 'sample %s of %s' % (show(c.st.mem[W])[:100], show(self.size)[:80]))
            self.need(c.st, self.sample_at(c.st, x), 'a sample stored as it is is the quantised sample of the slice, in order', 'sample %s: %s' % (show(c.st.mem[W])[:100], show(x)[:400]))
        return self.unit(c, self.took(c.st, x))

    def w_coded(self, c):
        I, st = self.I, c.st
        e, r = c.args[1], c.args[2]
        v = strip16(I, st, add(self.prediction(st), r))
        if floats.truncated(v) is None:
            v2 = strip16(I, st, canon_f(add(self.prediction(st), r)))
            v = v2 if floats.truncated(v2) is not None else v
        if I.record:
            self.marks['coded'] += 1
            self.exps.append((st, e))
            self.need(st, self.coded_turn(st), 'every sample but the first three of a stream is stored as a residual, once', 'sample %s of %s' % (show(st.mem[W])[:100], show(self.size)[:80]))
            self.need(st, self.sample_at(st, v), 'the decoder\'s prediction plus the residual stored is the quantised sample of the slice', 'sample %s: residual %s' % (show(st.mem[W])[:100], show(r)[:500]))
            self.need(st, I.prove(st, le(ONE, e)) and I.prove(st, le(e, K(15))), 'the exponent is between 1 and 15', show(e)[:200])
        return self.unit(c, self.took(st, v))

    def w_header(self, c):
        I, st = self.I, c.st
        if I.record:
            v = I.expand(c.args[1]) if c.args[1].op == 'sym' else c.args[1]
            self.headers.append((st, v, st.mem[W]))
        st = st.copy()
        st.mem[HEADS] = addk(st.mem[HEADS], 1)
        return self.unit(c, st)

    # ------------------------------------------------------------ decoder
    def r_header(self, c):
        I = self.I
        there = THERE
        st, none_ = c.st.assume(there).copy(), c.st.assume(bnot(there))
        st.mem[HEADS] = addk(st.mem[HEADS], 1)
        return [(st, some(I, c.dty, self.header)), (none_, none(I, c.dty))]

    def r_raw(self, c):
        I, st = self.I, c.st
        t = I.p.types[c.targs[0]]['s']
        if t not in ('u16', 'i16'):
            raise Gap('fixed-width read of %s in a frame' % t)
        r = isym(I.fresh('stored sample'), 0, 65535)
        if I.record:
            self.marks['raw'] += 1
            self.need(st, self.raw_turn(st), 'only the first three samples of a stream are read as they are', 'sample %s of %s' % (show(st.mem[W])[:100], show(self.size)[:80]))
        return [(self.took(st, wrap('i16', r)), r)]

    def r_coded(self, c):
        I, st = self.I, c.st
        r = isym(I.fresh('residual'), -32768, 32767)
        if I.record:
            self.marks['coded'] += 1
            self.need(st, self.coded_turn(st), 'every sample but the first three of a stream is read as a residual, once', 'sample %s of %s' % (show(st.mem[W])[:100], show(self.size)[:80]))
            self.need(st, same(I, st, c.args[1], self.exp), 'residuals are read with the exponent of the header', show(c.args[1])[:200])
        if self.T is None:
            self.residual = r
            x = isym(name('first decoded'), -32768, 32767)
        else:
            x = wrap('i16', add(self.prediction(st), r))
        return [(self.took(st, x), r)]

    def out(self, c):
        I, st = self.I, c.st
        self.marks['out'] += 1
        if self.T is None:
            return
        d = I.simp(st, sub(st.mem[W], st.mem[J]))
        k = next((k for k in range(1, 4) if I.prove(st, eq(d, K(k)))), None)
        if k is None:
            if I.prove(st, le(d, ZERO)):
                self.need(st, False, 'a sample is returned after it was read', show(d)[:200])
            else:
                self.ck.unknown('sample returned from a frame', self.root, 'number %s' % show(d)[:200])
            return
        want = hist.prev(I, st, st.mem[H], k)
        self.need(st, returned(I, st, c.args[1], want), 'the sample returned is the reconstructed one, in order', 'sample %s: %s, expected %s' % (show(st.mem[J])[:80], show(c.args[1])[:300], show(want)[:200]))


def returned(I, s, f, x):
    """f is x / 32767, possibly limited to [-1, 1]"""
    def norm(f):
        n = floats.normalised(f)
        return n is not None and (n is x or same(I, s, n, x) or canon_f(n) is canon_f(x))
    if norm(f):
        return True
    for y in subterms(f):
        if y.op == 'fop' and norm(y) and floats.is_clamped(f, y):
            return True
    return False


def prediction_of(ck):
    """the prediction as the decoder computes it, over the last three samples: from one residual decoded on its own"""
    R = FrameRun(ck, 'decode', 'Decoding', size=1)
    I = R.I
    got = []
    for s, v in R.outs:
        s = s.assume(THERE)
        post = I.objval(s, R.obj)
        h = decide(I, s, I.project(s, post, ('f', R.i_hist)))
        if h.op == 'hpush' and h.a[0] is R.h0:
            x = h.a[1]
            ra = single_atom(R.residual)
            p = strip16(I, s, rebuild(x, lambda t: ZERO if t is ra else None, {})) if contains(x, lambda t: t is ra) else x
            got.append((s, x, p, R.residual))
    if len(got) != 1:
        raise Gap('%d ways to decode a residual' % len(got))
    s, x, p, r = got[0]
    ck.need(contains(x, lambda t: t is single_atom(r)), 'a decoded sample depends on its residual', R.root, show(x)[:200])
    ck.need(strip16(I, s, x) is wrap('i16', add(p, r)) or same(I, s, x, wrap('i16', add(p, r))), 'a decoded sample is prediction plus residual, wrapping around at 16 bits', R.root, show(x)[:400])
    m = {single_atom(hist.prev(I, s, R.h0, k)): hold(k) for k in (1, 2, 3)}
    T = rebuild(p, lambda t: m.get(t), {})
    ok = lambda t: t.op != 'isym' or any(t is single_atom(hold(k)) for k in (1, 2, 3))
    ck.need(all(ok(t) for t in subterms(T)) and not any(t.op in ('fsym', 'fsel', 'sel', 'bsym') for t in subterms(T)), 'the prediction depends on the last three samples only', R.root, show(T)[:400])
    return T


SIZES = ((0, None), (1, None), (2, None), (3, None), (None, 4))


def encoder(ck, T, topics=('code', 'header', 'safe', 'ranked')):
    for state in ('Init', 'Encoding'):
        for size, least in (SIZES if state == 'Init' else ((None, 0),)):
            with ck.scope('encode_frame, %s, %s samples' % (state, size if size is not None else '%d or more' % least)):
                R = FrameRun(ck, 'encode', state, size, least, T)
                encoded(ck, R, topics)


def encoded(ck, R, topics):
    I = R.I
    if 'safe' in topics:
        ck.safe(I, 'encode_frame cannot panic')
    if 'ranked' in topics:
        ck.ranked(I, 'every loop of encode_frame makes progress')
    ck.need(bool(R.outs), 'encode_frame returns', R.root)
    if not {'code', 'header'} & set(topics):
        return
    for s, v in R.outs:
        post = I.objval(s, R.obj)
        f = lambda i: I.project(s, post, ('f', i))
        R.need(s, I.prove(s, eq(s.mem[W], R.size)), 'every sample of the slice is stored', '%s of %s' % (show(s.mem[W])[:200], show(R.size)[:80]))
        R.need(s, f(R.i_hist) is s.mem[H] or canon_f(f(R.i_hist)) is canon_f(s.mem[H]), 'the encoder\'s history is the decoder\'s', '%s, expected %s' % (show(f(R.i_hist))[:300], show(s.mem[H])[:300]))
        R.need(s, variant(I, I.resolve(s, f(R.i_state))) == 'Encoding', 'the encoder is in the encoding state afterwards', show(f(R.i_state))[:100])
        R.need(s, I.prove(s, eq(s.mem[HEADS], ONE)), 'one header per frame', show(s.mem[HEADS])[:100])
    if 'header' not in topics:
        return
    names = [n for n, _ in R.kit.p.types[R.kit.ty('FrameHeader')]['v'][0]['f']]
    for s, h, w in R.headers:
        g = lambda n: h.a[2][names.index(n)]
        R.need(s, same(I, s, g('size'), R.size), 'the header\'s size is the number of samples', show(g('size'))[:200])
        R.need(s, same(I, s, g('bit_cursor'), POS0), 'the header\'s bit position is where the frame starts', show(g('bit_cursor'))[:200])
        R.need(s, I.truth(s, g('is_init')) is (R.state == 'Init'), 'the header says whether the frame starts a stream', show(g('is_init'))[:200])
        for s2, e in R.exps:
            R.need(s, same(I, s2, g('exponent'), e), 'residuals are written with the exponent of the header', '%s, header %s' % (show(e)[:150], show(g('exponent'))[:150]))
        if R.state != 'Init':
            a = g('stack_history')
            for k in (3, 2, 1):
                x = I.arr_select(s, I.resolve(s, a), K(3 - k))
                R.need(s, same(I, s, x, hist.prev(I, s, R.h0, k)), 'the header holds the three samples before the frame, oldest first', 'element %d: %s' % (3 - k, show(x)[:200]))


def decoder(ck, T, topics=('code', 'safe', 'ranked')):
    for state in ('Init', 'Decoding'):
        for size, least in (SIZES if state == 'Init' else ((None, 0),)):
            with ck.scope('decode_frame, %s, %s samples' % (state, size if size is not None else '%d or more' % least)):
                R = FrameRun(ck, 'decode', state, size, least, T)
                decoded(ck, R, topics)


def decoded(ck, R, topics):
    I = R.I
    if 'safe' in topics:
        ck.safe(I, 'decode_frame cannot panic')
    if 'ranked' in topics:
        ck.ranked(I, 'every loop of decode_frame makes progress')
    ck.need(bool(R.outs), 'decode_frame returns', R.root)
    if 'code' not in topics:
        return
    n = 0
    there = THERE
    for s0, v in R.outs:
        for lit in (there, bnot(there)):
            s = s0.assume(lit)
            if I.P.infeasible_state(s.facts):
                continue
            n += 1
            post = I.objval(s, R.obj)
            f = lambda i: decide(I, s, I.resolve(s, I.project(s, post, ('f', i))))
            got = lambda g: decide(I, s, I.simp(s, s.mem[g]) if s.mem[g].op == 'poly' else s.mem[g])
            q0 = I.expand(I.project(s, R.v0, ('f', R.i_queue))) if False else I.project(s, R.v0, ('f', R.i_queue))
            q = f(R.i_queue)
            if lit is not there:
                for i in (R.i_hist, R.i_state, R.i_queue):
                    a, b = f(i), I.resolve(s, I.project(s, R.v0, ('f', i)))
                    R.need(s, a is b or same(I, s, a, b), 'without a header nothing changes', '%s' % show(a)[:200])
                R.need(s, I.prove(s, eq(got(W), ZERO)), 'without a header nothing is read', show(got(W))[:200])
                continue
            R.need(s, I.prove(s, eq(got(HEADS), ONE)), 'one header per frame', show(got(HEADS))[:100])
            R.need(s, I.prove(s, eq(got(W), R.size)), 'as many samples are read as the header says', '%s of %s' % (show(got(W))[:200], show(R.size)[:80]))
            a, b = f(R.i_hist), got(H)
            R.need(s, a is b or canon_f(a) is canon_f(b), 'the decoder\'s history is the samples it reconstructed', '%s, expected %s' % (show(a)[:300], show(b)[:300]))
            R.need(s, variant(I, f(R.i_state)) == 'Decoding', 'the decoder is in the decoding state afterwards', show(f(R.i_state))[:100])
            if q.op != 'deq':
                raise Gap('queue ' + q.op)
            q0 = I.resolve(s, q0)
            n0 = q0.a[1] if q0.op == 'deq' else I.expand(q0).a[1]
            if R.marks['out']:
                R.need(s, I.prove(s, eq(got(J), R.size)), 'as many samples are returned as the header says', '%s of %s' % (show(got(J))[:200], show(R.size)[:80]))
            R.need(s, I.prove(s, eq(q.a[1], add(n0, R.size))), 'the queue grows by the samples of the frame', show(q.a[1])[:200])
            if not R.marks['out'] and not I.prove(s, eq(R.size, ZERO)):
                ck.unknown('order of the samples returned', R.root, 'they are not appended one by one')
    ck.need(n > 0, 'decode_frame returns', R.root)
