"""WAV codec: obligations shared by several properties."""
from ..kit import *
from ..check import Check
from ..lin import chain
from .. import floats

SYM_K = isym(name('any', 'k'), 0, LEN_MAX)      # an arbitrary index


def i16_bytes(lo, hi):
    """the i16 with these little-endian bytes"""
    return bits_poly('i16', tuple(to_bits(lo, 'u8')) + tuple(to_bits(hi, 'u8')))


def pre(ck):
    ck.assume('stream info with 1 to 65535 channels (the types allow 0 and more; no file can hold them)')
    ck.assume('slices and vectors have at most 2^48 elements (addressable memory); allocation succeeds')


def unchanged(ck, run, rule, which=('info', 'pcm', 'cur')):
    for s, v in run.out:
        Q = run.post(s)
        for w in which:
            ck.need(same(run.I, s, Q[w], run.P[w]), rule, run.root, '%s: %s' % (w, show(Q[w])[:200]))


def multiple(I, s, n, ch, cands=()):
    """n is a multiple of ch in state s"""
    at = single_atom(ch)
    n = I.simp(s, n)
    if all(at in m for m, c in n.a[0]):
        return True
    alts = [eq(n, c) for c in cands]
    g = FALSE
    for a in alts:
        g = bor(g, a)
    return g is not FALSE and I.prove(s, g)


def old_and_new(ck, run, s, old, new, inside, length, rule):
    """elements of new outside the written range equal those of old; inside: literals describing the range of index k"""
    I = run.I
    # k not inside: one state per way of being outside
    for lit in [bnot(l) for l in inside]:
        s2 = s.assume(lt(SYM_K, length)).assume(lit)
        if I.P.infeasible_state(s2.facts):
            continue
        a, b = I.arr_select(s2, new, SYM_K), I.arr_select(s2, old, SYM_K)
        ck.need(same(I, s2, a, b), rule, run.root, show(a)[:300])


# ------------------------------------------------------------------------------------------------------------ decode
def decode(ck, content=True, safe=True):
    pre(ck)
    R = WavRun(ck.kit, 'root_w_decode', 'blocks')
    I, ch = R.I, R.P['ch']
    ck.covered(I, R.root)
    if safe:
        ck.safe(I, 'decode cannot fail')
    L, out0 = R.slice(1)
    avail = mul(ch, sub(R.blocks, R.pos))
    room = mul(ch, div(L, ch))
    rets = returns(R)
    ck.need(any(r[1] == 'Some' for r in rets), 'decode can return samples', R.root)
    for s, var, n, _ in rets:
        out1 = s.mem.get(R.args[1].a[0], out0)
        Q = R.post(s)
        if var == 'Some':
            ck.need(I.prove(s, le(ONE, n)), 'Some(n) has 0 < n', R.root, show(n))
            ck.need(I.prove(s, le(n, L)), 'Some(n) has n <= buf.len()', R.root, show(n))
            ck.need(multiple(I, s, n, ch, (avail, room)), 'n is a multiple of the channel count', R.root, show(n))
            ck.need(I.prove(s, bor(eq(n, avail), eq(n, room))), 'decode stops only at the end of the stream or of the buffer', R.root, show(n))
        else:
            n = ZERO
            ck.need(I.prove(s, bor(eq(R.pos, R.blocks), lt(L, ch))), 'None only when no whole sample frame was produced', R.root)
        ck.need(same(I, s, Q['cur'], add(R.P['cur'], n)), 'the stream position moves by n', R.root, show(Q['cur']))
        ck.need(same(I, s, Q['pcm'], R.P['pcm']) and same(I, s, Q['info'], R.P['info']), 'decode leaves the stored stream unchanged', R.root)
        if not content:
            continue
        old_and_new(ck, R, s, out0, out1, [lt(SYM_K, n)], L, 'elements of the buffer past n are left untouched')
        s2 = s.assume(lt(SYM_K, n))
        if var == 'Some':
            x = I.resolve(s2, I.arr_select(s2, out1, SYM_K))
            at = scale(add(R.P['cur'], SYM_K), 2)
            want = i16_bytes(I.arr_select(s2, R.P['buf'], at), I.arr_select(s2, R.P['buf'], addk(at, 1)))
            ins = [y.a[0] for y in subterms(x) if y.op == 'i2f']
            ck.need(len(ins) == 1 and same(I, s2, ins[0], want), 'element k is the k-th next sample of the stream, read low byte first', R.root, show(x)[:300])
            yield ('element', x, want, s2, R)


# ------------------------------------------------------------------------------------------------------------ encode
def encode(ck, safe=True, content=True):
    pre(ck)
    R = WavRun(ck.kit, 'root_w_encode', 'linear')
    I, ch = R.I, R.P['ch']
    ck.covered(I, R.root)
    if safe:
        ck.safe(I, 'encode cannot fail')
    L, src = R.slice(1)
    n = mul(ch, div(L, ch))
    cur, ln, buf = R.P['cur'], R.P['len'], R.P['buf']
    rets = returns(R)
    ck.need(bool(rets), 'encode returns', R.root)
    for s, var, r, _ in rets:
        Q = R.post(s)
        ck.need(var == 'Some' and same(I, s, r, n), 'encode returns the largest multiple of the channel count', R.root, '%s %s' % (var, show(r) if r is not None else ''))
        ck.need(same(I, s, Q['cur'], add(cur, n)), 'the position moves by exactly the number of samples counted', R.root, show(Q['cur']))
        end = scale(add(cur, n), 2)
        ck.need(I.prove(s, bor(eq(Q['len'], ln), eq(Q['len'], end))) and I.prove(s, le(ln, Q['len'])) and I.prove(s, le(end, Q['len'])),
                'the stream is as long as before or ends right after the last sample written', R.root, show(Q['len']))
        ck.need(same(I, s, Q['info'], R.P['info']), 'encode leaves the stream info unchanged', R.root)
        for nm, l in R.W.inv(Q):
            ck.need(I.prove(s, l), 'after encode ' + nm, R.root)
        if not content:
            continue
        old_and_new(ck, R, s, buf, Q['buf'], [le(scale(cur, 2), SYM_K), lt(SYM_K, end)], ln, 'bytes outside the written range are unchanged')
        s2 = s.assume(lt(SYM_K, n))
        at = scale(add(cur, SYM_K), 2)
        lo, hi = (I.resolve(s2, I.arr_select(s2, Q['buf'], addk(at, d))) for d in (0, 1))
        yield ('element', lo, hi, I.arr_select(s2, src, SYM_K), s2, R)


def whole(lo, hi):
    """the integer whose low and high byte these are, or None"""
    b = list(to_bits(lo, 'u8')) + list(to_bits(hi, 'u8'))
    if all(isinstance(x, tuple) for x in b) and len({x[0] for x in b}) == 1 and [x[1] for x in b] == list(range(16)):
        return b[0][0]
    p = bits_poly('i16', tuple(b))
    return p


# ------------------------------------------------------------------------------------------------------------ events
def outcomes(run):
    """(state, variant, payload, value) with the I/O history of the path split as well"""
    out = []
    for s, v in run.out:
        for s2, e in cases(run.I, s, s.mem.get(('G', 'io'), mk('io0'))):
            for s3, x in cases(run.I, s2, v):
                t = run.I.p.types.get(x.a[0]) if x.op == 'agg' else None
                s3 = s3.copy()
                s3.mem[('G', 'io')] = settle(run.I, s3, e)
                if t and t['k'] == 'adt' and t.get('adt') == 'enum':
                    out.append((s3, variant(run.I, x), x.a[2][0] if x.a[2] else None, x))
                else:
                    out.append((s3, None, x, x))
    return out


def settle(I, s, e):
    """event chain with the gates decided by the state removed"""
    e = I.resolve_ite(s, e)
    if e.op == 'io':
        return mk('io', settle(I, s, e.a[0]), e.a[1])
    return e


def is_err(I, s):
    """True when an I/O call on the path certainly failed, False when certainly none did, else None"""
    return I.truth(s, s.mem.get(('G', 'ioerr'), FALSE))


# ------------------------------------------------------------------------------------------------------------ save_to
def le_bytes(v, n, ty):
    """the n little-endian bytes of integer v"""
    return [bits_poly('u8', tuple(bit(v, 8 * i + j) for j in range(8))) for i in range(n)]


def save(ck, header=True, io=True, safe=True, counts=True):
    pre(ck)
    R = WavRun(ck.kit, 'root_w_save', 'blocks')
    I, P = R.I, R.P
    ck.covered(I, R.root)
    if safe:
        ck.safe(I, 'save_to cannot fail otherwise than by returning Err')
    ch, rate, ln, buf = P['ch'], P['rate'], P['len'], P['buf']
    n_ok = 0
    for s, var, p, _ in outcomes(R):
        ev = events(s)
        ie = is_err(I, s)
        if io:
            if var == 'Ok':
                ck.need(ie is False, 'Ok is returned only when no write failed', R.root, 'i/o error possible: %s' % show(s.mem.get(('G', 'ioerr'), FALSE)))
                ck.need(lost(I, s) is FALSE, 'on success nothing is left in a buffer whose errors nobody sees', R.root, show(lost(I, s))[:100])
            for e in ev:
                ck.need(e.op == 'w' and e.a[0] in ('write_all', 'flush'), 'every byte range is handed over completely (write_all)', R.root, show(e)[:200])
        if var != 'Ok':
            continue
        n_ok += 1
        segs = [(e.a[1], e.a[2]) for e in ev if e.op == 'w' and e.a[0] in ('write_all', 'write')]
        total = ZERO
        for _, n in segs:
            total = add(total, n)
        if counts or header or io:
            ck.need(same(I, s, total, addk(ln, 44)), 'Ok means the 44 header bytes and every PCM byte were handed over', R.root, show(total))
        if counts:
            for what, v, ty in (('data size', ln, 'u32'), ('RIFF size', addk(ln, 36), 'u32'), ('sample rate', rate, 'u32'), ('channel count', ch, 'u16'),
                                ('block align', scale(ch, 2), 'u16'), ('byte rate', scale(mul(rate, ch), 2), 'u32')):
                ck.need(I.prove(s, le(v, K(trange(ty)[1]))), 'on success the %s fits its header field' % what, R.root, show(v))
        hdr = []
        at = 0
        ok_ = True
        for arr, n in segs:
            k = cval(n)
            if k is None:
                break
            for j in range(min(k, 44 - at)):
                hdr.append(I.simp(s, I.arr_select(s, arr, K(j))))
            at += k
            if at >= 44:
                break
        if len(hdr) < 44:
            if header or counts:
                ck.need(False, 'the file starts with 44 header bytes', R.root, 'found %d' % len(hdr))
            continue
        lit = lambda b: [K(x) for x in b]
        fields = [
            (0, 'RIFF', lit(b'RIFF'), 'h'), (4, 'RIFF size = data size + 36', le_bytes(addk(ln, 36), 4, 'u32'), 'c'),
            (8, 'WAVE fmt tags', lit(b'WAVEfmt '), 'h'), (16, 'format chunk size 16', lit(b'\x10\0\0\0'), 'h'), (20, 'format 1 (PCM)', lit(b'\1\0'), 'h'),
            (22, 'channel count', le_bytes(ch, 2, 'u16'), 'c'), (24, 'sample rate', le_bytes(rate, 4, 'u32'), 'c'),
            (28, 'byte rate = rate * channels * 2', le_bytes(scale(mul(rate, ch), 2), 4, 'u32'), 'c'),
            (32, 'block align = channels * 2', le_bytes(scale(ch, 2), 2, 'u16'), 'c'), (34, '16 bits per sample', lit(b'\x10\0'), 'h'),
            (36, 'data tag', lit(b'data'), 'h'), (40, 'data size = number of PCM bytes', le_bytes(ln, 4, 'u32'), 'c')]
        for off, what, want, kind in fields:
            if not (header or (counts and kind == 'c')):
                continue
            for j, w in enumerate(want):
                ck.need(same(I, s, hdr[off + j], w), 'header byte %d..: %s' % (off, what), R.root, 'byte %d is %s' % (off + j, show(hdr[off + j])[:200]))
        if header:
            # what follows is the PCM data, in order
            pos = ZERO
            for arr, n in segs:
                s2 = s.assume(le(pos, SYM_K)).assume(lt(SYM_K, add(pos, n))).assume(le(K(44), SYM_K)).assume(lt(SYM_K, addk(ln, 44)))
                if not I.P.infeasible_state(s2.facts):
                    x = I.arr_select(s2, arr, sub(SYM_K, pos))
                    y = I.arr_select(s2, buf, addk(SYM_K, -44))
                    ck.need(same(I, s2, x, y), 'byte 44 + k of the file is PCM byte k', R.root, show(x)[:200])
                pos = add(pos, n)
    ck.need(n_ok > 0, 'save_to can succeed', R.root)


def save_accepts(ck):
    """a stream that fits the format is refused only because of an i/o error"""
    def setup(R, st):
        return st.assume(le(scale(mul(R.P['rate'], R.P['ch']), 2), K((1 << 32) - 1))).assume(le(scale(R.P['ch'], 2), K(65535))).assume(le(R.P['len'], K((1 << 32) - 1 - 44)))
    R = WavRun(ck.kit, 'root_w_save', 'blocks', setup=setup)
    for s, var, p, _ in outcomes(R):
        if var == 'Err':
            ck.need(is_err(R.I, s) is True, 'a stream that fits the format is refused only after an i/o error', R.root, show(s.mem.get(('G', 'ioerr'), FALSE)))


# --------------------------------------------------------------------------------------------------------------- load
class WavLoad:
    def __init__(self, ck):
        self.kit = ck.kit
        I = self.I = ck.kit.interp()
        self.root = 'root_w_load'
        self.args = ck.kit.args(I, self.root)
        self.out = ck.kit.run(I, self.root, self.args, State({}, ROOT))
        self.W = Wav(ck.kit)
        ck.covered(I, self.root)


def byte(I, s, arr, i):
    return I.resolve(s, I.arr_select(s, arr, i if isinstance(i, T) else K(i)))


def word(bs, ty):
    b = ()
    for x in bs:
        b += tuple(to_bits(x, 'u8'))
    return bits_poly(ty, b)


def load(ck, topics):
    """topics: safe, ranked, start, range, header, io, content"""
    ck.assume('allocation succeeds; a reader delivers at most 2^48 bytes')
    R = WavLoad(ck)
    I, root = R.I, R.root
    if 'safe' in topics:
        ck.safe(I, 'load cannot panic')
    if 'ranked' in topics:
        ck.ranked(I, 'every loop of load makes progress')
    n_ok = 0
    for s, var, p, _ in outcomes(R):
        if 'io' in topics:
            if var == 'Ok':
                ck.need(is_err(I, s) is False, 'Ok is returned only when no read or seek failed', root, show(s.mem.get(('G', 'ioerr'), FALSE)))
            for e in events(s):
                ck.need(e.op == 'r' and e.a[0] != 'read', 'no read that may deliver less is taken as complete', root, show(e)[:160])
        if var != 'Ok':
            continue
        n_ok += 1
        P = R.W.parts(I, s, p)
        ch, ln = P['ch'], P['len']
        if 'start' in topics:
            ck.need(same(I, s, P['cur'], ZERO), 'a loaded stream starts at sample 0', root, show(P['cur']))
        if 'range' in topics:
            ck.need(I.prove(s, le(ONE, ch)) and I.prove(s, le(ch, K(65535))), 'a loaded stream has 1 to 65535 channels', root, show(ch))
            for nm, l in R.W.inv(P):
                ck.need(I.prove(s, l), 'in a loaded stream ' + nm, root)
        if not ({'header', 'content', 'start'} & set(topics)):
            continue
        ev = [e for e in events(s) if e.op == 'r']
        seeks = [i for i, e in enumerate(ev) if e.a[0] == 'seek']
        reads = [i for i, e in enumerate(ev) if e.a[0] != 'seek']
        if len(seeks) != 1 or len(reads) != 2 or not reads[0] < seeks[0] < reads[1]:
            ck.unknown('load reads the header, seeks and reads the data', root, 'another order of i/o calls: %s' % [e.a[0] for e in ev])
            continue
        hdr, nh = ev[reads[0]].a[1:3]
        target = ev[seeks[0]].a[1]
        data, nd = ev[reads[1]].a[1:3]
        B = lambda i: byte(I, s, hdr, i)
        if 'header' in topics or 'start' in topics:
            ck.need(I.prove(s, le(K(44), nh)), 'a file is accepted only with at least 44 bytes', root, show(nh))
            ck.need(same(I, s, P['rate'], word([B(i) for i in range(24, 28)], 'u32')), 'sample rate = header bytes 24..28', root, show(P['rate']))
            ck.need(same(I, s, ch, word([B(22), B(23)], 'i16')) or same(I, s, ch, word([B(22), B(23)], 'u16')), 'channel count = header bytes 22..24', root, show(ch))
        if not ({'header', 'content'} & set(topics)):
            continue
        bits_ = word([B(34), B(35)], 'i16')
        if target.op != 'agg' or variant(I, target) != 'Start':
            ck.need(False, 'load seeks to an absolute position', root, show(target)[:200])
            continue
        d = addk(target.a[2][0], -8)
        dt = [B(addk(d, j)) for j in range(8)]
        if 'header' in topics:
            ck.need(I.prove(s, eq(word([B(20), B(21)], 'i16'), ONE)), 'only format 1 (bytes 20..22) is accepted', root)
            ck.need(I.prove(s, bor(eq(bits_, K(16)), eq(bits_, K(8)))), 'only 8 or 16 bits per sample (bytes 34..36) are accepted', root)
            ck.need(I.prove(s, le(K(36), d)), 'the data chunk is searched behind the format chunk', root, show(d))
            ck.need(I.prove(s, le(addk(d, 8), nh)), 'the data chunk header lies within the bytes read', root, show(d))
            for j, c in enumerate(b'data'):
                ck.need(I.prove(s, eq(dt[j], K(c))), 'the samples are taken from right behind a "data" tag and its size', root, 'tag byte %d: %s' % (j, show(dt[j])[:100]))
        size = word(dt[4:], 'u32')
        for b in (16, 8):
            s2 = s.assume(eq(bits_, K(b)))
            if I.P.infeasible_state(s2.facts):
                ck.need(False, '%d-bit files are accepted' % b, root)
                continue
            bb = b // 8
            if 'header' in topics:
                want = None
                for m, l in ((size, lt(size, nd)), (nd, le(nd, size))):
                    s3 = s2.assume(l)
                    if I.P.infeasible_state(s3.facts):
                        continue
                    want = scale(mul(ch, div(m, scale(ch, bb))), 2)
                    got = specialise(I, s3, I.resolve(s3, I.simp(s3, ln)))
                    ck.need(same(I, s3, got, want), '%d-bit: the whole sample frames of min(declared size, bytes present) are kept' % b, root, '%s  expected %s' % (show(got)[:300], show(want)[:200]))
            if 'content' in topics:
                s3 = s2.assume(lt(SYM_K, div(ln, K(2))))
                buf = I.resolve_ite(s3, P['buf'])
                lo, hi = (I.resolve(s3, I.arr_select(s3, buf, addk(scale(SYM_K, 2), j))) for j in (0, 1))
                yield (b, s3, lo, hi, data, R)
    ck.need(n_ok > 0, 'load can succeed', root)


def sample8(I, s, lo, hi):
    """(value of the 16-bit sample written as these two bytes, its 8-bit inputs)"""
    v = whole(lo, hi)
    return v, [x for x in subterms(v) if x.op == 'sel']


# ---------------------------------------------------------------------------------------------------------------- seek
def seek(ck, safe=True):
    pre(ck)
    R = WavRun(ck.kit, 'root_w_seek', 'blocks')
    I, P = R.I, R.P
    ck.covered(I, R.root)
    if safe:
        ck.safe(I, 'seek cannot fail')
    ch = P['ch']
    arg = I.expand(R.args[1])
    rets = R.out
    ck.need(bool(rets), 'seek returns', R.root)
    for s, _ in rets:
        Q = R.post(s)
        cur = I.simp(s, Q['cur'])
        ck.need(multiple(I, s, cur, ch), 'seek lands on a sample-frame boundary', R.root, show(cur)[:300])
        ck.need(I.prove(s, le(ZERO, cur)) and I.prove(s, le(cur, mul(ch, R.blocks))), 'seek lands between the first and one past the last sample', R.root, show(cur)[:300])
        ck.need(same(I, s, Q['pcm'], P['pcm']) and same(I, s, Q['info'], P['info']), 'seek leaves the stored stream unchanged', R.root)
    # measured from the start, the current position, the end
    names = [v['n'] for v in I.p.types[R.args[1].a[0]]['v']]
    for which, base in (('Start', ZERO), ('Current', R.pos), ('End', R.blocks)):
        k = names.index(which)

        def setup(run, st):
            run.dt = run.I.mk_sym(run.I.p.types[run.args[1].a[0]]['v'][k]['f'][0][1], name('dt'))
            run.args[1] = agg(run.args[1].a[0], k, [run.dt])
            return st
        R2 = WavRun(ck.kit, 'root_w_seek', 'blocks', setup=setup)
        I2 = R2.I
        base2 = {'Start': ZERO, 'Current': R2.pos, 'End': R2.blocks}[which]
        for s, _ in R2.out:
            cur = I2.simp(s, R2.post(s)['cur'])
            f = [x for x in subterms(cur) if x.op == 'f2i']
            if len(f) != 1:
                ck.unknown('SeekFrom::%s is measured from the right place' % which, R2.root, show(cur)[:300])
                continue
            t = A(f[0])
            ck.need(contains(f[0], lambda x: x is single_atom(R2.dt)) and contains(f[0], lambda x: x is single_atom(R2.P['rate'])),
                    'the distance is computed from the argument and the sample rate', R2.root, show(f[0])[:300])
            distance(ck, f[0], R2.P['rate'], R2.dt, R2.root)
            want = mul(R2.P['ch'], lim(add(base2, t), ZERO, R2.blocks))
            # within the stream nothing is limited
            for lo, hi, w in ((ZERO, R2.blocks, mul(R2.P['ch'], add(base2, t))), (None, ZERO, ZERO), (R2.blocks, None, mul(R2.P['ch'], R2.blocks))):
                s2 = s
                x = add(base2, t)
                if lo is not None:
                    s2 = s2.assume(le(lo, x))
                if hi is not None:
                    s2 = s2.assume(le(x, hi))
                if I2.P.infeasible_state(s2.facts):
                    continue
                got = I2.simp(s2, cur)
                ck.need(same(I2, s2, got, w), 'SeekFrom::%s is measured from %s, limited to the stream' % (which, {'Start': 'the first sample', 'Current': 'the current position', 'End': 'the end'}[which]),
                        R2.root, '%s expected %s' % (show(got)[:300], show(w)[:200]))


def distance(ck, f, rate, dt, where):
    """the float a seek distance is converted from: rate * dt / 1000 (dt in milliseconds), over the reals"""
    from .blocks import fpoly
    rule = 'the distance is the argument in milliseconds times the sample rate'

    def strip(x):
        while x.op == 'fop' and x.a[0] in ('cast', 'f32', 'f64') and isinstance(x.a[1], T):
            x = x.a[1]
        return x.a[0] if x.op == 'i2f' else None
    ROUND = ('floor', 'ceil', 'round', 'trunc', 'round_ties_even')
    x = f.a[1]
    while x.op == 'fop' and x.a[0] in ROUND:
        x = x.a[1]
    p = fpoly(x)
    if p is not None and any(x.op == 'fop' and x.a[0] in ROUND for m in p for x in m):
        ck.need(False, rule, where, 'rounded before the product is complete: ' + show(f)[:300])
        return
    if p is None or any(strip(x) is None for m in p for x in m):
        ck.unknown(rule, where, show(f)[:300])
        return
    p = {tuple(sorted((strip(x) for x in m), key=lambda x: x.id)): c for m, c in p.items()}
    want = tuple(sorted((rate, dt), key=lambda x: x.id))
    ck.need(set(p) == {want} and abs(p[want] * 1000 - 1) < 1e-5, rule, where, show(f)[:300])


# ------------------------------------------------------------------------------------------------- size, info, new
def bound(ck):
    pre(ck)
    R = WavRun(ck.kit, 'root_w_bound', 'linear')
    ck.covered(R.I, R.root)
    S = WavRun(ck.kit, 'root_w_save', 'linear')
    ck.covered(S.I, S.root)
    n = 0
    for s, v in R.out:
        for s2, var, p, _ in outcomes(S):
            if var != 'Ok':
                continue
            total = ZERO
            for e in events(s2):
                if e.op == 'w' and e.a[0] != 'flush':
                    total = add(total, e.a[2])
            n += 1
            st = s2
            for f in chain(s.facts):
                st = st.assume(f)
            ck.need(S.I.prove(st, le(scale(total, 8), v)), 'filesize_upperbound is at least 8 times the bytes written', R.root, 'bound %s, written %s' % (show(v)[:200], show(total)[:200]))
    ck.need(n > 0, 'a size and a bound were found', R.root)


def readonly(ck):
    pre(ck)
    for root in ('root_w_info', 'root_w_bound', 'root_w_save'):
        R = WavRun(ck.kit, root, 'linear')
        ck.covered(R.I, root)
        unchanged(ck, R, 'the codec is unchanged')
        for s, v in R.out:
            for o, x in s.mem.items():
                if o[0] == 'D' and o != R.obj and root != 'root_w_save':
                    ck.need(x is R.I.objval(R.st0, o), 'no other object is changed', root, str(o))
        if root == 'root_w_info':
            for s, v in R.out:
                ck.need(same(R.I, s, v, R.P['info']), 'info returns the stream info', root, show(v)[:200])


def new(ck):
    I = ck.kit.interp()
    W = Wav(ck.kit)
    args = ck.kit.args(I, 'root_w_new')
    for s, v in ck.kit.run(I, 'root_w_new', args, State({}, ROOT)):
        P = W.parts(I, s, v)
        ck.need(same(I, s, P['info'], args[0]), 'a new codec has the stream info given', 'root_w_new')
        ck.need(same(I, s, P['cur'], ZERO) and same(I, s, P['len'], ZERO), 'a new codec is empty and at sample 0', 'root_w_new')
    ck.covered(I, 'root_w_new')
    ck.safe(I, 'new cannot fail')


def stored16(ck, x):
    """16-bit input is kept byte for byte"""
    b, s, lo, hi, data, R = x
    if b != 16:
        return
    for j, y in ((0, lo), (1, hi)):
        ck.need(same(R.I, s, y, R.I.arr_select(s, data, addk(scale(SYM_K, 2), j))), '16-bit input is kept byte for byte', R.root, show(y)[:300])


def widened8(ck, x):
    """8-bit input: sample k is the 16-bit value that corresponds to byte k"""
    b, s, lo, hi, data, R = x
    if b != 8:
        return
    I = R.I
    v, ins = sample8(I, s, lo, hi)
    src = I.arr_select(s, data, SYM_K)
    at = single_atom(src)
    if not ck.need(len(set(ins)) == 1 and ins[0] is at, '8-bit input: both bytes of sample k come from byte k', R.root, '%s from %s' % (show(v)[:200], [show(i) for i in set(ins)][:3])):
        return
    vals = []
    for k in range(256):
        c = cval(rebuild(v, lambda t: K(k) if t is at else None, {}))
        if c is None:
            ck.unknown('8-bit input: the value of sample k', R.root, show(v)[:300])
            return
        vals.append(c)
    ck.need(all(p < q for p, q in zip(vals, vals[1:])) and all(abs(c - (k / 255.0 * 2 - 1) * 32767) <= 2 for k, c in enumerate(vals)),
            '8-bit input: 0..255 becomes -1..1 in 16 bits, low byte first', R.root, '%s' % vals[::51])
