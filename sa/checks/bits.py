"""bit stream and entropy code: obligations"""
from ..kit import *
from ..par import parallel

CHUNKS = 1 << 41            # 128-bit chunks of a stream (addressable memory)
SYM_J = isym(name('any', 'j'), 0, CHUNKS)


class Stream:
    """view of AudioStream values: the chunk vector and the bit position, located through bit_cursor()"""

    def __init__(self, kit):
        self.kit = kit
        I = kit.interp()
        args = kit.args(I, 'root_s_cursor')
        st = State({}, ROOT)
        self.o = args[0].a[0]
        v = I.objval(st, self.o)
        self.ty = v.a[0]
        (s, r), = kit.run(I, 'root_s_cursor', args, st)
        self.cur = self.locate(I, I.expand(v), lambda x: x is r)
        self.vec = self.locate(I, I.expand(v), lambda x: x.op == 'vec' and I.p.types[x.a[1].a[0]].get('s') == 'u128' if x.op == 'vec' and x.a[1].op == 'arrsym' else False)

    def locate(self, I, v, pred, path=(), depth=0):
        found = []

        def go(x, path, depth):
            if pred(x):
                found.append(path)
                return
            x = I.expand(x) if x.op == 'sym' else x
            if depth < 3 and x.op == 'agg' and I.p.types[x.a[0]].get('k') == 'adt' and I.p.types[x.a[0]].get('adt') == 'struct':
                for i, f in enumerate(x.a[2]):
                    go(f, path + (('f', i),), depth + 1)
        go(v, path, depth)
        if len(found) != 1:
            raise Missing('bit stream layout: %d candidates' % len(found))
        return found[0]

    def get(self, I, st, v, path):
        for p in path:
            v = I.project(st, v, p)
        return v

    def at(self, I, obj, pos):
        """state with an arbitrary stream whose position is pos"""
        st = State({}, ROOT)
        v = I.update(st, I.expand(I.objval(st, obj)), self.cur, pos)
        st.mem[obj] = v
        vec = self.get(I, st, v, self.vec)
        ln = vec.a[0]
        st = st.assume(le(ln, K(CHUNKS)))
        # every other 128-bit field (the high-water mark) is bounded like a position
        for x in I.expand(self.get(I, st, v, self.cur[:-1])).a[2]:
            if x.op == 'poly' and single_atom(x) is not None and single_atom(x).op == 'isym':
                st = st.assume(le(x, K(CHUNKS * 128)))
        return st, vec


def setup(ck):
    ck.assume('a stream holds at most 2^41 chunks of 128 bits (addressable memory); allocation succeeds')
    return Stream(ck.kit)


def differ(I, s, a, b, lo, hi, zero_above=False):
    """bits lo..hi of a and b agree in state s (above hi, a is 0 if asked): None, or a description of the difference"""
    for s2, (x, y) in worlds(I, s, a, b):
        p, q = to_bits(x, 'u128'), to_bits(y, 'u128')
        for k in range(lo, hi):
            if p[k] != q[k]:
                return 'bit %d of %s is not bit %d of %s' % (k, show(x)[:150], k, show(y)[:150])
        if zero_above and any(t != 0 for t in p[hi:]):
            return 'bits above %d are not 0: %s' % (hi, show(x)[:150])
    return None


def law(ck, S, wroot, rroot, r, w, wargs, rargs, mask=None, where=''):
    """write at 128*q+r, then read there"""
    kit = ck.kit
    I = kit.interp(unroll=140)
    args = kit.args(I, wroot)
    obj = args[0].a[0]
    q = isym(name('q'), 0, CHUNKS // 2)
    pos = addk(scale(q, 128), r)
    st, vec0 = S.at(I, obj, pos)
    val = args[1]
    a = [args[0], val] + wargs
    out = kit.run(I, wroot, a, st)
    tag = 'bit %d, width %d%s' % (r, w, where)
    need = lambda c, rule, d='': ck.need(c, rule, wroot + '/' + rroot, (tag + ' ' + d).strip())
    need(bool(out), 'the write returns')
    for s, _ in out:
        v = s.mem.get(obj)
        if v is None:
            need(w == 0, 'the write changes the stream')
            v = I.objval(st, obj)
        c1 = S.get(I, s, v, S.cur)
        need(same(I, s, c1, addk(pos, w)), 'a write moves the position by its width', show(c1)[:200])
        vec1 = S.get(I, s, v, S.vec)
        sj = s.assume(lt(SYM_J, q)).assume(lt(SYM_J, vec0.a[0]))
        if not I.P.infeasible_state(sj.facts):
            x = I.arr_select(sj, vec1.a[1], SYM_J)
            need(same(I, sj, x, I.arr_select(sj, vec0.a[1], SYM_J)), 'chunks before the position are unchanged', show(x)[:200])
            need(I.prove(sj, lt(SYM_J, vec1.a[0])), 'chunks before the position are kept')
        sq = s.assume(lt(q, vec0.a[0]))
        if r and not I.P.infeasible_state(sq.facts):
            need(I.prove(sq, lt(q, vec1.a[0])), 'the chunk at the position is kept')
            d = differ(I, sq, I.arr_select(sq, vec1.a[1], q), I.arr_select(sq, vec0.a[1], q), 0, r)
            need(d is None, 'bits before the position are unchanged', d or '')
        # read back
        s = s.copy()
        s.mem[obj] = I.update(s, v, S.cur, pos)
        for s2, x in kit.run(I, rroot, [args[0]] + rargs, s):
            c2 = S.get(I, s2, s2.mem[obj], S.cur)
            need(same(I, s2, c2, addk(pos, w)), 'a read moves the position by its width', show(c2)[:200])
            d = differ(I, s2, x, val, 0, w, zero_above=True)
            need(d is None, 'the bits written are read back', d or '')
    ck.safe(I, 'bit access cannot fail')
    ck.covered(I, wroot)
    ck.covered(I, rroot)


WIDTHS = (0, 1, 2, 3, 5, 8, 13, 14, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 126, 127, 128)


def laws(ck, all_pairs):
    S = setup(ck)

    def one(ck, r):
        ws = sorted(set(range(129) if all_pairs else WIDTHS) | {x for x in (127 - r, 128 - r, 129 - r) if 0 <= x <= 128})
        with ck.scope('write_bits/read_bits'):
            for w in ws:
                law(ck, S, 'root_s_write_bits', 'root_s_read_bits', r, w, [K(w)], [K(w)])
        with ck.scope('fixed widths'):
            for w in (8, 16, 32, 64, 128):
                law(ck, S, 'root_s_write%d' % w, 'root_s_read%d' % w, r, w, [], [])
        with ck.scope('single bits'):
            law(ck, S, 'root_s_write_bit', 'root_s_read_bit', r, 1, [], [])
            law(ck, S, 'root_s_write_bit', 'root_s_read_bits', r, 1, [], [K(1)])
            law(ck, S, 'root_s_write_bits', 'root_s_read_bit', r, 1, [K(1)], [])
    parallel(ck, one, range(128))


def writes(ck):
    """no write of the bit stream can fail, at any position, for any width"""
    S = setup(ck)

    def one(ck, r):
        for root, ws in (('root_s_write_bits', list(range(17)) + [31, 32, 33, 64, 127, 128]), ('root_s_write16', (None,)), ('root_s_write_bit', (None,))):
            for w in ws:
                I = ck.kit.interp(unroll=140)
                args = ck.kit.args(I, root)
                st, _ = S.at(I, args[0].a[0], addk(scale(isym(name('q'), 0, CHUNKS // 2), 128), r))
                ck.need(bool(ck.kit.run(I, root, [args[0], args[1]] + ([K(w)] if w is not None else []), st)), 'a write returns', root, 'bit %d, width %s' % (r, w))
                ck.safe(I, 'bit access cannot fail')
                ck.covered(I, root)
    parallel(ck, one, range(128))


# ------------------------------------------------------------------------------------------------------------ entropy code
BS = 'adhoc_audio::collections::bitstream::BitStream::'
RUN, TAPE = ('G', 'run'), ('G', 'tape')


def require(kit, *names):
    have = {i['def'] for i in (kit.p.insts.values() if isinstance(kit.p.insts, dict) else kit.p.insts)}
    for n in names:
        if n not in have:
            raise Missing(n)


def put_bit(st, b):
    if b == 1:
        st.mem[RUN] = addk(st.mem.get(RUN, ZERO), 1)
        return
    t = st.mem.get(TAPE, mk('tape0'))
    r = st.mem.get(RUN, ZERO)
    if r is not ZERO:
        t = mk('tape', t, 'ones', r)
        st.mem[RUN] = ZERO
    st.mem[TAPE] = mk('tape', t, 'bit', b if isinstance(b, int) else mk('bitof', b[0], b[1]))


def put_bits(st, v, n):
    for k in range(n):
        put_bit(st, bit(v, k))


def tape_writer(I):
    """write_bit and write_bits append to an abstract tape (what they do to the real one is C06)"""
    I.ghosts[RUN] = ZERO
    I.ghosts[TAPE] = mk('tape0')

    def write_bit(c):
        st = c.st.copy()
        put_bits(st, c.args[1], 1)
        return [(st, agg(c.dty, 0, []))]

    def write_bits(c):
        n = cval(c.args[2])
        c.oblige(le(c.args[2], K(128)), 'write_bits of more than 128 bits')
        st = c.st.copy()
        v = c.args[1]
        if n is None:
            ty = c.I.int_name(c.atys[1])
            w = INT[ty][0]
            if cval(v) != (1 << w) - 1:
                raise Gap('write_bits with a width that depends on the data')
            c.oblige(le(c.args[2], K(w)), 'write_bits of more ones than the value has')
            st = c.st.copy()
            st.mem[RUN] = add(st.mem.get(RUN, ZERO), c.args[2])
        else:
            put_bits(st, v, n)
        return [(st, agg(c.dty, 0, []))]
    I.opaque[BS + 'write_bit'] = write_bit
    I.opaque[BS + 'write_bits'] = write_bits


def tape_of(st):
    """the written bits, oldest first, a trailing run closed"""
    out = []
    if st.mem.get(RUN, ZERO) is not ZERO:
        out.append(('ones', st.mem[RUN]))
    t = st.mem.get(TAPE, mk('tape0'))
    while t.op == 'tape':
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t.op != 'tape0':
        out.append(('?', t))
    return out[::-1]


def code_cases(e):
    """(sign, quotient, remainder, value) covering every i16"""
    qh, rh = (1 << (15 - e)) - 1, (1 << e) - 1
    q = isym(name('quotient'), 0, qh) if qh else ZERO
    r = isym(name('remainder'), 0, rh)
    a = add(scale(q, 1 << e), r)
    yield 'value >= 0', 0, q, r, a, TRUE
    r1 = isym(name('remainder'), 1, rh)
    yield 'small value < 0', 1, ZERO, r1, neg(r1), TRUE
    if qh:
        q1 = isym(name('quotient'), 1, qh)
        yield 'value < 0', 1, q1, r, neg(add(scale(q1, 1 << e), r)), TRUE
    yield 'value = -32768', 1, K(1 << (15 - e)), ZERO, K(-32768), TRUE


def writer(ck, S, e):
    kit = ck.kit
    root = 'root_s_write_compressed'
    require(kit, BS + 'write_bit', BS + 'write_bits')
    for nm, sgn, q, r, v, pre in code_cases(e):
        I = kit.interp(unroll=140)
        tape_writer(I)
        args = kit.args(I, root)
        obj = args[0].a[0]
        pos = isym(name('pos'), 0, CHUNKS * 64)
        st, vec0 = S.at(I, obj, pos)
        st = st.assume(pre)
        v0 = I.objval(st, obj)
        out = kit.run(I, root, [args[0], K(e), v], st)
        # what must be on the tape
        ref = State({}, ROOT)
        put_bit(ref, sgn)
        ref.mem[RUN] = add(ref.mem.get(RUN, ZERO), q)
        put_bit(ref, 0)
        put_bits(ref, r, e)
        tag = 'exponent %d, %s' % (e, nm)
        ck.need(bool(out), 'the writer returns', root, tag)
        want = tape_of(ref)
        for s, _ in out:
            for s2, (t, run) in worlds(I, s, s.mem.get(TAPE, mk('tape0')), s.mem.get(RUN, ZERO)):
                g = State({TAPE: t, RUN: run}, s2.facts)
                have = tape_of(g)
                ok = len(have) == len(want)
                ok = ok and all(a[0] == b[0] and (same(I, s2, a[1], b[1]) if isinstance(a[1], T) and isinstance(b[1], T) else a[1] == b[1]) for a, b in zip(have, want))
                if not ok:
                    # an empty run may or may not be there
                    f = lambda l: [x for x in l if not (x[0] == 'ones' and same(I, s2, x[1], ZERO))]
                    h, w_ = f(have), f(want)
                    ok = len(h) == len(w_) and all(a[0] == b[0] and (same(I, s2, a[1], b[1]) if isinstance(a[1], T) and isinstance(b[1], T) else a[1] == b[1]) for a, b in zip(h, w_))
                ck.need(ok, 'the code of a value is its sign, one 1 per quotient, a 0, and the low bits of its magnitude', root,
                        '%s: %s instead of %s' % (tag, seq(have), seq(want)))
            if not same(I, s, s.mem.get(obj, v0), v0):
                ck.unknown('the writer changes the stream only through write_bit and write_bits', root, tag)
        ck.safe(I, 'the writer cannot fail')
        ck.covered(I, root)


def seq(l):
    return ' '.join('1*(%s)' % show(x) if k == 'ones' else show(x) if isinstance(x, T) else str(x) for k, x in l)[:500]


def tape_reader(I, S, start, sgn, q, r, e):
    """the bits of one code word lie at `start`; what follows is unknown"""
    def pos(c):
        from ..models import loc
        obj, path = loc(I, c.st, c.args[0])
        v = I.read(c.st, obj, path)
        # the receiver is the bit stream inside the audio stream
        k = len(S.cur) - 1
        cur = S.get(I, c.st, v, S.cur[k:])
        return obj, path + S.cur[k:], sub(cur, start)

    def bits_at(c, d, n):
        """[(state, value of the n bits at distance d)]"""
        out = []
        cd = cval(d)
        k = cval(sub(sub(d, q), K(2)))
        if k is None:
            k = next((x for x in range(0, e + 1) if I.prove(c.st, eq(d, addk(q, 2 + x)))), None)
        if cd == 0 and n == 1:
            return [(c.st, K(sgn))]
        # inside the unary part
        s_ones = c.st.assume(le(ONE, d)).assume(le(addk(d, n - 1), q))
        if not I.P.infeasible_state(s_ones.facts):
            out.append((s_ones, K((1 << n) - 1)))
        t = addk(sub(q, d), 1)                      # ones left
        if n == 128:
            s_end = c.st.assume(le(ONE, d)).assume(le(ZERO, t)).assume(lt(t, K(128)))
            if not I.P.infeasible_state(s_end.facts):
                out.append((s_end, A(mk('unary', t, name('code')))))
        else:
            s_zero = c.st.assume(eq(t, ZERO))
            if not I.P.infeasible_state(s_zero.facts):
                if n == 1:
                    out.append((s_zero, ZERO))
                else:
                    out.append((s_zero, scale(mod(r, K(1 << min(e, n - 1))), 2) if n - 1 <= e else I_unknown(n)))
            # mixed ones and the terminator
            s_mix = c.st.assume(le(ONE, d)).assume(le(ONE, t)).assume(lt(t, K(n)))
            if n > 1 and not I.P.infeasible_state(s_mix.facts):
                out.append((s_mix, I_unknown(n)))
        # the remainder
        if k is not None and 0 <= k <= e:
            del out[:]
            if k + n <= e or n == 0:
                out.append((c.st, mod(div(r, K(1 << k)), K(1 << n)) if n else ZERO))
            else:
                out.append((c.st, I_unknown(n)))
            return out
        s_rest = c.st.assume(lt(t, ZERO))
        if not I.P.infeasible_state(s_rest.facts):
            out.append((s_rest, I_unknown(n)))
        s_before = c.st.assume(lt(d, ONE))
        if not I.P.infeasible_state(s_before.facts):
            out.append((s_before, I_unknown(n)))
        return out

    def I_unknown(n):
        return isym(I.fresh('bits'), 0, (1 << n) - 1)

    def width(c, k):
        n = cval(c.args[k])
        if n is None:
            raise Gap('read of a width that depends on the data')
        c.oblige(le(c.args[k], K(128)), 'read of more than 128 bits')
        return n

    def advance(c, res, obj, path, n):
        out = []
        for s, v in res:
            s = s.copy()
            I.write(s, obj, path, addk(I.read(s, obj, path), n))
            out.append((s, v))
        return out

    def read_bit(c):
        obj, path, d = pos(c)
        return advance(c, bits_at(c, d, 1), obj, path, 1)

    def read_bits(c):
        n = width(c, 1)
        obj, path, d = pos(c)
        return advance(c, bits_at(c, d, n), obj, path, n)

    def peek_bits(c):
        n = width(c, 1)
        obj, path, d = pos(c)
        return bits_at(c, d, n)
    I.opaque[BS + 'read_bit'] = read_bit
    I.opaque[BS + 'read_bits'] = read_bits
    I.opaque[BS + 'peek_bits'] = peek_bits


def reader(ck, S, e):
    kit = ck.kit
    root = 'root_s_read_compressed'
    require(kit, BS + 'read_bit', BS + 'read_bits', BS + 'peek_bits')
    for nm, sgn, q, r, v, pre in code_cases(e):
        I = kit.interp(unroll=140)
        args = kit.args(I, root)
        obj = args[0].a[0]
        pos = isym(name('pos'), 0, CHUNKS * 64)
        st, vec0 = S.at(I, obj, pos)
        st = st.assume(pre)
        v0 = I.objval(st, obj)
        tape_reader(I, S, pos, sgn, q, r, e)
        out = kit.run(I, root, [args[0], K(e)], st)
        ck.gapped = ck.gapped or bool(I.gaps)
        tag = 'exponent %d, %s' % (e, nm)
        ck.need(bool(out), 'the reader returns', root, tag)
        for s, x in out:
            cur = S.get(I, s, s.mem.get(obj, v0), S.cur)
            for s2, (y, c2) in worlds(I, s, x, cur):
                ck.need(same(I, s2, y, v), 'the reader returns the value whose code is there', root, '%s: %s' % (tag, show(y)[:300]))
                ck.need(same(I, s2, c2, add(pos, addk(q, 2 + e))), 'the reader moves past exactly the code', root, '%s: %s' % (tag, show(c2)[:300]))
            w = S.get(I, s, s.mem.get(obj, v0), S.vec)
            ck.need(same(I, s, w, vec0), 'the reader does not change the stream', root, tag)
        ck.safe(I, 'the reader cannot fail')
        ck.covered(I, root)


def codes(ck, read=True):
    S = setup(ck)

    def one(ck, e):
        with ck.scope('write_compressed, exponent %d' % e):
            writer(ck, S, e)
        if read:
            with ck.scope('read_compressed, exponent %d' % e):
                reader(ck, S, e)
    parallel(ck, one, range(1, 16))
