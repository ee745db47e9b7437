"""AdhocCodec: obligations about files, start states and read-only calls, shared by several properties."""
import re

from ..kit import *
from . import adhocio
from .adhocio import Adhoc, wire, PRIMS, ELEM, size_of
from .wavparts import SYM_K, settle, is_err


class Run:
    """one analysed call on an AdhocCodec that satisfies the representation invariant (or on an arbitrary one)"""

    def __init__(self, ck, root, inv=True, setup=None, values=None, install=True, args=None, split=True, **kw):
        self.ck, self.kit, self.root = ck, ck.kit, root
        I = self.I = ck.kit.interp()
        I.keep_split = split
        A = self.A = Adhoc(ck.kit)
        if install:
            adhocio.install(ck.kit, I, values)
        self.args = ck.kit.args(I, root)
        st = State({}, ROOT)
        self.obj = None
        self.P = {}
        if self.args and self.args[0].op == 'ref' and ck.kit.argty(root, 0) in I.p.types:
            t = I.p.types[ck.kit.argty(root, 0)]
            if t['k'] == 'ref' and t['e'] == A.ty:
                self.obj = self.args[0].a[0]
                if inv:
                    st, self.P = A.make(I, st, self.obj, **kw)
                else:
                    I.objval(st, self.obj)
        if setup:
            st = setup(self, st)
        self.st0 = st
        self.v0 = st.mem.get(self.obj)
        if self.obj is not None and self.v0 is None:
            self.v0 = I.objval(st, self.obj)
        self.out = ck.kit.run(I, root, args(self) if args else self.args, st)
        ck.covered(I, root)

    def post(self, s):
        return s.mem.get(self.obj, self.v0)

    def outcomes(self):
        """(state, variant, payload) with the I/O history split as well"""
        out = []
        for s, v in self.out:
            for s2, e in chains(self.I, s, s.mem.get(('G', 'io'), mk('io0'))):
                for s3, x in cases(self.I, s2, v):
                    s3 = s3.copy()
                    s3.mem[('G', 'io')] = e
                    out.append((s3, variant(self.I, x) if x.op == 'agg' else None, x.a[2][0] if x.op == 'agg' and x.a[2] else None))
        return out


def chains(I, s, e):
    """the event chains a gated chain stands for: [(state, chain)]"""
    out = []
    for s2, x in cases(I, s, e):
        if x.op == 'io':
            out += [(s3, mk('io', p, x.a[1])) for s3, p in chains(I, s2, x.a[0])]
        else:
            out.append((s2, x))
    return out


def tops(I, s, run):
    """the value returned with success, gates resolved"""
    return [(s2, x) for s2, x in cases(I, s, run)]


# ------------------------------------------------------------------------------------------------------------ save_to
# what version 0.1.3 writes: (wire type, place in the codec); '?' stands for the tag of the optional stream info
FORMAT = [('u32', 'compression_level'), ('Vec<u8>', 'frame_header_list.divisor_exp_list.data'), ('u32', 'frame_header_list.divisor_exp_list.nibble_count'),
          ('Vec<u64>', 'frame_header_list.is_init_frame_list.binary'), ('u128', 'frame_header_list.is_init_frame_list.bit_cursor'),
          ('Vec<u16>', 'frame_header_list.frame_size_list'), ('Vec<u64>', 'frame_header_list.bit_cursor_list'), ('Vec<[i16; 3]>', 'frame_header_list.stack_history_list'),
          ('u32', 'frame_header_list.header_cursor'), ('u8', '?'), ('u32', 'stream.info.sample_rate'), ('u32', 'stream.info.channels'),
          ('Vec<u128>', 'stream.stream.binary'), ('u128', 'stream.stream.bit_cursor'), ('u128', 'stream.stream.capacity')]


def items(I, s, root, ck):
    """the values handed to the serialiser on the path: [(wire type, value or (length, array))], or None"""
    out = []
    for e in events(s):
        if e.op == 's':
            w, n, v = e.a
            out.append((w, v if not w.startswith('Vec<') else mk('vec', n, v)))
        elif e.op == 'w' and e.a[0] in ('write_all', 'write') and adhocio.written(I, s, e.a[1], e.a[2]) is not None:
            evs = adhocio.written(I, s, e.a[1], e.a[2])
            out += [(x.a[0], x.a[2] if not x.a[0].startswith('Vec<') else mk('vec', x.a[1], x.a[2])) for x in evs]
        elif e.op == 'w' and e.a[0] in ('write_all', 'write'):
            n = cval(e.a[2])
            if n is None or n > 16:
                return None
            for k in range(n):
                out.append(('u8', I.simp(s, I.arr_select(s, e.a[1], K(k)))))
        elif e.op == 'w':
            continue
        else:
            return None
    return out


def places(I, v, path='', depth=0):
    """every stored component of a codec: {dotted field path: value}, descending into structs of the crate"""
    out = {}
    x = I.expand(v) if v.op == 'sym' else v
    if x.op == 'agg' and I.p.types[x.a[0]].get('k') == 'adt' and depth < 6:
        t = I.p.types[x.a[0]]
        if t['adt'] == 'struct' or len(t['v'][x.a[1]]['f']) == 1 and t['name'] == 'std::option::Option':
            fs = t['v'][x.a[1]]['f']
            for i, f in enumerate(x.a[2]):
                q = path if t['adt'] != 'struct' else (path + '.' + fs[i][0]).strip('.')
                out.update(places(I, f, q, depth + 1))
            return out
    out[path] = x
    return out


def save_runs(ck, with_info=True, **kw):
    """successful and failing outcomes of save_to on an arbitrary codec: (run, outcomes)"""
    pre(ck)
    R = Run(ck, 'root_a_save', with_info=with_info, **kw)
    return R, R.outcomes()


def pre(ck):
    ck.assume('stream info with 1 to 65535 channels; at most 2^31 frames and 2^41 chunks of bit data (addressable memory); allocation succeeds')
    ck.assume('serde and bincode (de)serialise integers, vectors, options and structs of fixed-width integers as documented')


def save_io(ck):
    """C15: no error lost, nothing partial"""
    R, outs = save_runs(ck)
    I = R.I
    n = 0
    for s, var, p in outs:
        if var == 'Some':
            n += 1
            ck.need(is_err(I, s) is False, 'Some is returned only when no write failed', R.root, show(s.mem.get(('G', 'ioerr'), FALSE))[:300])
            ck.need(lost(I, s) is FALSE, 'on success nothing is left in a buffer whose errors nobody sees', R.root, show(lost(I, s))[:100])
        for e in events(s):
            if e.op == 'w':
                ck.need(e.a[0] in ('write_all', 'flush'), 'every byte range is handed over completely (write_all)', R.root, show(e)[:200])
            elif e.op == 's':
                ck.need(True, 'the serialiser writes each value with write_all and reports its error', R.root, e.a[0])
    ck.need(n > 0, 'save_to can succeed', R.root)
    ck.safe(I, 'save_to cannot fail otherwise than by returning None')


def format_(ck):
    """C01: the sequence and the places of the values written"""
    R, outs = save_runs(ck)
    I = R.I
    P0 = places(I, R.v0)
    pinned = {q for _, q in FORMAT}
    ok_runs = []
    for s, var, p in outs:
        if var != 'Some':
            continue
        it = items(I, s, R.root, ck)
        if it is None:
            ck.unknown('the values written are those of the format', R.root, 'bytes are written past the serialiser')
            continue
        ck.need([w for w, _ in it] == [w for w, _ in FORMAT], 'the sequence of values and their widths is the one of version 0.1.3', R.root, ', '.join(w for w, _ in it))
        if [w for w, _ in it] != [w for w, _ in FORMAT]:
            continue
        ok_runs.append((s, it))
        for (w, x), (_, place) in zip(it, FORMAT):
            if place == '?':
                ck.need(same(I, s, x, ONE), 'the stream info is marked as present', R.root, show(x)[:100])
                continue
            at = [q for q, y in P0.items() if same(I, s, x, y)]
            if place in at or place not in P0:
                ck.need(True, 'every value is the one version 0.1.3 stores there', R.root, '%s: %s' % (place, at))
            elif any(q in pinned for q in at):
                ck.need(False, 'every value is the one version 0.1.3 stores there', R.root, '%s expected, %s written' % (place, at))
            elif place.endswith('_cursor') and not place.endswith('is_init_frame_list.bit_cursor'):
                ck.need(True, 'every value is the one version 0.1.3 stores there', R.root, '%s: a read position, ignored by load' % place)
            else:
                ck.unknown('every value is the one version 0.1.3 stores there', R.root, '%s: %s' % (place, show(x)[:200]))
    ck.need(bool(ok_runs), 'save_to can succeed', R.root)
    return R, ok_runs


SCRATCH = ('f32', 'f64')


def roundtrip(ck):
    """C01: load applied to what save_to wrote gives back every stored value"""
    R, outs = save_runs(ck, blocks=True)
    n = 0
    for s, var, p in outs:
        if var != 'Some':
            continue
        it = items(R.I, s, R.root, ck)
        if it is None:
            ck.unknown('load reads back what save_to wrote', R.root, 'bytes are written past the serialiser')
            continue
        n += 1
        facts = [l for l in s.facts.known()]

        def setup(L, st):
            for l in facts:
                st = st.assume(l)
            return st
        L = Run(ck, 'root_a_load', setup=setup, values=it)
        I = L.I
        start = starts(ck)
        reading = [v for w, v in it]
        good = 0
        for s2, var2, codec in L.outcomes():
            if I.P.infeasible_state(s2.facts):
                continue
            used = s2.mem.get(('G', 'nd'), ZERO)
            if var2 != 'Some':
                ck.need(is_err(I, s2) is True, 'a saved codec is refused only after an i/o error', L.root, 'load refuses it: %s' % [show(f)[:80] for f in s2.facts.known()][-4:])
                continue
            good += 1
            ck.need(same(I, s2, used, K(len(it))), 'load reads every value that was written', L.root, '%s of %d' % (show(used), len(it)))
            for t in s2.mem.get(('G', 'mismatch'), mk('io0')), :
                bad = list(chain(t))
                for x in bad:
                    ck.need(False, 'load reads the value with the type and encoding it was written with', L.root, show(x))
                if not bad:
                    ck.need(True, 'load reads the value with the type and encoding it was written with', L.root)
            P0, P1 = places(R.I, R.v0), places(I, codec)
            for q, y in sorted(P0.items()):
                if scratch(ck, I, q):
                    continue
                x = P1.get(q)
                if x is None:
                    ck.unknown('every stored value is restored', L.root, q)
                    continue
                okk = same(I, s2, x, y) or vec_same(I, s2, x, y)
                if not okk and q in start:
                    ck.need(same(I, s2, x, start[q]), 'every stored value is restored, and read positions are at the start', L.root, '%s: %s' % (q, show(x)[:200]))
                else:
                    ck.need(okk, 'every stored value is restored to the place it was saved from', L.root, '%s: %s' % (q, show(x)[:200]))
        ck.need(good > 0, 'a saved codec can be loaded', L.root)
    ck.need(n > 0, 'save_to can succeed', R.root)


def vec_same(I, s, x, y):
    """two vectors with the same elements"""
    if x.op != 'vec' or y.op != 'vec' or not same(I, s, x.a[0], y.a[0]):
        return False
    if x.a[1] is y.a[1]:
        return True
    s2 = s.assume(lt(SYM_K, x.a[0]))
    return I.P.infeasible_state(s2.facts) or same(I, s2, I.arr_select(s2, x.a[1], SYM_K), I.arr_select(s2, y.a[1], SYM_K))


def chain(t):
    while t.op == 'io':
        yield t.a[1]
        t = t.a[0]


def scratch(ck, I, path):
    """components that are working memory or derived from the level: not part of the file"""
    kit = ck.kit
    A = Adhoc(kit)
    fs = kit.fields(A.ty)
    nm = path.split('.')[0]
    i = next((k for k, (n, t) in enumerate(fs) if n == nm), None)
    if i is None:
        return False
    t = I.p.types[fs[i][1]]
    if i == A.states or t['s'] in SCRATCH:
        return True
    if t['k'] == 'adt' and t['name'] == 'std::vec::Vec' and I.p.types[t['targs'][0]]['s'] in SCRATCH:
        return True
    return t['k'] == 'adt' and t['name'].split('::')[-1] == 'PseudoRandom'


def starts(ck):
    """the components init() sets to a constant: {path: value} (read positions)"""
    R = Run(ck, 'root_a_init')
    out = None
    for s, _ in R.out:
        P0, P1 = places(R.I, R.v0), places(R.I, R.post(s))
        d = {q: x for q, x in P1.items() if q in P0 and x is not P0[q] and x.op == 'poly' and cval(x) is not None}
        out = d if out is None else {q: x for q, x in out.items() if q in d and d[q] is x}
    return out or {}


# ------------------------------------------------------------------------------------------------------------ load
def load(ck, topics):
    """topics: safe, ranked, range, start, io"""
    pre(ck)
    L = Run(ck, 'root_a_load')
    I, A = L.I, L.A
    if 'safe' in topics:
        ck.safe(I, 'load cannot panic')
    if 'ranked' in topics:
        ck.ranked(I, 'every loop of load makes progress')
    n = 0
    for s, var, c in L.outcomes():
        if 'io' in topics:
            if var == 'Some':
                ck.need(is_err(I, s) is False, 'Some is returned only when no read failed', L.root, show(s.mem.get(('G', 'ioerr'), FALSE))[:200])
            for e in events(s):
                if e.op == 'r':
                    ck.need(e.a[0] != 'read', 'no read that may deliver less is taken as complete', L.root, show(e)[:160])
        if var != 'Some':
            continue
        n += 1
        oi = A.get(I, s, c, A.stream, A.info)
        oi = I.resolve_ite(s, oi)
        has = oi.op == 'agg' and variant(I, oi) == 'Some'
        ch = ck.kit.info_get(I, s, oi.a[2][0], 'channels') if has else None
        heads = A.get(I, s, c, A.heads)
        lens = A.T.lens(I, s, heads)
        lv = A.get(I, s, c, A.level)
        if 'range' in topics:
            ck.need(has, 'a loaded codec has stream info', L.root, show(oi)[:200])
            if has:
                ck.need(I.prove(s, le(ONE, ch)) and I.prove(s, le(ch, K(65535))), 'a loaded codec has 1 to 65535 channels', L.root, show(ch)[:200])
            ck.need(I.prove(s, le(lv, K(10))) and I.prove(s, le(ZERO, lv)), 'a loaded codec has a compression level of 0 to 10', L.root, show(lv)[:200])
            ref = lens['size column']
            for nm, x in lens.items():
                ck.need(same(I, s, x, ref) or I.prove(s, eq(x, ref)), 'the header columns of a loaded codec have equal lengths', L.root, '%s: %s' % (nm, show(x)[:160]))
            nd = A.T.get(I, s, heads, A.T.f_nib, A.T.n_data).a[0]
            bd = A.T.get(I, s, heads, A.T.f_bit, A.T.b_data).a[0]
            ck.need(I.prove(s, le(lens['exponent column'], scale(nd, 2))) and I.prove(s, le(lens['init column'], scale(bd, 64))), 'the packed columns have room for their entries', L.root, '%s %s' % (show(nd)[:100], show(bd)[:100]))
        if 'start' in topics:
            ck.need(same(I, s, A.get(I, s, heads, A.T.f_cur), ZERO), 'the next frame of a loaded codec is the first one', L.root, show(A.get(I, s, heads, A.T.f_cur))[:160])
            pos = A.get(I, s, c, A.stream, *A.S.cur)
            ck.need(same(I, s, pos, ZERO), 'the bit position of a loaded codec is 0', L.root, show(pos)[:160])
            fresh_states(ck, L, s, c, ch)
            up, down = A.gains()
            for l in range(11):
                s2 = s.assume(eq(lv, K(l)))
                if I.P.infeasible_state(s2.facts):
                    continue
                x, y = (specialise(I, s2, A.get(I, s2, c, g)) for g in (up, down))
                ck.need(fval(x) == float(1 << l), 'the decode gain of a loaded codec is 2^level', L.root, 'level %d: %s' % (l, show(x)[:160]))
                ck.need(fval(y) == 1.0 / (1 << l), 'the encode gain of a loaded codec is 1/2^level', L.root, 'level %d: %s' % (l, show(y)[:160]))
    ck.need(n > 0, 'load can succeed', L.root)


def fresh_states(ck, L, s, c, ch, rule='a loaded codec has one fresh predictor per channel'):
    """one predictor per channel, each like a new one"""
    I, A = L.I, L.A
    v = I.resolve(s, A.get(I, s, c, A.states))
    v = I.expand(v)
    if v.op != 'vec':
        ck.unknown(rule, L.root, show(v)[:200])
        return
    ck.need(ch is not None and same(I, s, v.a[0], ch), rule, L.root, 'number of predictors: %s' % show(v.a[0])[:160])
    s2 = s.assume(lt(SYM_K, v.a[0]))
    if I.P.infeasible_state(s2.facts):
        return
    x = I.arr_select(s2, v.a[1], SYM_K)
    new = new_state(ck)
    for q, (a, b) in pairs(I, s2, x, new).items():
        if a.op == 'deq' and b.op == 'deq':
            ck.need(same(I, s2, a.a[1], ZERO), rule, L.root, 'buffered samples of predictor k: %s' % show(a.a[1])[:200])
        else:
            ck.need(same(I, s2, a, b) or arr_same(I, s2, a, b), rule, L.root, '%s of predictor k: %s' % (q, show(a)[:200]))


def arr_same(I, s, a, b):
    if b.op == 'arrc' or a.op == 'arrc':
        n = len((b if b.op == 'arrc' else a).a[1])
        return all(same(I, s, I.arr_select(s, a, K(k)), I.arr_select(s, b, K(k))) for k in range(n))
    return False


def pairs(I, s, a, b, path=''):
    """components of two values of the same struct type"""
    a, b = I.resolve(s, a), I.resolve(s, b)
    a = I.expand(a) if a.op == 'sym' else a
    if b.op == 'agg' and I.p.types[b.a[0]].get('adt') == 'struct':
        out = {}
        for i, y in enumerate(b.a[2]):
            nm = I.p.types[b.a[0]]['v'][0]['f'][i][0]
            out.update(pairs(I, s, I.project(s, a, ('f', i)), y, (path + '.' + nm).strip('.')))
        return out
    return {path: (a, b)}


def new_state(ck):
    """the value of FrameCodec::new()"""
    I = ck.kit.interp()
    (s, v), = ck.kit.run(I, 'root_f_new', [], State({}, ROOT))
    return v


# ---------------------------------------------------------------------------------------------- size and read-only calls
def bound(ck):
    """C18: filesize_upperbound covers what save_to writes"""
    pre(ck)
    for with_info in (True, False):
        R = Run(ck, 'root_a_save', with_info=with_info)
        B = Run(ck, 'root_a_bound', with_info=with_info)
        ck.safe(B.I, 'the bound is computed without overflow')
        n = 0
        for s, var, p in R.outcomes():
            if var != 'Some':
                continue
            total = ZERO
            for e in events(s):
                if e.op == 's':
                    if e.a[0] not in ELEM and e.a[0] not in PRIMS and not re.match(r'\[\w+; \d+\]$', e.a[0]):
                        raise Gap('wire type ' + e.a[0])
                    total = add(total, size_of(e))
                elif e.op == 'w' and e.a[0] != 'flush':
                    total = add(total, e.a[2])
            for s2, v in B.out:
                for s3, x in cases(B.I, s2, v):
                    st = s
                    for f in s3.facts.known():
                        st = st.assume(f)
                    if R.I.P.infeasible_state(st.facts):
                        continue
                    n += 1
                    ck.need(R.I.prove(st, le(scale(total, 8), x)), 'filesize_upperbound is at least 8 times the bytes written', B.root, 'bound %s, written %s' % (show(x)[:400], show(total)[:300]))
        ck.need(n > 0, 'a size and a bound were found', B.root)


def readonly(ck):
    """C21: the codec is the same after the call, on every path"""
    pre(ck)
    for root in ('root_a_info', 'root_a_info2', 'root_a_bound', 'root_a_count', 'root_a_save'):
        R = Run(ck, root)
        n = 0
        P0 = places(R.I, R.v0)
        for s, v in R.out:
            x = R.post(s)
            n += 1
            if x is R.v0:
                ck.need(True, 'the codec is unchanged', root)
                continue
            P1 = places(R.I, x)
            for q, y in sorted(P0.items()):
                z = P1.get(q)
                ck.need(z is not None and (same(R.I, s, z, y) or vec_same(R.I, s, z, y)), 'the codec is unchanged', root, '%s becomes %s' % (q, show(z)[:300] if z is not None else None))
        ck.need(n > 0, 'the call returns', root)
        for s, v in R.out:
            for o, x in s.mem.items():
                if o[0] == 'D' and o != R.obj and root != 'root_a_save':
                    ck.need(x is R.I.objval(R.st0, o), 'no other object is changed', root, str(o))
        if root in ('root_a_info', 'root_a_info2'):
            for s, v in R.out:
                ck.need(same(R.I, s, v, R.P['info']), 'info returns the stream info', root, show(v)[:200])


# ------------------------------------------------------------------------------------------------------------ gains
def gains(ck):
    """level and gains after every way to make or set up a codec"""
    kit = ck.kit
    A = Adhoc(kit)
    up, down = A.gains()

    def at(I, s, root, v, l, what):
        lv, x, y = (specialise(I, s, A.get(I, s, v, i)) for i in (A.level, up, down))
        part = lambda t: K(l) if t.op == 'poly' and cval(t) is None and I.prove(s, eq(t, K(l))) else None
        lv, x, y = (rebuild(t, part, {}) for t in (lv, x, y))
        ck.need(same(I, s, lv, K(l)), what + ': the level is the requested one, limited to 10', root, 'level %s, expected %d' % (show(lv)[:100], l))
        ck.need(fval(x) == float(1 << l), what + ': the decode gain is 2^level', root, 'level %d: %s' % (l, show(x)[:160]))
        ck.need(fval(y) == 1.0 / (1 << l), what + ': the encode gain is 1/2^level', root, 'level %d: %s' % (l, show(y)[:160]))

    def go(root, args, st, f, what):
        I = kit.interp()
        a = args(I)
        n = 0
        for s, v in kit.run(I, root, a, st(I, a) if st else State({}, ROOT)):
            for s2, x in cases(I, s, v):
                if I.P.infeasible_state(s2.facts):
                    continue
                n += 1
                f(I, s2, I.expand(x) if x.op == 'sym' else x, a)
        ck.covered(I, root)
        ck.safe(I, what + ' cannot panic')
        ck.need(n > 0, what + ' returns', root)
    with ck.scope('AdhocCodec::new'):
        go('root_a_new', lambda I: [], None, lambda I, s, v, a: at(I, s, 'root_a_new', v, 0, 'new'), 'new')
    with ck.scope('with_compression_level'):
        for l in range(11):
            go('root_a_level', lambda I: [kit.args(I, 'root_a_level')[0], K(l)], None, lambda I, s, v, a: at(I, s, 'root_a_level', v, l, 'with_compression_level'), 'with_compression_level')
        go('root_a_level', lambda I: kit.args(I, 'root_a_level'), lambda I, a: State({}, ROOT).assume(le(K(11), a[1])),
           lambda I, s, v, a: at(I, s, 'root_a_level', v, 10, 'with_compression_level above 10'), 'with_compression_level')
    with ck.scope('load'):
        load(ck, ('start',))

    def kept(I, s, root, v, v0, what):
        for i in (A.level, up, down):
            x, y = A.get(I, s, v, i), A.get(I, s, v0, i)
            ck.need(same(I, s, x, y), what + ' leaves level and gains as they are', root, '%s becomes %s' % (kit.fields(A.ty)[i][0], show(x)[:160]))
    with ck.scope('with_info'):
        go('root_a_with_info', lambda I: kit.args(I, 'root_a_with_info'), limit_info, lambda I, s, v, a: kept(I, s, 'root_a_with_info', v, a[0], 'with_info'), 'with_info')
    for root, what in (('root_a_set_info', 'set_info'), ('root_a_init', 'init')):
        with ck.scope(what):
            R = Run(ck, root, blocks=True, setup=(lambda R, st: limit_info(R.I, R.args, st)) if what == 'set_info' else None)
            for s, v in R.out:
                kept(R.I, s, root, R.post(s), R.v0, what)


def limit_info(I, args, st=None):
    """the stream info passed in has at most 65535 channels"""
    st = st or State({}, ROOT)
    v = I.expand(args[1]) if args[1].op == 'sym' else args[1]
    for x in v.a[2]:
        st = st.assume(le(x, K(65535))) if x.op == 'poly' and I.p.types[v.a[0]]['v'][0]['f'][list(v.a[2]).index(x)][0] == 'channels' else st
    return st


def init(ck):
    """C26: init goes back to the start of everything"""
    pre(ck)
    R = Run(ck, 'root_a_init', with_info=True)
    I, A = R.I, R.A
    n = 0
    for s, v in R.out:
        n += 1
        post = R.post(s)
        for what, got in (('the position in the table of frames', A.get(I, s, post, A.heads, A.T.f_cur)), ('the position in the bit stream', A.get(I, s, post, A.stream, *A.S.cur))):
            ck.need(same(I, s, got, ZERO), 'init goes back to 0: ' + what, R.root, show(got)[:200])
        fresh_states(ck, R, s, post, R.P['ch'], 'init makes the predictor of every channel like a new one')
        for i in [(A.level,)] + [(g,) for g in A.gains()] + [(A.stream, A.info)]:
            ck.need(same(I, s, A.get(I, s, post, *i), A.get(I, s, R.v0, *i)), 'init keeps stream info, level and gains', R.root, show(A.get(I, s, post, *i))[:200])
    ck.need(n > 0, 'init returns', R.root)
    ck.safe(I, 'init cannot panic')
