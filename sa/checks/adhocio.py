"""AdhocCodec files: what save_to hands to the serialiser and where load puts what it reads, value by value."""
import re

from ..kit import *
from ..models import get, norm, loc
from ..kit import PENDING

PRIMS = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16, 'f32': 4, 'f64': 8, 'usize': 8, 'isize': 8, 'bool': 1}
SER = re.compile(r'^serde(_core)?::ser::impls::<impl serde(_core)?::ser::Serialize for (.*)>::serialize$')
DE = re.compile(r"^serde(_core)?::de::impls::<impl serde(_core)?::de::Deserialize<'de> for (.*)>::deserialize$")


ELEM = {'Vec<u8>': 1, 'Vec<u16>': 2, 'Vec<u64>': 8, 'Vec<u128>': 16, 'Vec<[i16; 3]>': 6, 'Vec<u32>': 4, 'Vec<i16>': 2}
ANYW = re.compile(r'^(&mut )*(\w+::)*AnyWriter$')
BUFW = re.compile(r'^(&mut )*std::io::BufWriter<(&mut )*(\w+::)*AnyWriter>$')
VECW = re.compile(r'^(&mut )*std::vec::Vec<u8>$')


def written(I, st, arr, n):
    """the serialiser events that produced the first n bytes of an in-memory buffer, or None"""
    tail = []
    while arr.op == 'store' and I.arr_ety(arr) is not None and len(tail) < 64:
        tail.append((arr.a[1], arr.a[2]))
        arr = arr.a[0]
    evs = I.serbuf.get(arr)
    if evs is None:
        return None
    total = ZERO
    for x in evs:
        total = add(total, size_of(x))
    for k, v in reversed(tail):
        if not I.prove(st, eq(k, total)):
            return None
        evs += (mk('s', 'u8', ONE, v),)
        total = addk(total, 1)
    return evs if I.prove(st, eq(total, n)) else None


def size_of(ev):
    """bytes of one serialised value"""
    w, n = ev.a[0], ev.a[1]
    if w.startswith('Vec<'):
        return addk(scale(n, ELEM[w]), 8)
    m = re.match(r'\[(\w+); (\d+)\]$', w)
    return K(PRIMS[m.group(1)] * int(m.group(2)) if m else PRIMS[w])


def wire(p, ty):
    """(description, bytes) of a type with a fixed width on the wire, or None"""
    t = p.types[ty]
    if t['s'] in PRIMS:
        return t['s'], PRIMS[t['s']]
    if t['k'] == 'array':
        e = wire(p, t['e'])
        n = t.get('n')
        if e and isinstance(n, int):
            return '[%s; %d]' % (e[0], n), e[1] * n
    return None


def backend(p, ty):
    """('ser' or 'size' or 'de', writer/reader type, options) of a (de)serialiser type"""
    t = p.types[ty]
    while t['k'] == 'ref':
        t = p.types[t['e']]
    s = t['s']
    if t['k'] == 'adt' and t['name'].startswith('bincode::ser::SizeChecker'):
        return 'size', None, p.types[t['targs'][0]]['s']
    if t['k'] == 'adt' and t['name'].startswith('bincode::ser::Serializer'):
        return 'ser', p.types[t['targs'][0]]['s'], p.types[t['targs'][1]]['s']
    if t['k'] == 'adt' and t['name'].startswith('bincode::de::Deserializer'):
        return 'de', p.types[t['targs'][0]]['s'], p.types[t['targs'][1]]['s']
    return None, None, s


def fixed_int(opts):
    """do the options encode integers in fixed width, little-endian?"""
    return 'FixintEncoding' in opts and 'BigEndian' not in opts and 'NativeEndian' not in opts


def install(kit, I, values=None):
    """values: what the deserialiser delivers, in order (None: nothing is known about it)"""
    p = kit.p
    I.ghosts[('G', 'nd')] = ZERO
    I.ghosts[('G', 'mismatch')] = mk('io0')
    I.serbuf = {}

    def unit_ok(c):
        return agg(variant_ty(I, c.dty, 'Ok'), 0, [])

    def done(c, ev):
        kind, w, opts = backend(p, c.targs[-1])
        good = agg(variant_ty(I, c.dty, 'Ok'), 0, [])
        if kind == 'size':
            return [(c.st, ok(I, c.dty, good))]
        if kind != 'ser':
            raise Gap('serialiser ' + opts)
        if not fixed_int(opts):
            ev = mk('s', 'encoding ' + opts, *ev.a[1:])
        if VECW.match(w):
            return [(into_buffer(c, ev), ok(I, c.dty, good))]
        st = io_event(c, c.st, ev)
        if BUFW.match(w):
            rs = io_result(c, st, good)
            for s, r in rs:
                s.mem[PENDING] = TRUE
            return rs
        if not ANYW.match(w):
            raise Gap('writer ' + w)
        return io_result(c, st, good)

    def into_buffer(c, ev):
        """serialising into a vector: the bytes are new symbols that stand for the values written so far"""
        st = c.st.copy()
        ser = norm(I, st, c.args[1])
        o, p = loc(I, st, ser)
        for _ in range(8):
            v = I.read(st, o, p)
            v = I.expand(v) if v.op == 'sym' else v
            if v.op == 'ref':
                o, p = loc(I, st, v)
            elif v.op == 'agg' and v.a[2]:
                p = p + (('f', 0),)
            else:
                break
        if v.op != 'vec':
            raise Gap('buffer of a serialiser')
        done = () if v.a[0] is ZERO else written(I, st, v.a[1], v.a[0])
        if done is None:
            raise Gap('buffer of a serialiser')
        arr = mk('arrsym', I.arr_ety(v.a[1]), I.fresh('serialised'))
        I.serbuf[arr] = done + (ev,)
        I.write(st, o, p, mk('vec', add(v.a[0], size_of(ev)), arr))
        return st

    def prim(c):
        ty = p.types[c.atys[0]]['e']
        w = wire(p, ty)
        return done(c, mk('s', w[0], ONE, get(I, c.st, c.args[0])))

    def vec(c):
        e = p.types[p.types[c.atys[0]]['e']]['targs'][0]
        w = wire(p, e)
        if w is None:
            raise Gap('vector of ' + p.types[e]['s'])
        v = I.expand(get(I, c.st, c.args[0]))
        if v.op != 'vec':
            raise Gap('vector ' + v.op)
        return done(c, mk('s', 'Vec<%s>' % w[0], v.a[0], v.a[1]))

    # ---- reading: every value is a new symbol, numbered in the order of reading
    def fresh(c, ty, what):
        st = c.st.copy()
        n = st.mem.get(('G', 'nd'), ZERO)
        st.mem[('G', 'nd')] = addk(n, 1)
        kind, r, opts = backend(p, c.targs[-1])
        if kind != 'de':
            raise Gap('deserialiser ' + opts)
        if 'AnyReader' not in r and 'SliceReader' not in r:
            raise Gap('reader ' + r)
        if not fixed_int(opts):
            what = 'encoding ' + opts
        if 'Bounded' in opts:
            what = 'limited to ' + opts
        if values is None:
            v = I.mk_sym(ty, I.fresh('wire'))
        else:
            k = cval(n)
            if k is None:
                raise Gap('reading position')
            if k < len(values) and values[k][0] == what:
                v = values[k][1]
            else:
                v = I.mk_sym(ty, I.fresh('wire'))
                st.mem[('G', 'mismatch')] = mk('io', st.mem.get(('G', 'mismatch'), mk('io0')), mk('d', 'value %d is read as %s, written as %s' % (k, what, values[k][0] if k < len(values) else 'nothing'), ZERO))
        return io_event(c, st, mk('d', what, v)), v

    def de_result(c, st, v):
        if 'AnyReader' in backend(p, c.targs[-1])[1]:
            return io_result(c, st, v)
        # reading from memory: refused when the bytes are used up
        n = cval(st.mem.get(('G', 'nd'), ZERO))
        good = ok(I, c.dty, v)
        if values is not None and n is not None and n <= len(values):
            return [(st, good)]
        b = mk('bsym', I.fresh('short'))
        return [(st.assume(b), good), (st.assume(bnot(b)), err(I, c.dty, I.mk_sym(variant_ty(I, c.dty, 'Err'), I.fresh('error'))))]

    def de_prim(c):
        ty = variant_ty(I, c.dty, 'Ok')
        w = wire(p, ty)
        st, v = fresh(c, ty, w[0])
        return de_result(c, st, v)

    def de_vec(c):
        ty = variant_ty(I, c.dty, 'Ok')
        w = wire(p, p.types[ty]['targs'][0])
        if w is None:
            raise Gap('vector of ' + p.types[p.types[ty]['targs'][0]]['s'])
        st, v = fresh(c, ty, 'Vec<%s>' % w[0])
        v = I.expand(v)
        return de_result(c, st.assume(le(v.a[0], K(LEN_MAX))), v)

    I.opaque['bincode::error::<impl std::convert::From<std::io::Error> for std::boxed::Box<bincode::error::ErrorKind>>::from'] = \
        lambda c: c.ret(I.mk_sym(c.dty, I.fresh('error')))
    for i in p.insts:
        for rx, h1, h2 in ((SER, prim, vec), (DE, de_prim, de_vec)):
            m = rx.match(i['def'])
            if m:
                s = m.group(3)
                if s in PRIMS or re.match(r'\[T; \d+\]$', s):
                    I.opaque[i['def']] = h1
                elif s.startswith('std::vec::Vec<'):
                    I.opaque[i['def']] = h2



FRAMES = 1 << 31
CHUNKS = 1 << 41


# ------------------------------------------------------------------------------------------------------------ the codec
class Adhoc:
    """view of AdhocCodec values"""

    def __init__(self, kit):
        from .headers import Table
        from .bits import Stream
        self.kit = kit
        f = kit.field
        self.ty = ty = kit.ty('AdhocCodec')
        self.heads = f(ty, kit.is_adt('FrameHeaders'))
        self.states = f(ty, kit.is_vec(kit.is_adt('FrameCodec')))
        self.stream = f(ty, kit.is_adt('AudioStream'))
        self.level = f(ty, lambda t: t['s'] == 'u32', 'compression_level')
        self.T = Table(kit)
        self.S = Stream(kit)
        sty = kit.fields(ty)[self.stream][1]
        self.info = f(sty, lambda t: t['k'] == 'adt' and t['name'] == 'std::option::Option')
        bty = kit.p.types
        self.fty = kit.ty('FrameCodec')
        self._gain = None

    def gains(self):
        """indices of the decode and the encode gain: the fields with_compression_level(1) sets to 2 and 1/2"""
        if self._gain is None:
            I = self.kit.interp()
            args = self.kit.args(I, 'root_a_level')
            got = {}
            for s, v in self.kit.run(I, 'root_a_level', [args[0], K(1)], State({}, ROOT)):
                v = I.expand(v)
                for i, x in enumerate(v.a[2]):
                    if I.p.types[self.kit.fields(self.ty)[i][1]]['s'] == 'f32':
                        got.setdefault(i, set()).add(fval(x))
            up = [i for i, s in got.items() if s == {2.0}]
            down = [i for i, s in got.items() if s == {0.5}]
            if len(up) != 1 or len(down) != 1:
                nm = {n: i for i, (n, _) in enumerate(self.kit.fields(self.ty)) if i in got}
                up, down = [nm.get('scale')], [nm.get('inv_scale')]
            if up[0] is None or down[0] is None:
                raise Missing('gain fields of AdhocCodec')
            self._gain = (up[0], down[0])
        return self._gain

    def get(self, I, st, v, *path):
        for i in path:
            v = I.project(st, v, i if isinstance(i, tuple) else ('f', i))
        return v

    def make(self, I, st, obj, frames=None, cur=None, with_info=True, ch_max=65535, blocks=False):
        """an arbitrary codec that satisfies the representation invariant; (state, parts)"""
        v = I.expand(I.objval(st, obj))
        hs, ss = self.heads, self.stream
        P = {}
        if with_info:
            oty = self.kit.fields(self.kit.fields(self.ty)[ss][1])[self.info][1]
            iv = I.mk_sym(self.kit.ty('StreamInfo'), name('info'))
            v = I.update(st, v, (('f', ss), ('f', self.info)), some(I, oty, iv))
            ch = self.kit.info_get(I, st, iv, 'channels')
            st = st.assume(le(ONE, ch)).assume(le(ch, K(ch_max)))
            sv = self.get(I, st, v, self.states)
            v = I.update(st, v, (('f', self.states),), mk('vec', ch, sv.a[1]))
            P.update(info=iv, ch=ch, rate=self.kit.info_get(I, st, iv, 'rate'))
        if blocks:
            # whole blocks: one frame per channel
            P['blocks'], P['block'] = isym(name('blocks'), 0, FRAMES), isym(name('block cursor'), 0, FRAMES)
            frames, cur = mul(ch, P['blocks']), mul(ch, P['block'])
            st = st.assume(le(frames, K(FRAMES))).assume(le(P['block'], P['blocks']))
        L = frames if frames is not None else isym(name('frames'), 0, FRAMES)
        c = cur if cur is not None else isym(name('frame cursor'), 0, FRAMES)
        tmp = ('D', name('table'))
        I.objty[tmp] = self.T.ty
        st.mem[tmp] = self.get(I, st, v, hs)
        st = self.T.make(I, st, tmp, L, c)
        v = I.update(st, v, (('f', hs),), st.mem.pop(tmp))
        st = st.assume(le(c, L))
        P.update(frames=L, at=c)
        stream = self.get(I, st, v, ss)
        chunks = self.get(I, st, stream, *self.S.vec).a[0]
        pos = self.get(I, st, stream, *self.S.cur)
        st = st.assume(le(chunks, K(CHUNKS))).assume(le(pos, K(CHUNKS * 128)))
        bs = I.expand(self.get(I, st, stream, *self.S.cur[:-1]))
        for x in bs.a[2]:
            if x.op == 'poly' and single_atom(x) is not None and single_atom(x).op == 'isym':
                st = st.assume(le(x, K(CHUNKS * 128)))
        P.update(chunks=chunks, pos=pos)
        lv = self.get(I, st, v, self.level)
        st = st.assume(le(lv, K(10)))
        P['level'] = lv
        st.mem[obj] = v
        P['v'] = v
        return st, P
