"""Shared parts of the checks: the program under analysis, its types, entry states and I/O objects."""
from .extract import extract, ExtractError
from .terms import *
from .interp import *
from .models import M, as_slice, norm, slice_arr, rd, get, put, ok, err, some, none, variant_ty, write_range

LEN_MAX = 1 << 48           # elements of a slice or vector (addressable memory)


class Missing(Exception):
    """something the check is anchored to is not there"""


class Kit:
    def __init__(self, probe='probe', config=None):
        self.prog = Program(extract(probe, config))
        self.p = self.prog
        self._fields = {}

    # ------------------------------------------------------------ types
    def ty(self, s):
        for i, t in self.p.types.items():
            if t.get('k') == 'adt' and t.get('name', '').split('::')[-1] == s and t.get('crate') == 'adhoc_audio':
                return i
        raise Missing('type ' + s)

    def fields(self, ty):
        return self.p.types[ty]['v'][0]['f']

    def field(self, ty, pred, hint=None):
        """index of the one field whose type satisfies pred (the one named hint when there are several)"""
        fs = self.fields(ty)
        c = [i for i, (n, t) in enumerate(fs) if pred(self.p.types[t])]
        if len(c) > 1 and hint is not None:
            c2 = [i for i in c if fs[i][0] == hint]
            if c2:
                return c2[0]
        if len(c) != 1:
            raise Missing('field %s of %s' % (hint, self.p.types[ty]['s']))
        return c[0]

    def is_adt(self, nm):
        return lambda t: t['k'] == 'adt' and t['name'].split('::')[-1] == nm

    def is_vec(self, elem):
        def f(t):
            if t['k'] != 'adt' or t['name'] != 'std::vec::Vec':
                return False
            e = self.p.types[t['targs'][0]]
            return elem(e) if callable(elem) else e['s'] == elem
        return f

    # ------------------------------------------------------------ interpretation
    def interp(self, io=True, **kw):
        I = Interp(self.prog, M, **kw)
        if io:
            install_io(I)
        return I

    def inst(self, root):
        r = self.p.roots.get(root)
        if r is None:
            raise Missing('entry point ' + root)
        return r

    def args(self, I, root):
        """symbolic arguments; references point to objects ('D', arg.k)"""
        body = self.p.insts[self.inst(root)]['body']
        return [I.mk_sym(body['locals'][i + 1], name('arg', i)) for i in range(body['argc'])]

    def argty(self, root, k):
        return self.p.insts[self.inst(root)]['body']['locals'][k + 1]

    def run(self, I, root, args, st):
        return I.run(self.inst(root), args, st)

    # ------------------------------------------------------------ StreamInfo
    def info_leaf(self, which):
        """index of the StreamInfo field returned by channels() / frequency()"""
        if which not in self._fields:
            I = self.interp()
            r = {'channels': 'root_i_channels', 'rate': 'root_i_frequency'}[which]
            args = self.args(I, r)
            ty = self.ty('StreamInfo')
            o = args[0].a[0]
            st = State({}, ROOT)
            v = I.expand(I.objval(st, o))
            res = self.run(I, r, args, st)
            if len(res) != 1:
                raise Missing('StreamInfo::' + which)
            c = [i for i, x in enumerate(v.a[2]) if x is res[0][1]]
            if len(c) != 1:
                raise Missing('StreamInfo::%s does not return a field' % which)
            self._fields[which] = c[0]
        return self._fields[which]

    def info_get(self, I, st, v, which):
        return I.project(st, v, ('f', self.info_leaf(which)))


class Wav:
    """view of WavCodec values"""

    def __init__(self, kit):
        self.kit = kit
        self.ty = kit.ty('WavCodec')
        self.f_info = kit.field(self.ty, kit.is_adt('StreamInfo'), 'info')
        self.f_pcm = kit.field(self.ty, kit.is_vec('u8'), 'pcm')
        self.f_cur = kit.field(self.ty, lambda t: t['k'] in ('uint', 'int'), 'short_cursor')

    def parts(self, I, st, v):
        info = I.project(st, v, ('f', self.f_info))
        pcm = I.project(st, v, ('f', self.f_pcm))
        cur = I.project(st, v, ('f', self.f_cur))
        return {'info': info, 'pcm': pcm, 'cur': cur, 'len': I.project(st, pcm, ('len',)) if pcm.op != 'vec' else pcm.a[0],
                'buf': pcm.a[1] if pcm.op == 'vec' else None,
                'ch': self.kit.info_get(I, st, info, 'channels'), 'rate': self.kit.info_get(I, st, info, 'rate')}

    def inv(self, P):
        """representation invariant: whole 16-bit samples, the cursor at most one past the last one"""
        L, c = P['len'], P['cur']
        return [('pcm holds whole 16-bit samples', eq(L, scale(div(L, K(2)), 2))), ('the cursor is at most one past the last sample', le(c, div(L, K(2))))]

    def assume(self, I, st, P):
        st = st.assume(le(ONE, P['ch'])).assume(le(P['len'], K(LEN_MAX)))
        for _, l in self.inv(P):
            st = st.assume(l)
        return st


# ---------------------------------------------------------------------------- readers and writers about which nothing is known
def io_result(c, st, good):
    """[Ok(good), Err(e)] as two states; the failing one is marked"""
    I = c.I
    s1 = st.copy()
    s2 = st.copy()
    b = mk('bsym', I.fresh('io'))
    s1 = s1.assume(b)
    s2 = s2.assume(bnot(b))
    s2.mem[('G', 'ioerr')] = TRUE
    e = I.mk_sym(variant_ty(I, c.dty, 'Err'), I.fresh('ioerror'))
    return [(s1, ok(I, c.dty, good)), (s2, err(I, c.dty, e))]


def io_event(c, st, ev):
    st = st.copy()
    st.mem[('G', 'io')] = mk('io', st.mem.get(('G', 'io'), mk('io0')), ev)
    return st


def events(st):
    """I/O performed on the path, oldest first"""
    out = []
    e = st.mem.get(('G', 'io'), mk('io0'))
    while e.op == 'io':
        out.append(e.a[1])
        e = e.a[0]
    if e.op != 'io0':
        out.append(e)
    return out[::-1]


PENDING = ('G', 'pending')


def lost(I, s):
    """are bytes that were handed over still in a buffer nobody flushes?"""
    v = s.mem.get(PENDING, FALSE)
    if v in (TRUE, FALSE):
        return v
    t = I.truth(s, v)
    return v if t is None else TRUE if t else FALSE


def install_io(I):
    I.ghosts[('G', 'ioerr')] = FALSE
    I.ghosts[('G', 'io')] = mk('io0')

    def unit_ok(c):
        return agg(variant_ty(I, c.dty, 'Ok'), 0, [])

    def write_all(c):
        s = as_slice(I, c.st, c.args[1], c.atys[1])
        st = io_event(c, c.st, mk('w', 'write_all', slice_arr(I, c.st, s), s[3]))
        return io_result(c, st, unit_ok(c))

    def write(c):
        s = as_slice(I, c.st, c.args[1], c.atys[1])
        n = isym(I.fresh('written'), 0, (1 << 63) - 1)
        st = io_event(c, c.st, mk('w', 'write', slice_arr(I, c.st, s), n))
        return io_result(c, st.assume(le(n, s[3])), n)

    def flush(c):
        return io_result(c, io_event(c, c.st, mk('w', 'flush')), unit_ok(c))

    def read_range(c, n, kind):
        s = as_slice(I, c.st, c.args[1], c.atys[1])
        src = mk('arrsym', I.arr_ety(I.read(c.st, s[0], s[1])), I.fresh('input'))
        st = io_event(c, c.st, mk('r', kind, src, n if n is not None else s[3]))
        if n is not None:
            st = st.assume(le(n, s[3]))
        write_range(I, st, s, n if n is not None else s[3], src)
        return st

    def read(c):
        n = isym(I.fresh('nread'), 0, (1 << 63) - 1)
        return io_result(c, read_range(c, n, 'read'), n)

    def read_exact(c):
        return io_result(c, read_range(c, None, 'read_exact'), unit_ok(c))

    def read_to_end(c):
        v = get(I, c.st, c.args[1])
        n = isym(I.fresh('nread'), 0, LEN_MAX)
        src = mk('arrsym', I.arr_ety(v.a[1]), I.fresh('input'))
        st = io_event(c, c.st, mk('r', 'read_to_end', src, n))
        put(I, st, c.args[1], mk('vec', add(v.a[0], n), src if v.a[0] is ZERO else mk('concat', v.a[1], v.a[0], src)))
        return io_result(c, st, n)

    def read_limited(c, st, limit):
        v = get(I, st, c.args[1])
        n = isym(I.fresh('nread'), 0, LEN_MAX)
        src = mk('arrsym', I.arr_ety(v.a[1]), I.fresh('input'))
        st = io_event(c, st.assume(le(n, limit)), mk('r', 'read_to_end', src, n))
        b = mk('bsym', I.fresh('io'))
        s1, s2 = st.assume(b), st.assume(bnot(b))
        s2.mem[('G', 'ioerr')] = TRUE
        put(I, s1, c.args[1], mk('vec', add(v.a[0], n), src if v.a[0] is ZERO else mk('concat', v.a[1], v.a[0], src)))
        return [(s1, n), (s2, None)]
    I.read_limited = read_limited

    def seek(c):
        st = io_event(c, c.st, mk('r', 'seek', norm(I, c.st, c.args[1])))
        return io_result(c, st, isym(I.fresh('pos'), 0, (1 << 64) - 1))

    # ---- std::io::BufWriter: what was handed over is pending until flush/into_inner succeeds; dropping it loses the error
    I.ghosts[PENDING] = FALSE

    def pending(rs, v):
        for s, r in rs:
            s.mem[PENDING] = v
        return rs

    def bw_new(c):
        return c.ret(I.mk_sym(c.dty, I.fresh('bufwriter')))

    def first(rs, v):
        """only the first (good) outcome changes the mark"""
        rs[0][0].mem[PENDING] = v
        return rs

    def bw_into(c):
        rs = io_result(c, io_event(c, c.st, mk('w', 'flush')), I.mk_sym(variant_ty(I, c.dty, 'Ok'), I.fresh('writer')))
        return first(rs, FALSE)

    B = 'std::io::BufWriter'
    for n, h in ((B + '::<W>::new', bw_new), (B + '::<W>::with_capacity', bw_new), (B + '::<W>::into_inner', bw_into),
                 ('<%s<W> as std::io::Write>::write_all' % B, lambda c: pending(write_all(c), TRUE)), ('<%s<W> as std::io::Write>::write' % B, lambda c: pending(write(c), TRUE)),
                 ('<%s<W> as std::io::Write>::flush' % B, lambda c: first(flush(c), FALSE)), ('<%s<W> as std::ops::Drop>::drop' % B, lambda c: c.unit())):
        I.opaque[n] = h

    for n, h in (('write_all', write_all), ('write', write), ('flush', flush), ('read', read), ('read_exact', read_exact), ('read_to_end', read_to_end), ('seek', seek)):
        I.opaque['probe::any_' + n] = h


# ---------------------------------------------------------------------------------------------------------- wav runs
class WavRun:
    """one analysed call on a WavCodec that satisfies the representation invariant
    form 'linear': any even byte length, any cursor up to the end; 'blocks': length and cursor are whole sample frames"""

    def __init__(self, kit, root, form='linear', io=True, setup=None, split=False, ch_max=65535):
        self.kit, self.root, self.form = kit, root, form
        I = self.I = kit.interp(io=io)
        I.keep_split = split
        W = self.W = Wav(kit)
        self.args = kit.args(I, root)
        st = State({}, ROOT)
        self.obj = self.args[0].a[0]
        v = I.objval(st, self.obj)
        P = W.parts(I, st, v)
        if form == 'blocks':
            self.blocks, self.pos = isym(name('blocks'), 0, None), isym(name('pos'), 0, None)
            v = I.update(st, v, (('f', W.f_pcm),), mk('vec', scale(mul(P['ch'], self.blocks), 2), P['buf']))
            v = I.update(st, v, (('f', W.f_cur),), mul(P['ch'], self.pos))
            st.mem[self.obj] = v
            st = st.assume(le(ONE, P['ch'])).assume(le(scale(mul(P['ch'], self.blocks), 2), K(LEN_MAX))).assume(le(self.pos, self.blocks))
            P = W.parts(I, st, v)
        else:
            st = W.assume(I, st, P)
        st = st.assume(le(P['ch'], K(ch_max)))
        for a in self.args:
            if a.op == 'ref' and a.a[3] is not None:
                st = st.assume(le(a.a[3], K(LEN_MAX)))
        self.P = P
        if setup:
            st = setup(self, st)
        self.st0 = st
        self.v0 = I.objval(st, self.obj)
        self.out = kit.run(I, root, self.args, st)

    def post(self, s):
        return self.W.parts(self.I, s, s.mem.get(self.obj, self.v0))

    def slice(self, k):
        """(length, symbolic elements) of slice argument k"""
        a = self.args[k]
        return a.a[3], self.I.objval(self.st0, a.a[0])


def cases(I, s, v):
    """the alternatives of a gated value: [(state, value)]"""
    out = []
    todo = [(s, v)]
    while todo:
        s, v = todo.pop()
        v = I.resolve_ite(s, v)
        if v.op == 'sym':
            v = I.expand(v)
        if v.op in ('ite', 'iite'):
            for c, x in ((v.a[0], v.a[1]), (bnot(v.a[0]), v.a[2] if v.op == 'ite' else ZERO)):
                s2 = s.assume(c)
                if not I.P.infeasible_state(s2.facts):
                    todo.append((s2, x))
        else:
            out.append((s, v))
    return out


def variant(I, v):
    """name of the enum variant of an aggregate"""
    return I.p.types[v.a[0]]['v'][v.a[1]]['n']


def returns(run):
    """[(state, variant name or None, payload, full value)] over all returning paths"""
    out = []
    for s, v in run.out:
        for s2, x in cases(run.I, s, v):
            t = run.I.p.types.get(x.a[0]) if x.op == 'agg' else None
            if t and t['k'] == 'adt' and t.get('adt') == 'enum':
                out.append((s2, variant(run.I, x), x.a[2][0] if x.a[2] else None, x))
            else:
                out.append((s2, None, x, x))
    return out


def fixed(s):
    """atoms with a known constant value in state s"""
    out = {}
    for l in s.facts.known():
        if l.op == 'eq':
            p = l.a[0]
            at = [(m, c) for m, c in p.a[0] if m != ()]
            if len(at) == 1 and len(at[0][0]) == 1 and const_part(p) % at[0][1] == 0:
                out[at[0][0][0]] = K(-const_part(p) // at[0][1])
    return out


def specialise(I, s, t):
    """t with the atoms of known constant value replaced"""
    f = fixed(s)
    return I.simp(s, rebuild(t, f.get, {})) if f else t


def same(I, s, a, b):
    """are the two values equal in state s?"""
    if a is b:
        return True
    f = fixed(s)
    if f:
        memo = {}
        a, b = rebuild(a, f.get, memo), rebuild(b, f.get, memo)
        if a is b:
            return True
    a, b = I.resolve(s, I.simp(s, a)), I.resolve(s, I.simp(s, b))
    if a is b:
        return True
    if a.op == 'poly' and b.op == 'poly':
        return I.prove(s, eq(a, b))
    if a.op in ('sym', 'agg') and b.op in ('sym', 'agg'):
        a, b = I.expand(a), I.expand(b)
        if a is b:
            return True
        if a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
            return all(same(I, s, x, y) for x, y in zip(a.a[2], b.a[2]))
        return False
    if a.op == 'vec' and b.op == 'vec':
        return same(I, s, a.a[0], b.a[0]) and a.a[1] is b.a[1]
    for x, y in ((a, b), (b, a)):
        if x.op in ('ite', 'fite', 'iite', 'bite'):
            for c, z in ((x.a[0], x.a[1]), (bnot(x.a[0]), x.a[2])):
                s2 = s.assume(c)
                if not I.P.infeasible_state(s2.facts) and not same(I, s2, z, y):
                    return False
            return True
    return False


GATES = ('iite', 'ite', 'fite', 'bite')


def worlds(I, s, *terms, limit=64, fcmp=False):
    """case split on every undecided gate inside the terms: [(state, [terms])]"""
    out = []
    todo = [(s, list(terms))]
    while todo:
        s, ts = todo.pop()
        f = fixed(s)
        memo = {}
        ts = [I.resolve(s, I.simp(s, rebuild(t, f.get, memo) if f else t)) for t in ts]
        ts = [I.simp(s, t) for t in ts]
        g = None
        for t in ts:
            for x in subterms(t):
                if x.op in GATES and (fcmp or x.a[0].op != 'fcmp') and not any(y.op in GATES for y in subterms(x.a[0])):
                    g = x.a[0]
                    break
            if g is not None:
                break
        if g is None or len(out) + len(todo) >= limit:
            out.append((s, ts))
            continue
        for c in (g, bnot(g)):
            s2 = s.assume(c)
            if not I.P.infeasible_state(s2.facts):
                todo.append((s2, ts))
    return out
