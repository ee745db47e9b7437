"""Abstract interpreter for monomorphic MIR (join based, gated joins, affine loop summaries)."""
import re
import sys
import time
from .terms import *
from .lin import Fact, ROOT, chain, lca, Prover

sys.setrecursionlimit(20000)
UNDEF = mk('undef')


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """the current path cannot continue"""


class Gap(Exception):
    """construct outside the modelled fragment"""


class OutOfTime(Exception):
    pass


DEADLINE = [None]


class State:
    __slots__ = ('mem', 'facts')

    def __init__(self, mem, facts):
        self.mem = mem
        self.facts = facts

    def copy(self):
        return State(dict(self.mem), self.facts)

    def assume(self, lit):
        if lit is TRUE:
            return self
        return State(dict(self.mem), Fact(self.facts, lit))


# ------------------------------------------------------------------------------------------- program
class Program:
    def __init__(self, dump):
        self.d = dump
        self.types = {int(k): v for k, v in dump['types'].items()}
        self.insts = dump['insts']
        self.allocs = dump['allocs']
        self.roots = dump['roots']
        self._cfg = {}
        self.by_s = {v['s']: k for k, v in self.types.items()}
        for v in self.types.values():
            if v.get('name') == 'std::cmp::Ordering':
                for x in v['v']:
                    if int(x['d']) > 1:
                        x['d'] = '-1'

    def ty(self, i):
        return self.types[i]

    def find_type(self, s):
        return self.by_s.get(s)

    def cfg(self, inst):
        c = self._cfg.get(inst)
        if c is None:
            c = self._cfg[inst] = CFG(self.insts[inst]['body'])
        return c


def succs(t):
    k = t['k']
    if isinstance(k, str):
        return []
    n, v = next(iter(k.items()))
    if n == 'Goto':
        return [v['target']]
    if n == 'SwitchInt':
        return list(dict.fromkeys([b for _, b in v['targets']['branches']] + [v['targets']['otherwise']]))
    if n in ('Assert', 'Drop'):
        return [v['target']]
    if n == 'Call':
        return [] if v['target'] is None else [v['target']]
    return []


class Loop:
    def __init__(self, head):
        self.head = head
        self.blocks = {head}
        self.parent = None


class CFG:
    def __init__(self, body):
        self.body = body
        n = len(body['blocks'])
        self.succ = [succs(b['t']) for b in body['blocks']]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = loops.setdefault(s, Loop(s))
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            stack.extend(preds[x])
                elif self.pos[s] <= self.pos[b]:
                    raise Gap('irreducible control flow')
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.head in m.blocks and m is not l:
                    l.parent = m
                    break
        self.loops = {l.head: l for l in ls}
        self.inner = {}
        for b in self.rpo:
            for l in ls:
                if b in l.blocks:
                    self.inner[b] = l
                    break
            else:
                self.inner[b] = None

    def _inter(self, idom, a, b):
        while a != b:
            while self.pos[a] > self.pos[b]:
                a = idom[a]
            while self.pos[b] > self.pos[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


# ------------------------------------------------------------------------------------------- values
def agg(ty, variant, fields):
    return mk('agg', ty, variant, tuple(fields))


def vite(c, a, b):
    """gated value of any kind"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    oa, ob = a.op, b.op
    if oa == 'poly' and ob == 'poly':
        return iite(c, a, b)
    if oa in BOOLS and ob in BOOLS:
        return bite(c, a, b)
    if oa in FLOATS and ob in FLOATS:
        return fite(c, a, b)
    if oa == 'agg' and ob == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
        return agg(a.a[0], a.a[1], [vite(c, x, y) for x, y in zip(a.a[2], b.a[2])])
    if oa == 'vec' and ob == 'vec':
        return mk('vec', iite(c, a.a[0], b.a[0]), vite(c, a.a[1], b.a[1]))
    if oa == 'deq' and ob == 'deq':
        return mk('deq', iite(c, a.a[0], b.a[0]), iite(c, a.a[1], b.a[1]), vite(c, a.a[2], b.a[2]))
    if oa == 'ref' and ob == 'ref' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and (a.a[2] is None) == (b.a[2] is None):
        if a.a[2] is None:
            return a
        return mk('ref', a.a[0], a.a[1], iite(c, a.a[2], b.a[2]), iite(c, a.a[3], b.a[3]))
    n = bnot(c)
    if n.id < c.id:
        c, a, b = n, b, a
    # (c ? x : (c ? y : z)) etc.
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    return mk('ite', c, a, b)


BOOLS = {'true', 'false', 'le', 'eq', 'not', 'and', 'or', 'bite', 'fcmp', 'bsym'}
FLOATS = {'fc', 'fsym', 'fop', 'fite', 'i2f', 'fsel'}


def mkref(obj, path=(), off=None, ln=None):
    return mk('ref', obj, tuple(path), off, ln)


def name(*a):
    return mk('n', *a)


class Interp:
    def __init__(self, prog, models, unroll=20, maxstates=24):
        self.p = prog
        self.models = models
        self.P = Prover()
        self.unroll = unroll
        self.maxstates = maxstates
        self.objty = {}
        self.uids = {}
        self.uidinfo = []
        self.fresh_n = 0
        self.fresh_no = {}
        self.record = True
        self.obls = {}
        self.gaps = {}
        self.casts = {}
        self.calls_seen = {}
        self.loops_seen = {}
        self.opaque = {}        # def name -> handler
        self.phi_kinds = []     # [(term kinds, function making a loop symbol)] of abstract values kept by handlers
        self.read_limited = None
        self.spec = set()       # loop variables taken to move by a constant amount
        self.nospec = set()     # ... that turned out not to
        self.ghosts = {}        # ghost object -> initial value
        self.loop_memo = {}
        self.depth = 0
        self.fuel = 3000000
        self.refonly = False
        self.on_loop = None
        self.twin = {}
        self.keep_split = False

    # ---------------------------------------------------------------- misc
    def uid(self, parent, block, inst):
        k = (parent, block, inst)
        u = self.uids.get(k)
        if u is None:
            u = self.uids[k] = len(self.uidinfo)
            self.uidinfo.append(k)
        return u

    def fresh(self, tag):
        self.fresh_n += 1
        r = name(tag, self.fresh_n)
        self.fresh_no[r] = self.fresh_n
        return r

    def where(self, uid):
        """call stack as function names, outermost first"""
        out = []
        while uid is not None and uid >= 0:
            parent, block, inst = self.uidinfo[uid]
            out.append(self.p.insts[inst]['def'])
            uid = parent
        return out[::-1]

    def gap(self, what, uid=None):
        if self.record:
            self.gaps.setdefault(what, self.where(uid) if uid is not None else None)

    def truth(self, st, b, deep=True):
        return self.P.truth(st.facts, b, deep)

    def prove(self, st, b):
        return self.P.prove(st.facts, b)

    def oblige(self, st, lit, kind, uid, line, text=''):
        """a condition that must hold here; returns the state in which it holds (None if it cannot)"""
        t = self.truth(st, lit)
        if t is None or t is False:
            if self.P.infeasible_state(st.facts):
                raise Dead()
        if self.record:
            key = (self.p.insts[self.uidinfo[uid][2]]['def'] if uid is not None else '?', line, kind)
            o = self.obls.get(key)
            if o is None:
                o = self.obls[key] = {'n': 0, 'bad': []}
            o['n'] += 1
            if t is not True and len(o['bad']) < 3:
                o['bad'].append((self.where(uid), show(lit), text))
        if t is False:
            raise Dead()
        return st if t else st.assume(lit)

    # ---------------------------------------------------------------- symbolic values
    def mk_sym(self, ty, nm):
        t = self.p.types[ty]
        k = t['k']
        if k in ('int', 'uint'):
            lo, hi = trange(t['n'])
            return isym(nm, lo, hi)
        if k == 'bool':
            return mk('bsym', nm)
        if k == 'char':
            return isym(nm, 0, 0x10ffff)
        if k == 'float':
            return mk('fsym', nm, t['n'])
        if k == 'array':
            n = t['n']
            if n is not None and n <= 64:
                return mk('arrc', t['e'], tuple(self.mk_sym(t['e'], name(nm, i)) for i in range(n)))
            return mk('arrsym', t['e'], nm)
        if k in ('slice', 'str'):
            return mk('arrsym', t.get('e'), nm)
        if k in ('ref', 'ptr'):
            e = self.p.types[t['e']]
            obj = ('D', nm)
            self.objty[obj] = t['e']
            if e['k'] in ('slice', 'str'):
                return mkref(obj, (), ZERO, isym(name(nm, 'len'), 0, (1 << 63) - 1))
            return mkref(obj)
        if k == 'tuple':
            return agg(ty, 0, [self.mk_sym(f, name(nm, i)) for i, f in enumerate(t['f'])])
        if k == 'closure':
            return agg(ty, 0, [self.mk_sym(f, name(nm, i)) for i, f in enumerate(t.get('f', []))])
        if k == 'fndef':
            return agg(ty, 0, [])
        if k == 'adt':
            n = t['name']
            if n == 'std::vec::Vec':
                return mk('vec', isym(name(nm, 'len'), 0, (1 << 60)), mk('arrsym', t['targs'][0], name(nm, 'data')))
            if n == 'std::collections::VecDeque':
                return mk('deq', ZERO, isym(name(nm, 'len'), 0, (1 << 60)), mk('arrsym', t['targs'][0], name(nm, 'data')))
            if t['adt'] == 'struct' and len(t['v'][0]['f']) == 0:
                return agg(ty, 0, [])
            return mk('sym', ty, nm)
        return mk('sym', ty, nm)

    def expand(self, v):
        """struct symbol -> aggregate of field symbols"""
        if v.op != 'sym':
            return v
        ty, nm = v.a
        t = self.p.types[ty]
        if t['k'] == 'adt' and t['adt'] == 'struct':
            return agg(ty, 0, [self.mk_sym(ft, name(nm, fn)) for fn, ft in t['v'][0]['f']])
        return v

    def enum_variant(self, v, k):
        """payload view of an enum symbol as variant k"""
        ty, nm = v.a
        t = self.p.types[ty]
        return agg(ty, k, [self.mk_sym(ft, name(nm, t['v'][k]['n'], fn)) for fn, ft in t['v'][k]['f']])

    def discr_vals(self, ty):
        t = self.p.types[ty]
        return [int(x['d']) for x in t['v']]

    def discriminant(self, v):
        if v.op == 'agg':
            t = self.p.types[v.a[0]]
            if t['k'] == 'adt':
                return K(int(t['v'][v.a[1]]['d']))
            return ZERO
        if v.op == 'sym':
            ds = self.discr_vals(v.a[0])
            if not ds:
                raise Gap('discriminant of ' + self.p.types[v.a[0]]['s'])
            if len(ds) == 1:
                return K(ds[0])
            return isym(name(v.a[1], 'discr'), min(ds), max(ds))
        if v.op == 'ite':
            return iite(v.a[0], self.discriminant(v.a[1]), self.discriminant(v.a[2]))
        if v.op == 'undef':
            return isym(self.fresh('undefdiscr'), 0, 255)
        raise Gap('discriminant of ' + v.op)

    # ---------------------------------------------------------------- arrays
    def arr_select(self, st, arr, idx):
        op = arr.op
        if op == 'arrc':
            c = cval(idx)
            if c is not None:
                if 0 <= c < len(arr.a[1]):
                    return arr.a[1][c]
                raise Dead()
            lo, hi = prange(idx)
            els = arr.a[1]
            if els and all(e is els[0] for e in els):
                return els[0]
            if len(els) > 8 and arr.a[0] is not None and all(e.op == 'poly' for e in els) and sum(cval(e) is None for e in els) * 2 > len(els):
                # a table of computed values: the element is left as it is
                ks = [k for k in range(len(els)) if (lo is None or k >= lo) and (hi is None or k <= hi)]
                if len(ks) > 4:
                    return self.elem_sym(arr, idx)
            if len(els) <= 20 and els:
                r = els[-1]
                for k in range(len(els) - 2, -1, -1):
                    e = eq(idx, K(k))
                    t = self.truth(st, e) if st is not None else None
                    if t is True:
                        return els[k]
                    if t is False:
                        continue
                    r = vite(e, els[k], r)
                return r
            if arr.a[0] is not None:
                return self.elem_sym(arr, idx)
        if op == 'fill':
            return arr.a[1]
        if op == 'store':
            base, i, v = arr.a[0], arr.a[1], arr.a[2]
            if i is idx:
                return v
            e = eq(i, idx)
            t = self.truth(st, e) if st is not None else None
            if t is True:
                return v
            r = self.arr_select(st, base, idx)
            if t is False:
                return r
            return vite(e, v, r)
        if op == 'ite':
            t = self.truth(st, arr.a[0], False)
            if t is not None:
                return self.arr_select(st, arr.a[1] if t else arr.a[2], idx)
            return vite(arr.a[0], self.arr_select(st, arr.a[1], idx), self.arr_select(st, arr.a[2], idx))
        if op == 'arrsym':
            return self.elem_sym(arr, idx)
        if op == 'window':     # shifted view: base, off
            return self.arr_select(st, arr.a[0], add(arr.a[1], idx))
        if op == 'concat':     # first n elements of a, then b
            a, n, b = arr.a
            e = lt(idx, n)
            t = self.truth(st, e)
            if t is True:
                return self.arr_select(st, a, idx)
            if t is False:
                return self.arr_select(st, b, sub(idx, n))
            return vite(e, self.arr_select(st, a, idx), self.arr_select(st, b, sub(idx, n)))
        if op == 'lam':
            return self.lam_select(st, arr, idx)
        if op == 'sym':
            t = self.p.types[arr.a[0]]
            if t['k'] in ('array', 'slice'):
                return self.elem_sym(mk('arrsym', t['e'], arr.a[1]), idx)
        if op == 'agg':
            t = self.p.types[arr.a[0]]
            if t['k'] == 'array':
                return self.arr_select(st, mk('arrc', t['e'], arr.a[2]), idx)
        raise Gap('select from ' + op)

    def arr_ety(self, arr):
        op = arr.op
        if op in ('arrc', 'arrsym', 'fill', 'lam'):
            return arr.a[0]
        if op in ('store', 'window', 'concat'):
            return self.arr_ety(arr.a[0])
        if op == 'ite':
            return self.arr_ety(arr.a[1])
        if op == 'agg':
            return self.p.types[arr.a[0]]['e']
        raise Gap('element type of ' + op)

    def elem_sym(self, arr, idx):
        ety = self.arr_ety(arr)
        if ety is None:
            raise Gap('element of untyped array')
        t = self.p.types[ety]
        if t['k'] in ('int', 'uint'):
            return A(mk('sel', t['n'], arr, idx))
        if t['k'] == 'float':
            return mk('fsel', arr, idx, t['n'])
        return self.mk_sym(ety, name('el', arr, idx))

    def arr_store(self, st, arr, idx, v):
        if arr.op == 'arrc':
            c = cval(idx)
            if c is not None:
                if not 0 <= c < len(arr.a[1]):
                    raise Dead()
                l = list(arr.a[1])
                l[c] = v
                return mk('arrc', arr.a[0], tuple(l))
            if len(arr.a[1]) <= 20:
                return mk('arrc', arr.a[0], tuple(vite(eq(idx, K(k)), v, x) for k, x in enumerate(arr.a[1])))
        if arr.op == 'store' and arr.a[1] is idx:
            return self.arr_store(st, arr.a[0], idx, v)
        # overwriting an element with what it already holds
        try:
            if arr.op in ('arrsym', 'store') and self.arr_select(st, arr, idx) is v:
                return arr
        except Gap:
            pass
        return mk('store', arr, idx, v)

    # ---------------------------------------------------------------- reading and writing through paths
    def resolve_ite(self, st, v):
        while v.op == 'ite':
            t = self.truth(st, v.a[0])
            if t is None:
                return v
            v = v.a[1] if t else v.a[2]
        return v

    def project(self, st, v, step):
        k = step[0]
        if v.op == 'undef':
            return UNDEF
        if v.op == 'ite':
            v = self.resolve_ite(st, v)
            if v.op == 'ite':
                return vite(v.a[0], self.project(st, v.a[1], step), self.project(st, v.a[2], step))
        if k == 'f':
            if v.op == 'sym':
                v = self.expand(v)
            if v.op == 'agg':
                if step[1] >= len(v.a[2]):
                    return UNDEF
                return v.a[2][step[1]]
            if v.op == 'ref':
                # wrappers of raw pointers (NonNull, Unique, Box)
                return v
            raise Gap('field of %s' % v.op)
        if k == 'v':
            if v.op == 'agg':
                return v if v.a[1] == step[1] else UNDEF
            if v.op == 'sym':
                return self.enum_variant(v, step[1])
            raise Gap('downcast of ' + v.op)
        if k == 'i':
            return self.arr_select(st, v, step[1])
        if k == 'buf':
            if v.op == 'vec':
                return v.a[1]
            raise Gap('buffer of ' + v.op)
        if k == 'deqbuf':
            if v.op == 'deq':
                return mk('window', v.a[2], v.a[0]) if v.a[0] is not ZERO else v.a[2]
            raise Gap('buffer of ' + v.op)
        if k == 'bytes':
            return self.as_bytes(st, v, step[1])
        if k == 'w':
            return v
        raise Gap('projection %s' % k)

    def update(self, st, v, path, new):
        if not path:
            return new
        step = path[0]
        k = step[0]
        if v.op == 'ite':
            v = self.resolve_ite(st, v)
            if v.op == 'ite':
                raise Fork(v.a[0])
        if k == 'f':
            if v.op == 'sym':
                v = self.expand(v)
            if v.op == 'agg':
                l = list(v.a[2])
                while len(l) <= step[1]:
                    l.append(UNDEF)
                l[step[1]] = self.update(st, l[step[1]], path[1:], new)
                return mk('agg', v.a[0], v.a[1], tuple(l))
            if v.op == 'undef':
                raise Gap('field write to undef')
            raise Gap('field write to %s' % v.op)
        if k == 'v':
            if v.op == 'sym':
                v = self.enum_variant(v, step[1])
            if v.op == 'agg' and v.a[1] == step[1]:
                return self.update(st, v, path[1:], new)
            raise Gap('variant write')
        if k == 'i':
            old = self.arr_select(st, v, step[1]) if len(path) > 1 else None
            return self.arr_store(st, v, step[1], self.update(st, old, path[1:], new) if len(path) > 1 else new)
        if k == 'buf':
            return mk('vec', v.a[0], self.update(st, v.a[1], path[1:], new))
        if k == 'deqbuf':
            if len(path) > 1 and path[1][0] == 'i':
                return mk('deq', v.a[0], v.a[1], self.update(st, v.a[2], (('i', add(v.a[0], path[1][1])),) + path[2:], new))
            raise Gap('write of deque buffer')
        if k == 'bytes':
            arr = self.as_bytes(st, v, step[1])
            arr = self.update(st, arr, path[1:], new)
            return self.from_bytes(st, arr, step[1])
        if k == 'w':
            return self.update(st, v, path[1:], new)
        raise Gap('update %s' % k)

    def default(self, obj):
        """the value of an object nothing was written to yet"""
        if obj[0] in 'DA':
            return self.objval(State({}, ROOT), obj)
        if obj[0] == 'G':
            return self.ghosts.get(obj)
        return None

    def objval(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == 'D':
                ty = self.objty.get(obj)
                t = self.p.types[ty]
                v = self.mk_sym(ty, obj[1])
                st.mem[obj] = v
                return v
            if obj[0] == 'A':
                v = self.alloc_value(obj)
                st.mem[obj] = v
                return v
            return UNDEF
        return v

    def read(self, st, obj, path):
        v = self.objval(st, obj)
        for s in path:
            v = self.project(st, v, s)
        return v

    def write(self, st, obj, path, new):
        """in place on a state owned by the caller"""
        if not path:
            st.mem[obj] = new
            return
        v = self.objval(st, obj)
        if v is UNDEF and obj[0] == 'L':
            v = self.skeleton(self.objty[obj], path)
        st.mem[obj] = self.update(st, v, path, new)

    def skeleton(self, ty, path):
        t = self.p.types[ty]
        k = 0
        if path and path[0][0] == 'v':
            k = path[0][1]
        if t['k'] == 'adt' and t['v']:
            return agg(ty, k, [UNDEF] * len(t['v'][k]['f']))
        if t['k'] in ('tuple', 'closure'):
            return agg(ty, 0, [UNDEF] * len(t.get('f', [])))
        if t['k'] == 'array':
            return mk('arrc', t['e'], (UNDEF,) * t['n']) if t['n'] is not None and t['n'] <= 64 else mk('arrsym', t['e'], self.fresh('uninit'))
        return UNDEF

    def deref(self, st, v):
        """(obj, path) designated by a pointer value"""
        v = self.resolve_ite(st, v)
        if v.op == 'ite':
            raise Fork(v.a[0])
        while v.op == 'agg' and len([f for f in v.a[2]]) >= 1:
            v = self.resolve_ite(st, v.a[2][0])
            if v.op == 'ite':
                raise Fork(v.a[0])
        if v.op == 'ref':
            if v.a[2] is not None:
                return v.a[0], v.a[1] + (('w', v.a[2], v.a[3]),)
            return v.a[0], v.a[1]
        if v.op == 'sym':
            t = self.p.types[v.a[0]]
            if t['k'] == 'adt' and t['name'] == 'std::boxed::Box':
                obj = ('D', v.a[1])
                self.objty[obj] = t['targs'][0]
                return obj, ()
        raise Gap('deref of ' + v.op)

    # ---------------------------------------------------------------- byte views of plain data
    def layout_fields(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'adt' and t['adt'] == 'struct':
            return [(o, f[1]) for o, f in zip(t['offsets'], t['v'][0]['f'])]
        return None

    def scalar_bytes(self, st, v, ty):
        t = self.p.types[ty]
        if t['k'] in ('int', 'uint'):
            b = to_bits(v, t['n'])
            return [bits_poly('u8', b[8 * k:8 * k + 8]) for k in range(INT[t['n']][0] // 8)]
        if t['k'] == 'array':
            out = []
            for k in range(t['n']):
                out += self.scalar_bytes(st, self.arr_select(st, v, K(k)), t['e'])
            return out
        if t['k'] == 'adt':
            out = [None] * t['size']
            for i, (o, ft) in enumerate(self.layout_fields(ty)):
                bs = self.scalar_bytes(st, self.project(st, v, ('f', i)), ft)
                out[o:o + len(bs)] = bs
            return [isym(self.fresh('padding'), 0, 255) if x is None else x for x in out]
        raise Gap('bytes of ' + t['s'])

    def as_bytes(self, st, v, ty):
        u8 = self.p.find_type('u8')
        return mk('arrc', u8, tuple(self.scalar_bytes(st, v, ty)))

    def bytes_scalar(self, bs, ty):
        t = self.p.types[ty]
        if t['k'] in ('int', 'uint'):
            bits = []
            for b in bs:
                bits += list(to_bits(b, 'u8'))
            return bits_poly(t['n'], bits)
        if t['k'] == 'array':
            n = self.p.types[t['e']]['size']
            return mk('arrc', t['e'], tuple(self.bytes_scalar(bs[n * k:n * k + n], t['e']) for k in range(t['n'])))
        if t['k'] == 'adt':
            return agg(ty, 0, [self.bytes_scalar(bs[o:o + self.p.types[ft]['size']], ft) for o, ft in self.layout_fields(ty)])
        raise Gap('from bytes ' + t['s'])

    def from_bytes(self, st, arr, ty):
        n = self.p.types[ty]['size']
        bs = [self.arr_select(st, arr, K(k)) for k in range(n)]
        return self.bytes_scalar(bs, ty)

    # ---------------------------------------------------------------- constants
    def alloc_value(self, obj):
        _, aid, ety, window = obj
        a = self.p.allocs.get(str(aid))
        if a is None or 'mem' not in a:
            raise Gap('static or function allocation')
        m = a['mem']
        return self.decode(ety, m['bytes'], m['provenance']['ptrs'], 0, window)

    def decode(self, ty, bs, ptrs, off, count=None):
        t = self.p.types[ty]
        k = t['k']
        if k in ('int', 'uint'):
            w, s = INT[t['n']]
            raw = bs[off:off + w // 8]
            if any(x is None for x in raw):
                return UNDEF
            return K(int.from_bytes(bytes(raw), 'little', signed=s))
        if k == 'char':
            return K(int.from_bytes(bytes(bs[off:off + 4]), 'little'))
        if k == 'bool':
            return TRUE if bs[off] else FALSE
        if k == 'float':
            n = 4 if t['n'] == 'f32' else 8
            return mk('fc', int.from_bytes(bytes(bs[off:off + n]), 'little'), t['n'])
        if k == 'array':
            n = self.p.types[t['e']]['size']
            return mk('arrc', t['e'], tuple(self.decode(t['e'], bs, ptrs, off + n * i) for i in range(t['n'])))
        if k in ('slice',):
            n = self.p.types[t['e']]['size']
            return mk('arrc', t['e'], tuple(self.decode(t['e'], bs, ptrs, off + n * i) for i in range(count)))
        if k == 'str':
            u8 = self.p.find_type('u8')
            return mk('arrc', u8, tuple(K(x) for x in bs[off:off + count]))
        if k in ('ref', 'ptr'):
            e = self.p.types[t['e']]
            for po, pid in ptrs:
                if po == off:
                    start = int.from_bytes(bytes(bs[off:off + 8]), 'little')
                    if e['k'] in ('slice', 'str'):
                        ln = int.from_bytes(bytes(bs[off + 8:off + 16]), 'little')
                        if start:
                            raise Gap('interior constant pointer')
                        return mkref(('A', pid if isinstance(pid, int) else str(pid), t['e'], ln), (), ZERO, K(ln))
                    if start:
                        raise Gap('interior constant pointer')
                    return mkref(('A', pid if isinstance(pid, int) else str(pid), t['e'], None))
            if e['k'] in ('slice', 'str'):
                return mkref(('Z', ty), (), ZERO, K(int.from_bytes(bytes(bs[off + 8:off + 16]), 'little')))
            return mkref(('Z', ty))
        if k in ('tuple', 'closure'):
            if not t.get('f'):
                return agg(ty, 0, [])
            return agg(ty, 0, [self.decode(f, bs, ptrs, off + o) for f, o in zip(t['f'], t['offsets'])])
        if k == 'adt':
            if t['adt'] == 'struct':
                fs = t['v'][0]['f']
                if not fs:
                    return agg(ty, 0, [])
                return agg(ty, 0, [self.decode(f[1], bs, ptrs, off + o) for f, o in zip(fs, t['offsets'])])
            if t['adt'] == 'enum' and all(not v['f'] for v in t['v']):
                n = t['size']
                if n == 0:
                    return agg(ty, 0, [])
                raw = int.from_bytes(bytes(bs[off:off + n]), 'little')
                for i, v in enumerate(t['v']):
                    if int(v['d']) == raw:
                        return agg(ty, i, [])
            if t['adt'] == 'enum' and len(t['v']) == 2:
                # niche of a reference or an explicit tag
                for i, v in enumerate(t['v']):
                    if len(v['f']) == 1 and not t['v'][1 - i]['f']:
                        ft = self.p.types[v['f'][0][1]]
                        if ft['k'] in ('ref', 'ptr') and ft['size'] == t['size']:
                            if any(po == off for po, _ in ptrs):
                                return agg(ty, i, [self.decode(v['f'][0][1], bs, ptrs, off)])
                            return agg(ty, 1 - i, [])
        return self.mk_sym(ty, self.fresh('const'))

    def const(self, c):
        ty = c['ty']
        kind = c['kind']
        if kind == 'ZeroSized':
            return agg(ty, 0, [])
        if isinstance(kind, dict) and 'Allocated' in kind:
            a = kind['Allocated']
            return self.decode(ty, a['bytes'], a['provenance']['ptrs'], 0)
        raise Gap('constant kind %s' % (kind if isinstance(kind, str) else list(kind)[0]))

    # ---------------------------------------------------------------- places and operands
    def place(self, st, fr, pl):
        """(obj, path, ty)"""
        obj = ('L', fr.uid, pl['local'])
        path = ()
        ty = fr.body['locals'][pl['local']]
        for e in pl['projection']:
            if e == 'Deref':
                v = self.read(st, obj, path)
                obj, path = self.deref(st, v)
                t = self.p.types[ty]
                ty = t['e'] if t['k'] in ('ref', 'ptr') else t['targs'][0]
                continue
            n, x = next(iter(e.items()))
            if n == 'Field':
                path = path + (('f', x[0]),)
                ty = x[1]
            elif n == 'Downcast':
                path = path + (('v', x),)
            elif n == 'Index':
                idx = self.objval(st, ('L', fr.uid, x))
                path = self.index_path(path, idx)
                ty = self.p.types[ty]['e']
            elif n == 'ConstantIndex':
                if x['from_end']:
                    t = self.p.types[ty]
                    ln = K(t['n']) if t['k'] == 'array' else path[-1][2]
                    path = self.index_path(path, addk(ln, -x['offset']))
                else:
                    path = self.index_path(path, K(x['offset']))
                ty = self.p.types[ty]['e']
            elif n == 'Subslice':
                w = path[-1] if path and path[-1][0] == 'w' else None
                if w is None:
                    raise Gap('subslice of array')
                end = addk(w[2], -x['to']) if x['from_end'] else K(x['to'])
                path = path[:-1] + (('w', addk(w[1], x['from']), addk(end, -x['from'])),)
            elif n == 'OpaqueCast':
                ty = x
            else:
                raise Gap('projection ' + n)
        return obj, path, ty

    @staticmethod
    def index_path(path, idx):
        if path and path[-1][0] == 'w':
            return path[:-1] + (('i', add(path[-1][1], idx)),)
        return path + (('i', idx),)

    def operand(self, st, fr, o):
        n, x = next(iter(o.items()))
        if n in ('Copy', 'Move'):
            obj, path, ty = self.place(st, fr, x)
            return self.read(st, obj, path)
        if n == 'Constant':
            return self.const(x['const_'])
        if n == 'RuntimeChecks':
            return FALSE
        raise Gap('operand ' + n)

    def op_ty(self, fr, o):
        n, x = next(iter(o.items()))
        if n == 'Constant':
            return x['const_']['ty']
        if n == 'RuntimeChecks':
            return self.p.find_type('bool')
        ty = fr.body['locals'][x['local']]
        for e in x['projection']:
            t = self.p.types[ty]
            if e == 'Deref':
                ty = t['e'] if t['k'] in ('ref', 'ptr') else t['targs'][0]
            else:
                k, y = next(iter(e.items()))
                if k == 'Field':
                    ty = y[1]
                elif k in ('Index', 'ConstantIndex'):
                    ty = t['e']
                elif k == 'OpaqueCast':
                    ty = y
        return ty

    # ---------------------------------------------------------------- rvalues
    def int_name(self, ty):
        t = self.p.types[ty]
        if t['k'] in ('int', 'uint'):
            return t['n']
        if t['k'] == 'char':
            return 'u32'
        return None

    def in_range(self, st, p, ty):
        lo, hi = trange(ty)
        if within(p, lo, hi):
            return True
        return self.prove(st, le(K(lo), p)) and self.prove(st, le(p, K(hi)))

    def wrapv(self, st, ty, p):
        return p if self.in_range(st, p, ty) else wrap(ty, p)

    def binop(self, st, op, a, b, ty, fr=None, line=0):
        t = self.p.types[ty]
        if t['k'] == 'float':
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
                return fop(op.lower(), a, b)
            return fcmp(op, a, b)
        if t['k'] == 'bool':
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('BitXor', 'Ne'):
                return bite(a, bnot(b), b)
            if op == 'Eq':
                return bite(a, b, bnot(b))
            return mk('bsym', name('boolop', op, a, b))
        if a.op == 'ref' or b.op == 'ref' or t['k'] in ('ptr', 'ref', 'fnptr'):
            return self.ptrop(st, op, a, b)
        n = self.int_name(ty)
        if n is None or a.op != 'poly' or (b.op != 'poly'):
            if op == 'Cmp':
                pass
            raise Gap('binop %s on %s' % (op, t['s']))
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return bnot(eq(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            f = {'A': add, 'S': sub, 'M': mul}[op[0]]
            return f(a, b)
        if op == 'Add':
            return self.wrapv(st, n, add(a, b))
        if op == 'Sub':
            return self.wrapv(st, n, sub(a, b))
        if op == 'Mul':
            return self.wrapv(st, n, mul(a, b))
        if op in ('Div', 'Rem'):
            la, _ = prange(a)
            lb, _ = prange(b)
            pos = (la is not None and la >= 0) or self.prove(st, le(ZERO, a))
            posd = (lb is not None and lb >= 1) or self.prove(st, le(ONE, b))
            if pos and posd:
                q = div(a, b)
            elif cval(a) is not None and cval(b):
                x, y = cval(a), cval(b)
                qq = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                q = K(qq)
            else:
                q = A(mk('iop', n, 'sdiv', a, b))
                if op == 'Rem':
                    return A(mk('iop', n, 'srem', a, b))
            return q if op == 'Div' else sub(a, mul(b, q))
        w, sg = INT[n]
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            o = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op]
            if o == 'and':
                for x, y in ((a, b), (b, a)):
                    c = cval(x)
                    u = single_atom(y)
                    if c == 1 and u is not None and u.op == 'unary' and y is A(u):
                        # t ones, a zero, anything
                        t = u.a[0]
                        return add(iite(le(ONE, t), ONE, ZERO), iite(lt(t, ZERO), isym(name('unary bit', u), 0, 1), ZERO))
                    if c is not None and c >= 0 and (c & (c + 1)) == 0 and not is_bits(y):
                        lo, hi = prange(y)
                        if lo is not None and lo >= 0:
                            return mod(y, K(c + 1))
            r = bitop(o, a, b, n)
            if r is not None:
                return r
            if b.id < a.id:
                a, b = b, a
            return A(mk('iop', n, o, a, b))
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            k = cval(b)
            if k is None:
                ca = cval(a)
                if ca == 0:
                    return ZERO
                return A(mk('iop', n, 'shl' if op[2] == 'l' else 'shr', a, b))
            k %= w
            if op[2] == 'l':
                p = scale(a, 1 << k)
                if not is_bits(a) and self.in_range(st, p, n):
                    return p
                return bits_poly(n, (0,) * k + to_bits(a, n)[:w - k])
            lo, hi = prange(a)
            if lo is not None and lo >= 0:
                return div(a, K(1 << k))
            if not sg:
                return div(a, K(1 << k))
            bs = to_bits(a, n)
            return bits_poly(n, bs[k:] + (bs[-1],) * k)
        if op == 'Cmp':
            ot = self.p.find_type('std::cmp::Ordering')
            if ot is None:
                raise Gap('no Ordering type')
            vs = self.p.types[ot]['v']
            ix = {v['n']: i for i, v in enumerate(vs)}
            return vite(lt(a, b), agg(ot, ix['Less'], []), vite(eq(a, b), agg(ot, ix['Equal'], []), agg(ot, ix['Greater'], [])))
        raise Gap('binop ' + op)

    def ptrop(self, st, op, a, b):
        if op in ('Eq', 'Ne') and a.op == 'ref' and b.op == 'ref':
            if a.a[0] == b.a[0] and a.a[1] == b.a[1]:
                return TRUE if op == 'Eq' else FALSE
        raise Gap('pointer ' + op)

    def cast(self, st, kind, v, fty, tty, fr, line):
        k = kind if isinstance(kind, str) else next(iter(kind))
        if k == 'IntToInt':
            n = self.int_name(tty)
            f = self.p.types[fty]
            if v.op in BOOLS:
                return b2i(v)
            if v.op != 'poly':
                if f['k'] == 'adt':
                    return self.discriminant(v)
                raise Gap('cast of ' + v.op)
            if n is None:
                return v
            ok = self.in_range(st, v, n)
            if self.record:
                key = (self.p.insts[fr.inst]['def'], line, f.get('n'), n)
                c = self.casts.setdefault(key, {'ok': 0, 'bad': []})
                if ok:
                    c['ok'] += 1
                elif len(c['bad']) < 5:
                    c['bad'].append((show(v), self.where(fr.uid)))
            return v if ok else wrap(n, v)
        if k == 'IntToFloat':
            return i2f(v, self.p.types[tty]['n'])
        if k == 'FloatToInt':
            return f2i(v, self.int_name(tty))
        if k == 'FloatToFloat':
            return fop('to_' + self.p.types[tty]['n'], v)
        if k == 'PointerCoercion':
            sub_ = kind[k]
            s = sub_ if isinstance(sub_, str) else next(iter(sub_))
            if s == 'Unsize':
                return self.unsize(st, v, fty, tty)
            if s in ('MutToConstPointer', 'ReifyFnPointer', 'ClosureFnPointer'):
                return v
            return v
        if k == 'PtrToPtr':
            return self.ptr_cast(st, v, fty, tty)
        if k == 'Transmute':
            f, t = self.p.types[fty], self.p.types[tty]
            if f['k'] in ('ref', 'ptr') and t['k'] in ('ref', 'ptr'):
                return self.ptr_cast(st, v, fty, tty)
            if fty == tty:
                return v
            if v.op == 'ref' and t['k'] == 'adt':
                return v
            if f['k'] == 'float' and t['k'] == 'uint':
                c = v.a[0] if v.op == 'fc' else None
                if c is not None:
                    return K(c)
                return A(mk('iop', t['n'], 'fbits', v))
            if f['k'] in ('int', 'uint') and t['k'] in ('int', 'uint'):
                return wrap(t['n'], v)
            if f['k'] == 'array' and t['k'] in ('int', 'uint') and self.p.types[f['e']].get('n') == 'u8':
                return self.bytes_scalar([self.arr_select(st, v, K(i)) for i in range(f['n'])], tty)
            if t['k'] == 'array' and f['k'] in ('int', 'uint') and self.p.types[t['e']].get('n') == 'u8':
                return mk('arrc', t['e'], tuple(self.scalar_bytes(st, v, fty)))
            if t['k'] == 'adt' and t['adt'] == 'struct' and len(t['v'][0]['f']) == 1 and f['size'] == t['size']:
                return agg(tty, 0, [self.cast(st, 'Transmute', v, fty, t['v'][0]['f'][0][1], fr, line)])
            if f['k'] == 'adt' and f['adt'] == 'struct' and len(f['v'][0]['f']) == 1 and f['size'] == t['size'] and v.op == 'agg':
                return self.cast(st, 'Transmute', v.a[2][0], f['v'][0]['f'][0][1], tty, fr, line)
            if v.op == 'poly' and ('pattern_type!' in f['s'] or 'pattern_type!' in t['s']) and f.get('size') == t.get('size') and t['k'] not in ('adt', 'tuple'):
                return v
            if f['k'] == 'adt' and f['adt'] == 'struct' and len(f['v'][0]['f']) == 1 and f['size'] == t['size'] and v.op == 'sym':
                e = self.expand(v)
                if e.op == 'agg':
                    return self.cast(st, 'Transmute', e, fty, tty, fr, line)
            if t['k'] == 'adt' and t.get('name') == 'std::option::Option' and f['k'] in ('int', 'uint') and self.p.types[t['targs'][0]].get('name') == 'std::num::NonZero' and f['size'] == t['size']:
                nz = t['targs'][0]
                some_ = agg(tty, 1, [self.cast(st, 'Transmute', v, fty, nz, fr, line)])
                return vite(eq(v, ZERO), agg(tty, 0, []), some_)
            raise Gap('transmute %s -> %s' % (f['s'], t['s']))
        raise Gap('cast %s' % k)

    def ptr_cast(self, st, v, fty, tty):
        f, t = self.p.types[fty], self.p.types[tty]
        if v.op != 'ref':
            return v
        fe, te = self.p.types[f['e']], self.p.types[t['e']]
        if f['e'] == t['e'] or te['k'] in ('slice', 'str', 'dyn') or fe['k'] in ('slice', 'str'):
            if fe['k'] == 'slice' and te['k'] not in ('slice', 'str'):
                return mkref(v.a[0], v.a[1] + (('i', v.a[2]),))
            return v
        if te.get('n') == 'u8' and te['k'] == 'uint' and fe['k'] in ('adt', 'int', 'uint'):
            return mkref(v.a[0], v.a[1] + (('bytes', f['e']),))
        return v

    def unsize(self, st, v, fty, tty):
        f, t = self.p.types[fty], self.p.types[tty]
        if f['k'] in ('ref', 'ptr') and t['k'] in ('ref', 'ptr'):
            fe, te = self.p.types[f['e']], self.p.types[t['e']]
            if fe['k'] == 'array' and te['k'] == 'slice':
                v = self.resolve_ite(st, v)
                if v.op == 'ite':
                    raise Fork(v.a[0])
                return mkref(v.a[0], v.a[1], ZERO, K(fe['n']))
            return v
        return v

    def rvalue(self, st, fr, rv, dty, line):
        n, x = next(iter(rv.items()))
        if n == 'Use':
            return self.operand(st, fr, x[0])
        if n in ('Ref', 'AddressOf'):
            pl = x[-1]
            obj, path, ty = self.place(st, fr, pl)
            if path and path[-1][0] == 'w':
                return mkref(obj, path[:-1], path[-1][1], path[-1][2])
            t = self.p.types[ty]
            return mkref(obj, path)
        if n == 'BinaryOp':
            a, b = self.operand(st, fr, x[1]), self.operand(st, fr, x[2])
            if x[0] == 'Offset':
                return self.ptr_offset(st, a, b)
            return self.binop(st, x[0], a, b, self.op_ty(fr, x[1]), fr, line)
        if n == 'CheckedBinaryOp':
            a, b = self.operand(st, fr, x[1]), self.operand(st, fr, x[2])
            nn = self.int_name(self.op_ty(fr, x[1]))
            p = {'Add': add, 'Sub': sub, 'Mul': mul}[x[0]](a, b)
            lo, hi = trange(nn)
            return agg(dty, 0, [p, bor(lt(p, K(lo)), lt(K(hi), p))])
        if n == 'UnaryOp':
            v = self.operand(st, fr, x[1])
            ty = self.op_ty(fr, x[1])
            if x[0] == 'Not':
                if v.op in BOOLS:
                    return bnot(v)
                w, s = INT[self.int_name(ty)]
                return sub(K(-1 if s else (1 << w) - 1), v)
            if x[0] == 'Neg':
                if self.p.types[ty]['k'] == 'float':
                    return fop('neg', v)
                return self.wrapv(st, self.int_name(ty), neg(v))
            if x[0] == 'PtrMetadata':
                v = self.resolve_ite(st, v)
                if v.op == 'ite':
                    raise Fork(v.a[0])
                if v.op == 'ref':
                    return v.a[3] if v.a[3] is not None else agg(dty, 0, [])
                raise Gap('metadata of ' + v.op)
            raise Gap('unary ' + x[0])
        if n == 'Cast':
            return self.cast(st, x[0], self.operand(st, fr, x[1]), self.op_ty(fr, x[1]), x[2], fr, line)
        if n == 'Aggregate':
            k, ops = x
            vs = [self.operand(st, fr, o) for o in ops]
            kn = k if isinstance(k, str) else next(iter(k))
            if kn == 'Array':
                return mk('arrc', k['Array'], tuple(vs))
            if kn == 'Adt':
                t = self.p.types[dty]
                if k['Adt'][4] is not None:     # union field
                    return agg(dty, 0, vs)
                return agg(dty, k['Adt'][1], vs)
            if kn == 'RawPtr':
                v = vs[0]
                if v.op == 'ref':
                    if vs[1].op == 'poly':
                        if v.a[1] and v.a[1][-1][0] == 'i':
                            return mkref(v.a[0], v.a[1][:-1], v.a[1][-1][1], vs[1])
                        return mkref(v.a[0], v.a[1], ZERO, vs[1])
                    return v
                raise Gap('raw pointer aggregate')
            return agg(dty, 0, vs)
        if n == 'Discriminant':
            obj, path, ty = self.place(st, fr, x)
            return self.discriminant(self.resolve_ite(st, self.read(st, obj, path)))
        if n == 'Repeat':
            v = self.operand(st, fr, x[0])
            t = self.p.types[dty]
            if t['n'] is not None and t['n'] <= 64:
                return mk('arrc', t['e'], (v,) * t['n'])
            return mk('fill', t['e'], v)
        if n == 'Len':
            obj, path, ty = self.place(st, fr, x)
            t = self.p.types[ty]
            if t['k'] == 'array':
                return K(t['n'])
            return path[-1][2]
        if n == 'CopyForDeref':
            obj, path, ty = self.place(st, fr, x)
            return self.read(st, obj, path)
        if n == 'ShallowInitBox':
            return self.operand(st, fr, x[0])
        raise Gap('rvalue ' + n)

    def ptr_offset(self, st, a, b):
        if a.op == 'ref' and a.a[1] and a.a[1][-1][0] == 'i':
            return mkref(a.a[0], a.a[1][:-1] + (('i', add(a.a[1][-1][1], b)),))
        raise Gap('pointer offset')

    # ---------------------------------------------------------------- joining states
    def merge(self, states):
        states = [s for s in states if s is not None]
        if len(states) <= 1 or self.keep_split:
            return states
        changed = True
        while changed and len(states) > 1:
            changed = False
            best = None
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    l = lca(states[i].facts, states[j].facts)
                    if best is None or l.depth > best[0]:
                        best = (l.depth, i, j, l)
            cands = sorted(((lca(states[i].facts, states[j].facts).depth, i, j) for i in range(len(states)) for j in range(i + 1, len(states))), reverse=True)
            for d, i, j in cands:
                m = self.merge2(states[i], states[j])
                if m is not None:
                    states = [s for k, s in enumerate(states) if k not in (i, j)] + [m]
                    changed = True
                    break
        return states

    def merge2(self, s, t):
        l = lca(s.facts, t.facts)
        r1, r2 = chain(s.facts, l), chain(t.facts, l)
        if not r1 or not r2:
            if not r1 and not r2:
                c = None
            else:
                return None
            if s.mem == t.mem:
                return s
            return None
        c = r1[0]
        if r2[0] is not bnot(c):
            return None
        f = Fact(l, mk('guard', c, tuple(r1[1:]), tuple(r2[1:]))) if len(r1) > 1 or len(r2) > 1 else l
        mem = {}
        for o, v in s.mem.items():
            w = t.mem.get(o)
            if w is None:
                w = self.default(o)
            if w is None:
                mem[o] = v
            elif v is w:
                mem[o] = v
            else:
                mem[o] = vite(c, v, w)
        for o, w in t.mem.items():
            if o not in mem:
                v = self.default(o)
                mem[o] = w if v is None or v is w else vite(c, v, w)
        return State(mem, f)

    # ---------------------------------------------------------------- simplification under the facts of a state
    def simp(self, st, v, deep=True):
        want = G_IITE | G_ITE
        if not sig(v) & want:
            return v
        memo = {}
        tm = {}

        def dec(c):
            r = tm.get(c)
            if r is None:
                r = tm[c] = (self.truth(st, c, deep),)
            return r[0]

        def f(t):
            if t.op == 'iite':
                c = dec(t.a[0])
                if c is True:
                    return rebuild(t.a[1], f, memo, want)
                if c is False:
                    return ZERO
            elif t.op in ('ite', 'fite', 'bite'):
                c = dec(t.a[0])
                if c is not None:
                    return rebuild(t.a[1] if c else t.a[2], f, memo, want)
            return None
        return rebuild(v, f, memo, want)

    def gate_simp(self, st, v, depth=4):
        """simp, also removing gates whose two sides are the same under the gate's condition"""
        v = self.simp(st, v)
        if depth == 0:
            return v
        gs = [x for x in subterms(v) if x.op in ('iite', 'ite', 'fite') and x.a[0].op != 'fcmp']
        if not gs:
            return v
        # an outermost gate: one not inside another
        inner = set()
        for x in gs:
            for y in subterms(x):
                if y is not x:
                    inner.add(y)
        for x in gs:
            if x in inner:
                continue
            c = x.a[0]
            s1, s2 = st.assume(c), st.assume(bnot(c))
            if self.P.infeasible_state(s1.facts) or self.P.infeasible_state(s2.facts):
                continue
            p, q = self.gate_simp(s1, v, depth - 1), self.gate_simp(s2, v, depth - 1)
            if p is q:
                return p
        return v

    def simp_state(self, st, base):
        """simplify everything that differs from the memory `base`"""
        for ob, v in list(st.mem.items()):
            if base.get(ob) is not v and isinstance(v, T):
                st.mem[ob] = self.simp(st, v)
        return st

    def loop_region(self, fr, L, h):
        o = self.region(fr, L, L.head, [h])
        for b in o.back:
            self.simp_state(b, h.mem)
        return o

    # ---------------------------------------------------------------- execution
    def run(self, inst, args, st):
        """analyse a root function; returns [(state, return value)]"""
        return self.call_inst(st, inst, args, None, 0)

    def call_inst(self, st, inst, args, puid, block):
        ins = self.p.insts[inst]
        body = ins.get('body')
        if body is None:
            raise Gap('no body: ' + ins['def'])
        uid = self.uid(puid, block, inst)
        if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            raise OutOfTime('analysis time is up')
        if self.depth > 90:
            raise Gap('call depth at ' + ins['def'])
        # recursion
        u = puid
        while u is not None:
            pu, b, i = self.uidinfo[u]
            if i == inst:
                raise Gap('recursion: ' + ins['def'])
            u = pu
        if self.record:
            self.calls_seen[ins['def']] = self.calls_seen.get(ins['def'], 0) + 1
        fr = Frame(uid, inst, body, self.p.cfg(inst))
        st = st.copy()
        argc = body['argc']
        if len(args) != argc:
            if argc >= 1 and len(args) == 2 and args[1].op == 'agg':
                args = [args[0]] + list(args[1].a[2])
            if len(args) != argc:
                raise Gap('argument count of ' + ins['def'])
        elif body.get('spread') and argc >= 1 and False:
            pass
        for i, a in enumerate(args):
            st.mem[('L', uid, i + 1)] = a
        for i, ty in enumerate(body['locals']):
            self.objty[('L', uid, i)] = ty
            t = self.p.types[ty]
            if i > argc or i == 0:
                if t['k'] in ('fndef',) or (t['k'] in ('tuple', 'closure') and not t.get('f')) or (t['k'] == 'adt' and t.get('size') == 0 and t['adt'] == 'struct'):
                    st.mem[('L', uid, i)] = agg(ty, 0, [])
                else:
                    st.mem.pop(('L', uid, i), None)
        self.depth += 1
        try:
            out = self.region(fr, None, 0, [st])
        finally:
            self.depth -= 1
        res = []
        rets = self.merge(out.ret)
        ro = ('L', uid, 0)
        for s in rets:
            v = s.mem.get(ro, UNDEF)
            if v is UNDEF:
                t = self.p.types[body['locals'][0]]
                if t['k'] == 'tuple' and not t['f']:
                    v = agg(body['locals'][0], 0, [])
            s = State({o: x for o, x in s.mem.items() if not (o[0] == 'L' and o[1] == uid)}, s.facts)
            res.append((s, v))
        return res

    def region(self, fr, loop, entry, states):
        """run a loop body or a whole function from `entry`"""
        cfg = fr.cfg
        out = Out()
        pending = {entry: list(states)}
        blocks = [b for b in cfg.rpo if loop is None or b in loop.blocks]
        for b in blocks:
            L = cfg.inner[b]
            if L is not loop:
                if not (L is not None and L.head == b and L.parent is loop):
                    continue
            ss = pending.pop(b, None)
            if not ss:
                continue
            if len(ss) > 1:
                ss = self.merge(ss)
            if len(ss) > self.maxstates:
                ss = self.force(ss)
            if L is not loop:
                for s in ss:
                    o = self.loop(fr, L, s)
                    out.ret.extend(o.ret)
                    for tgt, sl in o.exits.items():
                        self.route(cfg, loop, entry, out, pending, tgt, sl)
                continue
            for s in ss:
                for tgt, s2 in self.block(fr, b, s):
                    if tgt == 'ret':
                        out.ret.append(s2)
                    else:
                        self.route(cfg, loop, entry, out, pending, tgt, [s2])
        return out

    def force(self, ss):
        return ss[:]    # kept disjoint

    def route(self, cfg, loop, entry, out, pending, tgt, sl):
        if loop is not None:
            if tgt == loop.head:
                out.back.extend(sl)
                return
            if tgt not in loop.blocks:
                out.exits.setdefault(tgt, []).extend(sl)
                return
        pending.setdefault(tgt, []).extend(sl)

    def block(self, fr, b, st):
        """[(target, state)]"""
        self.fuel -= 1
        if self.fuel < 0:
            raise Gap('analysis budget exhausted')
        work = [(st.copy(), 0)]
        outl = []
        blk = fr.body['blocks'][b]
        while work:
            s, i = work.pop()
            try:
                while i < len(blk['s']):
                    self.stmt(s, fr, blk['s'][i])
                    i += 1
                outl.extend(self.term(s, fr, b, blk['t']))
            except Fork as f:
                t = self.truth(s, f.cond, False)
                if t is not None:
                    # take the decided branch everywhere
                    n = 0
                    for ob, v in list(s.mem.items()):
                        if isinstance(v, T):
                            x = rebuild(v, lambda y: (y.a[1] if t else y.a[2]) if y.op in ('ite', 'fite', 'bite') and y.a[0] is f.cond else None, {})
                            if x is not v:
                                n += 1
                                s.mem[ob] = x
                    if not n:
                        raise Gap('fork on a decided condition')
                    work.append((s, i))
                    continue
                for c in (f.cond, bnot(f.cond)):
                    s2 = s.assume(c)
                    if not self.P.infeasible_state(s2.facts):
                        work.append((s2, i))
            except Dead:
                pass
        return outl

    def stmt(self, st, fr, s):
        k, line = s
        if isinstance(k, str):
            return
        n, x = next(iter(k.items()))
        if n == 'Assign':
            pl, rv = x
            obj, path, ty = self.place(st, fr, pl)
            try:
                v = self.rvalue(st, fr, rv, ty, line)
            except Gap as g:
                self.gap('%s in %s' % (g, self.p.insts[fr.inst]['def']), fr.uid)
                v = self.mk_sym(ty, self.fresh('gap'))
            if path and path[-1][0] == 'w':
                path = path[:-1]
            self.write(st, obj, path, v)
        elif n == 'SetDiscriminant':
            obj, path, ty = self.place(st, fr, x['place'])
            t = self.p.types[ty]
            vi = x['variant_index']
            cur = self.read(st, obj, path)
            if cur.op == 'agg' and cur.a[1] == vi:
                return
            self.write(st, obj, path, agg(ty, vi, [UNDEF] * len(t['v'][vi]['f'])))
        elif n == 'Intrinsic':
            if 'Assume' in x:
                v = self.operand(st, fr, x['Assume'])
                st.facts = Fact(st.facts, v) if v is not TRUE else st.facts
            elif 'CopyNonOverlapping' in x:
                raise Gap('copy_nonoverlapping')
        # storage markers, nops: nothing

    def branch(self, st, lit):
        """[(True-state)] / feasible successors of a condition: list of (bool, state)"""
        t = self.truth(st, lit)
        if t is True:
            return [(True, st)]
        if t is False:
            return [(False, st)]
        return [(True, st.assume(lit)), (False, st.assume(bnot(lit)))]

    def term(self, st, fr, b, t):
        k = t['k']
        if isinstance(k, str):
            if k == 'Return':
                return [('ret', st)]
            if k == 'Unreachable':
                return []
            return []
        n, x = next(iter(k.items()))
        if n == 'Goto':
            return [(x['target'], st)]
        if n == 'SwitchInt':
            v = self.operand(st, fr, x['discr'])
            out = []
            cur = st
            if v.op in BOOLS:
                br = x['targets']['branches']
                # discr value 0 = false
                tgts = {int(val): tb for val, tb in br}
                ft = tgts.get(0, x['targets']['otherwise'])
                tt = tgts.get(1, x['targets']['otherwise'])
                if v.op == 'ite':
                    raise Fork(v.a[0])
                if v.op in ('and', 'or') and self.truth(st, v) is None:
                    for a in v.a:
                        if self.truth(st, a) is None:
                            raise Fork(a)
                while v.op == 'bite' and self.truth(st, v) is None:
                    t = self.truth(st, v.a[0], False)
                    if t is None:
                        raise Fork(v.a[0])
                    v = v.a[1] if t else v.a[2]
                for bv, s in self.branch(st, v):
                    out.append((tt if bv else ft, s))
                return out
            if v.op == 'undef':
                raise Gap('switch on undef in ' + self.p.insts[fr.inst]['def'])
            ty = self.op_ty(fr, x['discr'])
            tn = self.int_name(ty)
            for val, tb in x['targets']['branches']:
                val = int(val)
                if tn and INT[tn][1] and val > trange(tn)[1]:
                    val -= 1 << INT[tn][0]
                lit = eq(v, K(val))
                if lit.op in ('and', 'or', 'bite') and self.truth(cur, lit) is None:
                    for a in lit.a:
                        if self.truth(cur, a) is None:
                            raise Fork(a)
                tr = self.truth(cur, lit)
                if tr is True:
                    out.append((tb, cur))
                    cur = None
                    break
                if tr is False:
                    continue
                out.append((tb, cur.assume(lit)))
                cur = cur.assume(bnot(lit))
            if cur is not None:
                out.append((x['targets']['otherwise'], cur))
            # drop branches whose facts are contradictory
            return out
        if n == 'Assert':
            c = self.operand(st, fr, x['cond'])
            lit = c if x['expected'] else bnot(c)
            msg = x['msg'] if isinstance(x['msg'], str) else next(iter(x['msg']))
            if msg == 'Overflow':
                msg = 'Overflow ' + str(x['msg']['Overflow'][0])
            s = self.oblige(st, lit, 'assert ' + msg, fr.uid, t['line'])
            return [(x['target'], s)]
        if n == 'Drop':
            return [(x['target'], st)]
        if n == 'Call':
            return self.do_call(st, fr, b, t, x)
        raise Gap('terminator ' + n)

    def do_call(self, st, fr, b, t, x):
        f = x['func']
        fty = self.op_ty(fr, f)
        args = [self.operand(st, fr, a) for a in x['args']]
        atys = [self.op_ty(fr, a) for a in x['args']]
        obj, path, dty = self.place(st, fr, x['destination'])
        ft = self.p.types[fty]
        if ft['k'] != 'fndef':
            v = self.operand(st, fr, f)
            if v.op == 'agg' and self.p.types[v.a[0]]['k'] in ('fndef', 'closure'):
                fty = v.a[0]
                ft = self.p.types[fty]
        call = Call(self, st, fr, b, t['line'], args, atys, dty, ft, x['target'] is None)
        try:
            res = self.dispatch(call)
        except Gap as g:
            self.gap(str(g), fr.uid)
            res = self.havoc(call)
        out = []
        if x['target'] is None:
            return []
        for s, v in res:
            s = s.copy()
            p = path[:-1] if path and path[-1][0] == 'w' else path
            self.write(s, obj, p, v)
            out.append((x['target'], s))
        return out

    def havoc(self, call):
        """unknown callee: anything reachable through &mut arguments changes, the result is arbitrary"""
        s = call.st.copy()
        for a, ty in zip(call.args, call.atys):
            t = self.p.types[ty]
            if t['k'] in ('ref', 'ptr') and t.get('m') and a.op == 'ref':
                e = t['e']
                self.write(s, a.a[0], a.a[1], self.mk_sym(e, self.fresh('havoc')))
        return [(s, self.mk_sym(call.dty, self.fresh('ret')))]

    def dispatch(self, call):
        return self.dispatch_ft(call, call.ft)

    def dispatch_ft(self, call, ft):
        if ft['k'] == 'closure':
            raise Gap('direct closure call')
        if ft['k'] != 'fndef':
            raise Gap('indirect call')
        res = ft['res']
        nm, rn, inst = res.get('name'), res.get('rname'), res.get('inst')
        call.name, call.rname, call.inst = nm, rn, inst
        call.targs = ft.get('targs', [])
        for key in (rn, nm):
            if key is None:
                continue
            h = self.opaque.get(key)
            if h is not None:
                r = h(call)
                if r is not NotImplemented:
                    return r
        for key in (rn, nm):
            if key is None:
                continue
            h = self.models.get(key)
            if h is not None:
                r = h(call)
                if r is not NotImplemented:
                    return r
        for key in (rn, nm):
            if key is not None and key.endswith('::precondition_check'):
                return call.unit()
        if inst is None:
            raise Gap('unresolved call ' + str(nm))
        return self.enter(call, inst, call.args)

    def enter(self, call, inst, args):
        ins = self.p.insts[inst]
        kind = ins['kind']
        if kind == 'intrinsic':
            h = self.models.get('intrinsic:' + ins.get('intrinsic', ''))
            if h is None:
                raise Gap('intrinsic ' + str(ins.get('intrinsic')))
            r = h(call)
            return r
        if ins.get('body') is None:
            if call.diverges:
                call.panic('call ' + ins['def'])
            v = self.construct(call.dty, ins, args)
            if v is not None:
                return call.ret(v)
            raise Gap('no body: ' + ins['def'])
        if call.diverges and ins['crate'] in ('core', 'std', 'alloc'):
            call.panic('call ' + ins['def'])
        return self.call_inst(call.st, inst, args, call.fr.uid, call.b)

    def construct(self, ty, ins, args):
        """the value built by a tuple-variant or tuple-struct constructor used as a function"""
        t = self.p.types.get(ty)
        if t is None or t['k'] != 'adt' or '::' not in ins['def']:
            return None
        d = re.sub(r'::<.*?>(?=::|$)', '', ins['def'])
        last = d.split('::')[-1]
        for i, v in enumerate(t['v']):
            own = d == t['name'] if t['adt'] == 'struct' else d == t['name'] + '::' + last and v['n'] == last
            if own and len(v['f']) == len(args):
                return agg(ty, i, list(args))
        return None

    def call_value(self, call, f, args, tag=0):
        """call a closure / fn item value with the given arguments"""
        raise Gap('call of a function value')

    # ---------------------------------------------------------------- loops
    def leaves(self, a, b, path, acc, ty=None):
        """paths at which two values differ"""
        if a is b:
            return
        if a.op == 'sym' and b.op == 'agg':
            x = self.expand(a)
            if x.op == 'agg':
                a = x
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and a.a[2]:
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                self.leaves(x, y, path + (('f', i),), acc)
            return
        if a.op == 'vec' and b.op == 'vec':
            if a.a[0] is not b.a[0]:
                acc.add(path + (('len',),))
            if a.a[1] is not b.a[1]:
                acc.add(path + (('buf',),))
            return
        if a.op == 'deq' and b.op == 'deq':
            for i, nm in enumerate(('dstart', 'dlen', 'dbuf')):
                if a.a[i] is not b.a[i]:
                    acc.add(path + ((nm,),))
            return
        if a.op == 'arrc' and b.op == 'arrc' and len(a.a[1]) == len(b.a[1]):
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                self.leaves(x, y, path + (('i', K(i)),), acc)
            return
        if a.op == 'ref' and b.op == 'ref' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] is not None and b.a[2] is not None:
            if a.a[2] is not b.a[2]:
                acc.add(path + (('off',),))
            if a.a[3] is not b.a[3]:
                acc.add(path + (('rlen',),))
            return
        acc.add(path)

    def leaf_get(self, v, path):
        """value at a leaf path (None when the shape does not match)"""
        for s in path:
            k = s[0]
            if v.op == 'sym' and k == 'f':
                v = self.expand(v)
            if k == 'f':
                if v.op != 'agg' or s[1] >= len(v.a[2]):
                    return None
                v = v.a[2][s[1]]
            elif k == 'i':
                if v.op != 'arrc':
                    return None
                v = v.a[1][cval(s[1])]
            elif k in ('len', 'buf'):
                if v.op != 'vec':
                    return None
                v = v.a[0 if k == 'len' else 1]
            elif k in ('dstart', 'dlen', 'dbuf'):
                if v.op != 'deq':
                    return None
                v = v.a[('dstart', 'dlen', 'dbuf').index(k)]
            elif k in ('off', 'rlen'):
                if v.op != 'ref' or v.a[2] is None:
                    return None
                v = v.a[2 if k == 'off' else 3]
            else:
                return None
        return v

    def leaf_set(self, v, path, new):
        if not path:
            return new
        s = path[0]
        k = s[0]
        if v.op == 'sym' and k == 'f':
            v = self.expand(v)
        if k == 'f':
            l = list(v.a[2])
            l[s[1]] = self.leaf_set(l[s[1]], path[1:], new)
            return mk('agg', v.a[0], v.a[1], tuple(l))
        if k == 'i':
            l = list(v.a[1])
            c = cval(s[1])
            l[c] = self.leaf_set(l[c], path[1:], new)
            return mk('arrc', v.a[0], tuple(l))
        if k == 'len':
            return mk('vec', new, v.a[1])
        if k == 'buf':
            return mk('vec', v.a[0], new)
        if k in ('dstart', 'dlen', 'dbuf'):
            l = list(v.a)
            l[('dstart', 'dlen', 'dbuf').index(k)] = new
            return mk('deq', *l)
        if k == 'off':
            return mk('ref', v.a[0], v.a[1], new, v.a[3])
        if k == 'rlen':
            return mk('ref', v.a[0], v.a[1], v.a[2], new)
        raise Gap('leaf ' + k)

    def phi_for(self, v, others, nm, obj, path):
        """fresh loop symbol of the same kind as v"""
        vs = [v] + others
        last = path[-1][0] if path else None
        for ops, make in self.phi_kinds:
            if any(x.op in ops for x in vs):
                return make(v, nm)
        if all(x.op == 'poly' for x in vs):
            if last in ('len', 'dlen', 'dstart', 'rlen', 'off'):
                return isym(nm, 0, 1 << 63)
            rs = None
            ty = self.leaf_ty(obj, path)
            if ty is not None and self.int_name(ty):
                rs = trange(self.int_name(ty))
            return isym(nm, *(rs or (None, None)))
        if all(x.op in BOOLS for x in vs):
            return mk('bsym', nm)
        if all(x.op in FLOATS for x in vs):
            ty = self.leaf_ty(obj, path)
            return mk('fsym', nm, self.p.types[ty]['n'] if ty is not None and self.p.types[ty]['k'] == 'float' else 'f32')
        if last in ('buf', 'dbuf') or any(x.op in ('arrc', 'arrsym', 'store', 'fill', 'window', 'concat', 'lam') for x in vs):
            for x in vs:
                try:
                    return mk('arrsym', self.arr_ety(x), nm)
                except Gap:
                    pass
        for x in vs:
            ty = None
            if x.op in ('agg', 'sym'):
                ty = x.a[0]
            elif x.op == 'ite':
                y = x
                while y.op == 'ite':
                    y = y.a[1]
                if y.op in ('agg', 'sym'):
                    ty = y.a[0]
            if ty is not None:
                return self.mk_sym_flat(ty, nm)
        ty = self.leaf_ty(obj, path)
        if ty is not None:
            return self.mk_sym(ty, nm)
        raise Gap('loop variable of kind %s' % ','.join(x.op for x in vs))

    def mk_sym_flat(self, ty, nm):
        return self.mk_sym(ty, nm)

    def leaf_ty(self, obj, path):
        ty = self.objty.get(obj)
        if ty is None:
            return None
        variant = 0
        for s in path:
            t = self.p.types[ty]
            if s[0] == 'f':
                if t['k'] == 'adt':
                    try:
                        ty = t['v'][0]['f'][s[1]][1] if t['adt'] == 'struct' else None
                    except IndexError:
                        return None
                    if ty is None:
                        return None
                elif t['k'] in ('tuple', 'closure'):
                    ty = t['f'][s[1]]
                else:
                    return None
            elif s[0] == 'i':
                if 'e' not in t:
                    return None
                ty = t['e']
            else:
                return None
        return ty

    def live_objs(self, fr, st):
        return st.mem

    def loop(self, fr, L, s0):
        # 1. try to unroll while the exit condition is decided
        if self.unroll:
            s = [s0]
            acc = Out()
            rec = self.record
            for it in range(self.unroll):
                self.record = False
                o = self.region(fr, L, L.head, s)
                self.record = rec
                if o.back and (o.exits or o.ret):
                    break
                # decided: redo with recording
                if rec:
                    o = self.region(fr, L, L.head, s)
                if not o.back:
                    for t, sl in o.exits.items():
                        acc.exits.setdefault(t, []).extend(sl)
                    acc.ret.extend(o.ret)
                    if rec:
                        t = fr.body['blocks'][L.head]['t']
                        self.loops_seen.setdefault((self.p.insts[fr.inst]['def'], L.head), []).append(
                            {'ranked': 'decided to end after %d iterations' % it, 'where': self.where(fr.uid), 'line': t['line'], 'file': t['file']})
                    return acc
                s = self.merge(o.back)
                if len(s) > 4:
                    break
            else:
                pass
            if len(s) == 1 and s[0] is not s0 and it > 0 and it < self.unroll:
                # partially unrolled prefix (all decided): continue from there
                pass
        return self.loop_summary(fr, L, s0)

    def loop_summary(self, fr, L, s0):
        rec = self.record
        s00 = s0
        key = (fr.uid, L.head)
        phis = dict(self.loop_memo.get(key, {}))
        # keep only paths still meaningful for this entry state
        paths = set(p for p in phis if p[0] in s0.mem and self.leaf_get(s0.mem[p[0]], p[1]) is not None)
        nm0 = name('phi', fr.uid, L.head, s0.facts.depth, self.state_tag(s0))
        f0 = self.fresh_n
        self.record = False
        try:
            # 2. find the modified locations
            first = True
            for _ in range(12):
                head, phi = self.head_state(s0, paths, nm0)
                o = self.loop_region(fr, L, head)
                new = set()
                for b in o.back:
                    for ob, v in b.mem.items():
                        h = head.mem.get(ob)
                        if h is None:
                            h = self.default(ob)
                            if h is not None and h is not v:
                                if s0 is s00:
                                    s0 = s0.copy()
                                s0.mem[ob] = h
                        if h is None or h is v:
                            continue
                        acc = set()
                        self.leaves(h, v, (), acc)
                        for p in acc:
                            new.add((ob, p))
                new = set(x for x in new if x not in paths)
                if not new:
                    break
                # a changed location that contains known leaves replaces them
                for ob, p in new:
                    for q in list(paths):
                        if q[0] == ob and q[1][:len(p)] == p:
                            paths.discard(q)
                paths |= new
            else:
                raise Gap('loop does not stabilise in ' + self.p.insts[fr.inst]['def'])
            self.loop_memo[key] = {p: 1 for p in paths}
            if not o.back:
                self.record = rec
                if rec:
                    o = self.loop_region(fr, L, head)
                return o
            head, phi, o = self.twins(fr, L, s0, paths, nm0, head, phi, o)
            s0 = self.settled(s0, phi)
            # 3. affine induction variables and invariants, until nothing new is found
            n = isym(name(nm0, 'n'), 0, None)
            init = {k: self.leaf_get(s0.mem[k[0]], k[1]) for k in phi}
            affine, kept = {}, []
            h = head
            for _ in range(3):
                for _ in range(3):
                    new = self.affines(n, phi, init, affine, h, o, nm0, s0, f0)
                    if not new:
                        break
                    affine.update(new)
                    sub_ = {self.key_atom(phi[k]): v for k, v in new.items()}
                    kept = [self.subst(c, sub_) for c in kept]
                    h = self.head_with(s0, paths, nm0, affine, kept)
                    o = self.loop_region(fr, L, h)
                info = {'n': n, 'affine': affine, 'phi': self.head_state(s0, list(phi), nm0, affine)[1], 'init': init, 'base': s0.facts, 'nm': nm0, 's0': s0, 'f0': f0, 'known': []}
                cands = kept + [c for c in self.induction(s0, info, h, o) if c not in kept]
                again = list(cands)
                while True:
                    h = self.head_with(s0, paths, nm0, affine, cands)
                    o = self.loop_region(fr, L, h)
                    keep = [c for c in cands if all(self.prove(b, self.at_back(c, b, info)) for b in o.back)]
                    if len(keep) == len(cands):
                        if again is None:
                            break
                        # what was given up while more was assumed may hold after all
                        again = [c for c in again if c not in keep and all(self.prove(b.assume(le0(c)), self.at_back(c, b, info)) for b in o.back)]
                        if not again:
                            break
                        cands, again = keep + again, None
                        continue
                    cands = keep
                kept = cands
                if not self.affines(n, phi, init, affine, h, o, nm0, s0, f0):
                    break
            for k, v in affine.items():
                if (nm0, k) in self.spec:
                    nxt = self.subst(v, {single_atom(n): addk(n, 1)})
                    for b in o.back:
                        x = self.leaf_get(b.mem[k[0]], k[1])
                        if x is not nxt and not (x.op == 'poly' and self.prove(b, eq(x, nxt))):
                            self.nospec.add((nm0, k))
                            break
            if any((nm0, k) in self.nospec for k in affine if (nm0, k) in self.spec):
                self.spec = {y for y in self.spec if y[0] is not nm0}
                self.record = rec
                return self.loop_summary(fr, L, s00)
        finally:
            self.record = rec
        if rec:
            info['carried'] = self.carried(fr, L, s0, h, o, info)
            h = self.known_elements(s0, h, o, info)
            self.on_loop_final(fr, L, s0, h, o, info)
            o = self.loop_region(fr, L, h)
        return self.counted(self.lam_exits(fr, L, s0, h, o, info), info)

    @staticmethod
    def is_read(x):
        return x.op in ('sel', 'iop', 'unary') or x.op == 'isym' and str(x.a[0]).startswith('bits.')

    def carried(self, fr, L, s0, h, o, info):
        """a value read from memory at the end of an iteration (and before the first) for the condition of the next one:
        what it has to do with the other loop variables is not summarised"""
        found = False
        if self.rank(fr, L, s0, h, o, info):
            return False
        for k, f in info['phi'].items():
            a = self.key_atom(f) if f.op == 'poly' and k not in info['affine'] else None
            if a is None:
                continue
            vs = [self.leaf_get(b.mem[k[0]], k[1]) if k[0] in b.mem else None for b in o.back]
            if not all(v is not None and v.op == 'poly' and not contains(v, lambda x: x is a) for v in vs) or all(cval(v) is not None for v in vs):
                continue
            if info['init'].get(k) is None or not all(contains(v, self.is_read) for v in [info['init'][k]] + vs if cval(v) is None) or cval(info['init'][k]) is not None:
                continue
            if any(contains(lit, lambda x: x is a) for b in o.back for lit in self.flat(chain(b.facts, h.facts))):
                self.gap('a value computed ahead for the next iteration of a loop in ' + self.p.insts[fr.inst]['def'], fr.uid)
                found = True
        return found

    def settled(self, s0, phi):
        """the choices in the start values that are already decided there are taken"""
        got = {}

        def f(y):
            if y.op == 'iite' and y.a[0] not in got:
                got[y.a[0]] = self.truth(s0, y.a[0])
            if y.op == 'iite' and got[y.a[0]] is not None:
                return y.a[1] if got[y.a[0]] else ZERO
            return None

        s1 = s0
        for k in phi:
            v = self.leaf_get(s0.mem[k[0]], k[1])
            if v is None or v.op != 'poly' or not any(x.op == 'iite' for m, _ in v.a[0] for x in m):
                continue
            x = rebuild(v, f, {})
            if x is not v and cval(x) is not None:
                if s1 is s0:
                    s1 = s0.copy()
                s1.mem[k[0]] = self.leaf_set(s1.mem[k[0]], k[1], x)
        return s1

    def twins(self, fr, L, s0, paths, nm0, head, phi, o):
        """abstract values that start equal and are changed alike by every iteration are one value"""
        kinds = set(x for ops, _ in self.phi_kinds for x in ops)
        init = {k: self.leaf_get(s0.mem[k[0]], k[1]) for k in phi}
        groups = {}
        for k in sorted(phi, key=str):
            if init[k] is not None and init[k].op in kinds:
                groups.setdefault(init[k], []).append(k)
        groups = [g for g in groups.values() if len(g) > 1]
        while groups:
            for k in [k for k in self.twin if k[0] is nm0]:
                del self.twin[k]
            for g in groups:
                for k in g[1:]:
                    self.twin[(nm0, k)] = g[0]
            head, phi = self.head_state(s0, paths, nm0)
            o = self.loop_region(fr, L, head)
            new = []
            for g in groups:
                d = {}
                for k in g:
                    d.setdefault(tuple(self.leaf_get(b.mem[k[0]], k[1]) for b in o.back), []).append(k)
                new += list(d.values())
            if len(new) == len(groups):
                break
            groups = [g for g in new if len(g) > 1]
            if not groups:
                for k in [k for k in self.twin if k[0] is nm0]:
                    del self.twin[k]
                head, phi = self.head_state(s0, paths, nm0)
                o = self.loop_region(fr, L, head)
        return head, phi, o

    def counted(self, o, info):
        """an exit taken after a number of iterations that is known: put the number in place of the counter"""
        n = info['n']
        na = single_atom(n)
        variant = None
        for sl in list(o.exits.values()) + [o.ret]:
            for e in sl:
                tried, found = 0, []
                ends = set()
                for lit in reversed(list(self.flat(chain(e.facts, info['base'])))):
                    if lit.op not in ('le', 'eq'):
                        continue
                    c = [cc for m, cc in lit.a[0].a[0] if m == (na,)]
                    if not c or abs(c[0]) != 1 or any(na in m and m != (na,) for m, cc in lit.a[0].a[0]):
                        continue
                    x = sub(lit.a[0], scale(n, c[0]))
                    x = neg(x) if c[0] == 1 else x
                    if variant is None:
                        variant = set(self.phi_atoms(info['phi'], info['nm'])) | {na}
                    if x in found or contains(x, lambda y: y in variant):
                        continue
                    if lit.op == 'le':
                        ends.add((x, c[0]))
                        if (x, -c[0]) not in ends:
                            tried += 1
                            if tried > 8 or not self.prove(e, le(n, x) if c[0] == -1 else le(x, n)):
                                continue
                    found.append(x)
                if found:
                    # the simplest way to say it
                    self.replace_counter(e, na, min(found, key=lambda x: sum(1 for y in subterms(x))))
        return o

    def replace_counter(self, e, na, x):
        memo = {}

        def g(t):
            if t is na or t.op == 'poly' and single_atom(t) is na:
                return x
            if t.op == 'lam' and t.a[6] is na:
                return mk('lam', t.a[0], rebuild(t.a[1], g, memo), rebuild(t.a[2], g, memo), t.a[3], rebuild(t.a[4], g, memo), t.a[5], na)
            return None
        for ob, v in list(e.mem.items()):
            if isinstance(v, T):
                e.mem[ob] = rebuild(v, g, memo)
        e.facts = e.assume(eq(A(na), x)).facts

    def head_with(self, s0, paths, nm0, affine, kept):
        h, _ = self.head_state(s0, paths, nm0, affine)
        for c in kept:
            h = h.assume(le0(c))
        return h

    # -- arrays written element by element: after n iterations the elements of n blocks of w elements are known functions
    # of the block's number, everything else is as it was before the loop
    def lams(self, s0, h, o, info, only=None):
        subst = {}
        for k, f in info['phi'].items():
            if f.op == 'arrsym' and len(o.back) == 1 and (only is None or only(f)):
                try:
                    r = self.lam_of(k, f, s0, h, o.back[0], info)
                except Gap:
                    r = None
                if r is not None:
                    subst[f] = r
        return subst

    def known_elements(self, s0, h, o, info):
        """the state at the loop head with the summaries of the arrays of structures in it: what is written to one element
        does not concern the others, which the body may read"""
        subst = self.lams(s0, h, o, info, lambda f: self.p.types[self.arr_ety(f)]['k'] == 'adt')
        if not subst:
            return h
        memo = {}
        h = h.copy()
        for ob, v in list(h.mem.items()):
            if isinstance(v, T):
                h.mem[ob] = rebuild(v, lambda t: subst.get(t), memo)
        return h

    def lam_exits(self, fr, L, s0, h, o, info):
        subst = self.lams(s0, h, o, info)
        if not subst:
            return o
        memo = {}

        def g(t):
            return subst.get(t)
        # the old contents must not mention the summarised arrays themselves
        for sl in list(o.exits.values()) + [o.ret]:
            for e in sl:
                for ob, v in list(e.mem.items()):
                    if isinstance(v, T):
                        e.mem[ob] = rebuild(v, g, memo)
        return o

    def lam_of(self, k, f, s0, h, b, info):
        n, phi = info['n'], info['phi']
        na = single_atom(n)
        v = b.mem.get(k[0])
        v = None if v is None else self.leaf_get(v, k[1])
        if v is None:
            return None
        if v.op == 'lam' and v.a[1] is f:
            return self.lam_of_lam(k, f, v, s0, b, info)
        idxs = set()
        uses = set()
        todo = [(v, ())]
        while todo:
            x, gd = todo.pop()
            if x is f:
                continue
            if x.op == 'store':
                idxs.add(x.a[1])
                uses.add((x.a[1], gd))
                todo.append((x.a[0], gd))
            elif x.op == 'ite':
                todo += [(x.a[1], gd + (x.a[0],)), (x.a[2], gd + (bnot(x.a[0]),))]
            else:
                return None
        variant = self.phi_atoms(phi, info['nm'])
        step = base = None
        offs = []
        for i in idxs:
            st_, c0 = 0, {}
            ok = True
            for m, c in i.a[0]:
                if m == (na,):
                    st_ = c
                elif na in m:
                    ok = False
                else:
                    c0[m] = c
            c0 = poly(c0)
            if not ok or st_ == 0 or contains(c0, lambda x: x in variant):
                continue
            if step is None:
                step = st_
            if step == st_:
                offs.append(c0)
        if step is None:
            return None
        lo = offs[0]
        for c in offs[1:]:
            d = cval(sub(c, lo))
            if d is None:
                return None
            if d < 0:
                lo = c
        w = abs(step)
        if w > 8:
            return None
        bn = add(lo, scale(n, step))
        for i, gd in uses:
            bg = b
            for c in gd:
                bg = bg.assume(c)
            if not (self.prove(bg, le(bn, i)) and self.prove(bg, lt(i, addk(bn, w)))):
                return None
        a0 = self.leaf_get(s0.mem[k[0]], k[1])
        vals = []
        for t in range(w):
            x = self.arr_select(b, v, addk(bn, t))
            x = self.gate_simp(b, x) if isinstance(x, T) else x
            bad = []

            def g(y):
                if y.op == 'sel' and y.a[1] is f:
                    j = rebuild(y.a[2], g, {})
                    if self.untouched(b, j, lo, bn, step, w):
                        return self.arr_select(s0, a0, j)
                    bad.append(y)
                elif y.op == 'fsel' and y.a[0] is f:
                    j = rebuild(y.a[1], g, {})
                    if self.untouched(b, j, lo, bn, step, w):
                        return self.arr_select(s0, a0, j)
                    bad.append(y)
                elif y is f:
                    bad.append(y)
                elif y in variant and y is not na:
                    # another loop-carried value: a function of the iteration
                    r = renamed(y, 'at', n)
                    if r is not None:
                        return r
                    bad.append(y)
                elif y is not na and y.op in ('isym', 'fsym', 'bsym', 'sym', 'arrsym') and not self.invariant(y, info['s0'], info['f0'], info['known']):
                    # something new in every iteration
                    return renamed(y, 'at', n)
                return None
            x = rebuild(x, g, {})
            if bad:
                return None
            vals.append(x)
        return mk('lam', self.arr_ety(f), a0, lo, step, n, tuple(vals), na)

    def lam_of_lam(self, k, f, v, s0, b, info):
        """an inner loop writes a run of elements, the next iteration of the outer loop continues behind it"""
        n, phi = info['n'], info['phi']
        na = single_atom(n)
        ety, _, lo, step, cnt, vals, inner = v.a
        variant = self.phi_atoms(phi, info['nm'])
        new = lambda x: x in variant and x is not na or x is f or x.op in ('isym', 'fsym', 'bsym', 'sym', 'arrsym') and x is not na and x is not inner and not self.invariant(x, info['s0'], info['f0'], info['known'])
        if step != 1 or len(vals) != 1 or contains(lo, new) or contains(cnt, new):
            return None
        if not self.prove(b, eq(self.subst(lo, {na: addk(n, 1)}), add(lo, cnt))) or not self.prove(b, le(ZERO, cnt)):
            return None
        lo0 = self.subst(lo, {na: ZERO})
        q = isym(name('number of the element'))
        x = self.subst(vals[0], {inner: sub(add(lo0, q), lo)})
        if contains(x, lambda y: y is na or new(y) and y is not single_atom(q)):
            return None
        x = self.subst(x, {single_atom(q): A(inner)})
        return mk('lam', ety, self.leaf_get(s0.mem[k[0]], k[1]), lo0, 1, sub(lo, lo0), (x,), inner)

    def phi_atoms(self, phi, nm0):
        out = set()
        for k, f in phi.items():
            for x in subterms(f):
                if x.op in ('isym', 'bsym', 'fsym', 'arrsym', 'sym') and contains(x, lambda y: y is nm0):
                    out.add(x)
        return out

    def untouched(self, st, j, lo, bn, step, w):
        if step > 0:
            return self.prove(st, le(bn, j)) or self.prove(st, lt(j, lo))
        return self.prove(st, lt(j, addk(bn, w))) or self.prove(st, le(addk(lo, w), j))

    def lam_select(self, st, arr, idx):
        ety, a0, lo, step, n, vals, na = arr.a
        w = abs(step)
        if step > 0:
            c1, c2, d = le(lo, idx), lt(idx, add(lo, scale(n, w))), sub(idx, lo)
        else:
            c1, c2, d = lt(add(lo, scale(n, -w)), addk(idx, 1 - w)), lt(idx, addk(lo, w)), sub(addk(lo, w - 1), idx)
        t1 = self.truth(st, c1) if st is not None else None
        t2 = self.truth(st, c2) if st is not None else None
        old = None
        if t1 is False or t2 is False:
            return self.arr_select(st, a0, idx)
        K_ = K(w)
        q = div(d, K_)
        r = cval(sub(d, mul(K_, q)))
        if r is None:
            if all(v is vals[0] for v in vals):
                r = 0
            else:
                raise Gap('element of an array written in blocks: %s in %d' % (show(d), w))
        v = vals[r if step > 0 else w - 1 - r]
        v = rebuild(v, lambda x: q if x is na else None, {})
        if t1 and t2:
            return v
        return vite(band(c1, c2), v, self.arr_select(st, a0, idx))

    def resolve(self, st, v):
        """look through the array summaries occurring in a value"""
        memo = {}

        def g(t):
            if t.op == 'sel' and t.a[1].op in ('lam', 'store', 'concat', 'window', 'ite', 'fill'):
                try:
                    r = self.arr_select(st, t.a[1], rebuild(t.a[2], g, memo))
                except Gap:
                    return None
                return r if r.op != 'poly' or r is not A(t) else None
            if t.op == 'fsel' and t.a[0].op in ('lam', 'store', 'concat', 'window', 'ite', 'fill'):
                try:
                    r = self.arr_select(st, t.a[0], rebuild(t.a[1], g, memo))
                except Gap:
                    return None
                return r if r is not t else None
            return None
        for _ in range(6):
            v2 = rebuild(v, g, memo)
            if v2 is v:
                return v
            v = v2
            memo = {}
        return v

    def on_loop_final(self, fr, L, s0, h, o, info):
        key = (self.p.insts[fr.inst]['def'], L.head)
        r = self.loops_seen.setdefault(key, [])
        ranked = self.rank(fr, L, s0, h, o, info)
        if not ranked:
            ranked = None if info.get('carried') else False
        r.append({'ranked': ranked, 'where': self.where(fr.uid), 'line': fr.body['blocks'][L.head]['t']['line'], 'file': fr.body['blocks'][L.head]['t']['file']})
        if self.on_loop:
            self.on_loop(fr, L, s0, h, o, info)

    def state_tag(self, s):
        # (a number: terms inside a name would be rewritten with the values around them)
        return s.facts.lit.id if s.facts.lit is not None else 0

    def head_state(self, s0, paths, nm0, affine=None):
        mem = dict(s0.mem)
        phi = {}
        for ob, p in sorted(paths, key=str):
            v0 = self.leaf_get(mem[ob], p)
            if v0 is None:
                continue
            if affine and (ob, p) in affine:
                f = affine[(ob, p)]
            else:
                q = self.twin.get((nm0, (ob, p)), (ob, p)) if self.twin else (ob, p)
                f = self.phi_for(v0, [], name(nm0, str(q[0]), str(q[1])), ob, p)
            phi[(ob, p)] = f
            mem[ob] = self.leaf_set(mem[ob], p, f)
        return State(mem, s0.facts), phi

    def affines(self, n, phi, init, affine, h, o, nm0, s0, f0):
        """loop variables that move by the same loop-invariant amount on every path"""
        phiatoms = self.phi_atoms(phi, nm0)
        phiatoms.add(single_atom(n))
        out = {}
        known = []
        na = single_atom(n)
        for k, f in phi.items():
            if k in affine or f.op != 'poly' or init[k] is None or init[k].op != 'poly':
                continue
            if affine and self.key_atom(f) is not None and len({self.leaf_get(b.mem[k[0]], k[1]) if k[0] in b.mem else None for b in o.back}) == 1:
                # computed ahead for the next iteration: a function of the counter that starts one step earlier
                v = self.leaf_get(o.back[0].mem[k[0]], k[1]) if k[0] in o.back[0].mem else None
                if v is not None and v.op == 'poly' and contains(v, lambda x: x is na) and not contains(v, lambda x: x in phiatoms and x is not na) and self.invariant(self.subst(v, {na: ZERO}), s0, f0, known):
                    g0 = self.simp(s0, self.subst(v, {na: K(-1)}))
                    if g0 is init[k] or g0 is self.simp(s0, init[k]) or self.prove(s0, eq(g0, init[k])):
                        out[k] = self.subst(v, {na: addk(n, -1)})
                        continue
            deltas = set()
            spec = False
            for b in o.back:
                v = b.mem.get(k[0])
                v = None if v is None else self.leaf_get(v, k[1])
                if v is None or v.op != 'poly':
                    deltas = None
                    break
                d = sub(v, f)
                va = single_atom(v)
                if cval(d) is None and va is not None and va.op == 'wrap' and v is A(va) and (nm0, k) not in self.nospec:
                    # constant step if nothing wraps around: checked when the invariants are known
                    w = cval(sub(va.a[1], f))
                    if w is not None:
                        d = K(w)
                        spec = True
                deltas.add(d)
            if not deltas:
                continue
            d = deltas.pop()
            ia = single_atom(init[k])
            if not deltas and ia is not None and ia.op == 'unary' and init[k] is A(ia):
                va = single_atom(add(d, f))
                c = cval(va.a[1]) if va is not None and va.op == 'div' and va.a[0] is f and add(d, f) is A(va) else None
                if c is not None and c & (c - 1) == 0:
                    out[k] = A(mk('unary', add(ia.a[0], scale(n, 1 - c.bit_length())), ia.a[1]))
                    continue
            if any(not self.prove_eq(b, d, e) for e in deltas for b in o.back):
                continue
            if cval(d) is not None:
                out[k] = add(init[k], scale(n, cval(d)))
                if spec:
                    self.spec.add((nm0, k))
            elif not contains(d, lambda x: x in phiatoms) and self.invariant(d, s0, f0, known):
                out[k] = add(init[k], mul(n, d))
        return out

    def prove_eq(self, st, a, b):
        return a is b

    def induction(self, s0, info, head2, o2):
        n, affine, init, phi2 = info['n'], info['affine'], info['init'], info['phi']

        def back_val(b, k):
            v = b.mem.get(k[0])
            return None if v is None else self.leaf_get(v, k[1])
        cands = []
        seen = set()

        def cand(p):
            """p (a poly over phis) <= 0"""
            l = le0(p)
            if l in (TRUE, FALSE) or l.id in seen:
                return
            seen.add(l.id)
            # must hold on entry
            p0 = self.subst(p, {**{self.key_atom(f): init[k] for k, f in phi2.items() if f.op == 'poly' and self.key_atom(f) is not None and k not in affine and init[k] is not None and init[k].op == 'poly'}, n.a[0][0][0][0]: ZERO})
            if self.prove(s0, le0(p0)):
                cands.append(p)
        free = [(k, f) for k, f in phi2.items() if f.op == 'poly' and k not in affine and init[k] is not None and init[k].op == 'poly' and self.key_atom(f) is not None]
        for k, f in free:
            cand(sub(init[k], f))
            cand(sub(f, init[k]))
            # a wide number stays far from its limits (which keeps conversions exact)
            ty = self.leaf_ty(*k)
            if ty is not None and self.int_name(ty) in ('u128', 'i128'):
                cand(sub(f, K(1 << 62)))
        # ... and against counters that start from related values
        for k, f in free:
            ia = {x for m, c in init[k].a[0] for x in m}
            if len(init[k].a[0]) == 1 and ia:
                for k2, v in affine.items():
                    i2 = init[k2]
                    if len(i2.a[0]) == 1 and v.op == 'poly' and ia & {x for m, c in i2.a[0] for x in m}:
                        cand(sub(v, f))
                        cand(sub(f, v))
        # what starts as a multiple of something may stay one
        for k, f in free:
            ms = init[k].a[0]
            if f is not ZERO and ms and all(m for m, c in ms):
                for x in ms[0][0]:
                    if all(x in m for m, c in ms) and x.op != 'div' and len(ms[0][0]) > 1:
                        cand(sub(f, mul(A(x), div(f, A(x)))))
        xs = set()
        for b in o2.back if DIVIDERS else ():
            for l in self.flat(chain(b.facts, info['base'])):
                xs |= DIVIDERS & set(subterms(l))
        for k, f in free:
            if k[1][-1:] in ((('len',),), (('dlen',),)):
                continue
            for x in sorted(xs, key=lambda x: x.id)[:3]:
                cand(sub(f, mul(A(x), div(f, A(x)))))
        pairs = [(i, j) for i in range(len(free)) for j in range(len(free)) if i != j]
        if len(free) > 8:
            # those that move by related amounts
            moved = []
            for k, f in free:
                acc = set()
                for b in o2.back:
                    v = back_val(b, k)
                    if v is not None and v.op == 'poly':
                        acc |= {x for x in subterms(sub(v, f)) if x.op == 'iite'}
                moved.append(acc)
            pairs = [(i, j) for i, j in pairs if moved[i] & moved[j]]
        for i, j in pairs:
            (k1, f1), (k2, f2) = free[i], free[j]
            cand(sub(sub(f1, f2), sub(init[k1], init[k2])))
            if i < j:
                # the sum is constant
                d = sub(add(f1, f2), add(init[k1], init[k2]))
                cand(d)
                cand(neg(d))
        for k, v in affine.items():
            va = single_atom(v)
            if va is not None and va.op == 'unary':
                cand(neg(va.a[0]))
            elif v.op == 'poly' and k[1][-1:] not in ((('len',),), (('dlen',),)):
                ty = self.leaf_ty(*k)
                if ty is not None and self.int_name(ty) and not INT[self.int_name(ty)][1]:
                    cand(neg(v))
        phis = self.phi_atoms(phi2, info['nm']) | {single_atom(n)}
        # slopes: a variable that moves by between dl and dh per iteration
        for k, f in free:
            dl = dh = 0
            first = True
            for b in o2.back:
                v = back_val(b, k)
                if v is None or v.op != 'poly':
                    dl = dh = None
                    break
                lo, hi = prange(sub(v, f))
                dl = lo if first else (None if dl is None or lo is None else min(dl, lo))
                dh = hi if first else (None if dh is None or hi is None else max(dh, hi))
                first = False
            if dl is not None and dl != 0 and abs(dl) < 1 << 40:
                cand(sub(add(init[k], scale(n, dl)), f))
            if dh is not None and dh != 0 and abs(dh) < 1 << 40:
                cand(sub(f, add(init[k], scale(n, dh))))
            if dl is not None and dh is not None and dl != dh:
                # always the same, if some path turns out to be impossible
                for dx in (dl, dh):
                    if dx and abs(dx) < 1 << 40:
                        x = sub(add(init[k], scale(n, dx)), f)
                        cand(x)
                        cand(neg(x))
            if dl == 0 and dh is not None and dh > 0:
                # grows only where another variable has caught up with it
                for k2, v2 in list(affine.items())[:6]:
                    c = [cc for m, cc in v2.a[0] if m == (single_atom(n),)]
                    if c and c[0] > 0 and dh % c[0] == 0:
                        cand(sub(f, lim(scale(v2, dh // c[0]), init[k], None)))
            # ... times a loop-invariant amount
            vs = [back_val(b, k) for b in o2.back]
            if all(v is not None and v.op == 'poly' for v in vs):
                ds = [d for d in (sub(v, f) for v in vs) if d is not ZERO]
                for x in sorted(set.intersection(*[set.intersection(*[set(m) for m, c in d.a[0]]) for d in ds]) if ds else (), key=lambda x: x.id)[:2]:
                    if contains(x, lambda y: y in phis) or not self.prove(s0, le(ZERO, A(x))):
                        continue
                    rs = [prange(poly({m[:m.index(x)] + m[m.index(x) + 1:]: c for m, c in d.a[0]})) for d in ds]
                    lo = None if any(r[0] is None for r in rs) else min(r[0] for r in rs)
                    hi = None if any(r[1] is None for r in rs) else max(r[1] for r in rs)
                    if lo is not None and abs(lo) < 1 << 40:
                        cand(sub(add(init[k], mul(A(x), scale(n, lo))), f))
                    if hi is not None and abs(hi) < 1 << 40:
                        cand(sub(f, add(init[k], mul(A(x), scale(n, hi)))))
        # what was known about the initial values
        back = {}
        for k, f in free:
            at = single_atom(init[k])
            if at is not None and at not in back:
                back[at] = f
        for k, v in affine.items():
            at = single_atom(init[k])
            if at is not None and at not in back:
                back[at] = v
        if back:
            es = [l for l in self.flat_and(chain(s0.facts)) if l.op in ('le', 'eq') and any(a in back for a in subterms(l.a[0]))]
            for l in es[:25] + es[25:][-25:]:
                p = self.subst(l.a[0], back)
                cand(p)
                if l.op == 'eq':
                    cand(neg(p))
        # relaxed guards of the loop
        sub_next = [self.next_map(b, info) for b in o2.back]
        atoms = set(self.key_atom(f) for k, f in free)
        atoms.add(n.a[0][0][0][0])
        for b in o2.back:
            for lit in self.flat(chain(b.facts, info['base'])):
                if lit.op != 'le':
                    if lit.op == 'not' and lit.a[0].op == 'eq':
                        # x != c with x moving towards c by one
                        q = lit.a[0].a[0]
                        for l2 in (q, neg(q)):
                            self.guard_cand(l2, 1, sub_next, atoms, cand)
                    continue
                self.guard_cand(lit.a[0], 0, sub_next, atoms, cand)
        return cands

    def guard_cand(self, g, slack, sub_next, atoms, cand):
        if not any(x in atoms for x in subterms(g)):
            return
        ds = set()
        for m in sub_next:
            gn = self.subst(g, m)
            ds.add(sub(gn, g))
        hi = None
        for d in ds:
            h = prange(d)[1]
            if h is None:
                return
            hi = h if hi is None else max(hi, h)
        if hi is None:
            return
        # g <= -slack on the previous iteration -> g <= hi - slack now
        cand(addk(g, -max(hi, 0) + slack))
        if hi > 1 and not slack:
            cand(addk(g, -1))
        # the step is a loop-invariant amount
        for d in ds:
            if len(ds) == 1 and cval(d) is None and len(d.a[0]) == 1 and not any(x in atoms for x in subterms(d)):
                cand(sub(g, d))

    def flat(self, lits):
        for l in lits:
            if l.op == 'and':
                yield from self.flat(l.a)
            elif l.op == 'guard':
                yield from self.flat(l.a[1])
                yield from self.flat(l.a[2])
            else:
                yield l

    @staticmethod
    def key_atom(f):
        return single_atom(f)

    def next_map(self, b, info):
        m = {}
        for k, f in info['phi'].items():
            if f.op == 'poly' and k not in info['affine']:
                at = single_atom(f)
                if at is None:
                    continue
                v = b.mem.get(k[0])
                v = None if v is None else self.leaf_get(v, k[1])
                if v is not None and v.op == 'poly':
                    m[at] = v
            elif f.op in ('arrsym', 'sym', 'bsym', 'fsym'):
                v = b.mem.get(k[0])
                v = None if v is None else self.leaf_get(v, k[1])
                if v is not None:
                    m[f] = v
        n = info['n']
        m[single_atom(n)] = addk(n, 1)
        return m

    def subst(self, p, m):
        if not m:
            return p
        def f(t):
            return m.get(t)
        return rebuild(p, f, {})

    def at_back(self, p, b, info):
        return le0(self.subst(p, self.next_map(b, info)))

    def invariant(self, d, s0, f0, known):
        """built only from symbols that exist before the loop"""
        for x in subterms(d):
            if x.op in ('isym', 'fsym', 'bsym', 'arrsym', 'sym') and any(y.op == 'n' and (y.a[0] == 'phi' or self.fresh_no.get(y, 0) > f0) for y in subterms(x)):
                if not known:
                    seen = set()
                    for v in list(s0.mem.values()) + list(chain(s0.facts)):
                        if isinstance(v, T):
                            seen.update(subterms(v))
                    known.append(seen)
                if x not in known[0]:
                    return False
        return True

    def rank(self, fr, L, s0, h, o, info):
        """a quantity bounded by a fact on every continuing path that moves by at least one per iteration"""
        if not o.back:
            return 'executes at most once'
        n = info['n']
        for b in o.back:
            m = self.next_map(b, info)
            ok = None
            facts = chain(b.facts, info['base'])
            for lit in list(self.flat_and(facts)) :
                if lit.op == 'not' and lit.a[0].op == 'eq':
                    # x != 0 for something that is never negative
                    p = lit.a[0].a[0]
                    lo, hi = prange(p)
                    lit = le0(sub(ONE, p)) if lo is not None and lo >= 0 else le0(addk(p, 1)) if hi is not None and hi <= 0 else lit
                if lit.op == 'le':
                    g = lit.a[0]
                    d = sub(self.subst(g, m), g)
                    lo = prange(d)[0]
                    if (lo is not None and lo >= 1) or (cval(d) is None and self.prove(b, le(ONE, d))):
                        ok = show(lit)
                        break
            if ok is None:
                # n bounded by an invariant of the head
                for lit in self.flat_and(chain(b.facts, s0.facts)):
                    if lit.op == 'le':
                        g = lit.a[0]
                        if single_atom(n) in patoms(g):
                            d = sub(self.subst(g, m), g)
                            lo = prange(d)[0]
                            if lo is not None and lo >= 1:
                                ok = show(lit)
                                break
            if ok is None:
                return None
        return ok

    def flat_and(self, lits):
        for l in lits:
            if l.op == 'and':
                yield from self.flat_and(l.a)
            else:
                yield l


def renamed(y, tag, n):
    """a symbol of its own for every n"""
    if y.op == 'isym':
        return isym(name(tag, y.a[0], n), y.a[1], y.a[2])
    if y.op in ('fsym', 'bsym'):
        return mk(y.op, name(tag, y.a[0], n), *y.a[1:])
    if y.op in ('sym', 'arrsym'):
        return mk(y.op, y.a[0], name(tag, y.a[1], n))
    return None


class Out:
    def __init__(self):
        self.back = []
        self.exits = {}
        self.ret = []


class Frame:
    __slots__ = ('uid', 'inst', 'body', 'cfg')

    def __init__(self, uid, inst, body, cfg):
        self.uid, self.inst, self.body, self.cfg = uid, inst, body, cfg


class Call:
    def __init__(self, I, st, fr, b, line, args, atys, dty, ft, diverges):
        self.I, self.st, self.fr, self.b, self.line = I, st, fr, b, line
        self.args, self.atys, self.dty, self.ft, self.diverges = args, atys, dty, ft, diverges
        self.name = self.rname = self.inst = None
        self.targs = []

    def panic(self, what):
        self.I.oblige(self.st, FALSE, 'panic ' + what, self.fr.uid, self.line)
        raise Dead()

    def oblige(self, lit, kind):
        self.st = self.I.oblige(self.st, lit, kind, self.fr.uid, self.line)

    def ret(self, v):
        return [(self.st, v)]

    def unit(self):
        return [(self.st, agg(self.dty, 0, []))]
