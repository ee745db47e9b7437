"""The history of a channel (CircularStack) as what it stands for: the sequence of samples pushed so far.
hnew: nothing yet, hist(type, name): unknown history, hpush(history, sample).  `contract` shows that the code is such a stack."""
from ..kit import *
from ..models import loc

CS = 'adhoc_audio::collections::stack::CircularStack::<T>::'


def norm_h(h):
    return mk('hist', h.a[0], h.a[1]) if h.op == 'sym' else h


def size(I, h):
    """number of samples prev can reach"""
    h = norm_h(h)
    if h.op == 'hnew':
        return ZERO
    if h.op == 'hpush':
        return lim(addk(size(I, h.a[0]), 1), None, K(4))
    if h.op == 'hist':
        return isym(name('history length', h.a[1]), 0, 4)
    if h.op == 'ite':
        return iite2(h.a[0], size(I, h.a[1]), size(I, h.a[2]))
    raise Gap('history ' + h.op)


def iite2(c, a, b):
    return a if a is b else iite(c, a, b)


def prev(I, st, h, k):
    """the k-th last sample, k >= 1; the oldest one when there are fewer"""
    h = norm_h(h)
    if h.op == 'ite':
        v = I.truth(st, h.a[0])
        if v is not None:
            return prev(I, st, h.a[1] if v else h.a[2], k)
        return iite2(h.a[0], prev(I, st, h.a[1], k), prev(I, st, h.a[2], k))
    if h.op == 'hnew':
        return ZERO
    if h.op == 'hpush':
        if k == 1:
            return h.a[1]
        n = I.truth(st, le(size(I, h.a[0]), ZERO))
        if n is True:
            return h.a[1]
        return prev(I, st, h.a[0], k - 1) if n is False else iite2(le(size(I, h.a[0]), ZERO), h.a[1], prev(I, st, h.a[0], k - 1))
    if h.op == 'hist':
        return isym(name('hprev', h.a[1], k), -32768, 32767)
    raise Gap('history ' + h.op)


def install(I):
    def at(c):
        o, p = loc(I, c.st, c.args[0])
        return o, p, norm_h(I.read(c.st, o, p))

    def push(c):
        o, p, h = at(c)
        st = c.st.copy()
        I.write(st, o, p, mk('hpush', h, c.args[1]))
        return [(st, agg(c.dty, 0, []))]

    def prev_(c):
        o, p, h = at(c)
        k = cval(c.args[1])
        if k is None or k < 1 or k > 4:
            k = c.args[1]
            lo, hi = I.prange(c.st, k) if hasattr(I, 'prange') else (None, None)
            ks = [j for j in range(1, 5) if I.truth(c.st, eq(k, K(j))) is not False]
            if not I.prove(c.st, le(ONE, k)) or not I.prove(c.st, le(k, K(4))) or not ks:
                raise Gap('history index ' + show(k)[:60])
            r = prev(I, c.st, h, ks[-1])
            for j in ks[-2::-1]:
                r = iite2(eq(k, K(j)), prev(I, c.st, h, j), r)
            return c.ret(r)
        return c.ret(prev(I, c.st, h, k))
    I.opaque[CS + 'new'] = lambda c: c.ret(mk('hnew'))
    I.opaque[CS + 'push'] = push
    I.opaque[CS + 'prev'] = prev_
    I.opaque[CS + 'len'] = lambda c: c.ret(size(I, at(c)[2]))
    I.opaque['<adhoc_audio::collections::stack::CircularStack<T> as std::clone::Clone>::clone'] = lambda c: c.ret(at(c)[2])
    for f in ('pop', 'is_empty'):
        def other(c, f=f):
            raise Gap('CircularStack::' + f)
        I.opaque[CS + f] = other
    I.phi_kinds.append((('hist', 'hpush', 'hnew'), lambda v, nm: mk('hist', v.a[0] if v.op == 'hist' else 0, nm)))


def contract(ck, reach=9):
    """the code of CircularStack against its meaning above.  Every state the constructor and any number of pushes lead to is
    covered: states are followed until they repeat (samples being unknown, two states are the same if they hold the same
    samples counted from the last one)"""
    kit = ck.kit

    def call(root, objs, extra=()):
        I = kit.interp()
        a = list(kit.args(I, root))
        st = State({}, ROOT)
        for x, v in zip(a, objs):
            st.mem[x.a[0]] = v
        for i, v in extra:
            a[i] = v
        out = []
        for s, r in kit.run(I, root, a, st):
            if not I.P.infeasible_state(s.facts):
                out.append((I, s, r, [I.objval(s, x.a[0]) for x in a[:len(objs)]]))
        ck.covered(I, root)
        return I, out
    seen = {}

    def mk_other():
        I = kit.interp()
        return I.expand(I.objval(State({}, ROOT), kit.args(I, 'root_k_clone')[1].a[0]))

    def canon(v, n):
        back = {x: isym(name('last', n - 1 - i), -32768, 32767) for i, x in enumerate(pushed)}
        return rebuild(v, lambda t: back.get(t), {})
    I = kit.interp()
    (s, v), = kit.run(I, 'root_f_new', [], State({}, ROOT))
    pushed = []
    for n in range(reach):
        # what can be read back in this state
        for k in range(1, 5):
            want = pushed[-min(k, n)] if n else ZERO
            I, out = call('root_k_prev', [v], [(1, K(k))])
            ck.safe(I, 'reading the history cannot panic')
            for I, s, r, _ in out:
                for s2, x in cases(I, s, r):
                    ck.need(same(I, s2, x, want), 'prev(k) is the k-th last sample, the first one if there are fewer, 0 if there is none', 'CircularStack::prev', 'after %d samples, prev(%d) = %s' % (n, k, show(x)[:120]))
            ck.need(bool(out), 'prev returns', 'CircularStack::prev')
        c = canon(v, n)
        if c in seen:
            ck.need(True, 'every reachable history was covered: the state after %d samples is that after %d' % (n, seen[c]), 'CircularStack::push')
            break
        seen[c] = n
        # a copy is the same and leaves the original
        I, out = call('root_k_clone', [v, mk_other()])
        ck.safe(I, 'copying the history cannot panic')
        for I, s, r, (a, b) in out:
            ck.need(a is v, 'copying a history leaves it unchanged', 'CircularStack::clone')
            hs = [i for i, f in enumerate(kit.fields(kit.ty('FrameCodec'))) if 'CircularStack' in str(kit.p.types[f[1]].get('name', kit.p.types[f[1]].get('s', '')))]
            ck.need(bool(hs) and all(same(I, s, I.project(s, a, ('f', i)), I.project(s, b, ('f', i))) for i in hs), 'the copy of a history equals it', 'CircularStack::clone')
        x = isym(name('pushed', n), -32768, 32767)
        pushed.append(x)
        I, out = call('root_k_push', [v], [(1, x)])
        ck.safe(I, 'recording a sample cannot panic')
        if len(out) != 1:
            ck.unknown('recording a sample', 'CircularStack::push', '%d outcomes' % len(out))
            return
        v = out[0][3][0]
    else:
        ck.unknown('states of a history', 'CircularStack', 'no repetition after %d samples' % reach)
