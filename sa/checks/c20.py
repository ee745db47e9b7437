"""C20: every loop reachable from the codecs has a measure that decreases on every iteration; no recursion."""
from ..check import OK
from ..graph import Graph
from ..interp import CFG
from ..kit import *
from ..par import parts
from . import adhocparts as ap, bits, blocks, frames, search, wavparts as wp

FINISH = {'rule': 'every loop of every function reachable from the codecs has an integer measure with a bound that moves by at least one on every iteration; no function of the crate can reach itself in the call graph', 'floor': 25}

API = ('root_a_', 'root_w_', 'root_i_')


def check(ck):
    ck.kit = Kit()
    parts(ck, *[(n, f if f is entropy else only_loops(f)) for n, f in (
        ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'ranked'})),
        ('AdhocCodec::decode', lambda ck: blocks.decode(ck, {'ranked'})),
        ('AdhocCodec::seek', lambda ck: blocks.seek(ck, {'ranked'})),
        ('AdhocCodec::load', lambda ck: ap.load(ck, ('ranked',))),
        ('AdhocCodec::init', ap.init),
        ('AdhocCodec::save_to', ap.save_io),
        ('sizes', sizes),
        ('WavCodec', wav),
        ('FrameCodec', frame),
        ('entropy code', entropy))])
    with ck.scope('loops'):
        covered(ck)
    with ck.scope('recursion'):
        recursion(ck)


def only_loops(f):
    def g(ck):
        with ck.keeping(lambda r: False):
            f(ck)
    return g


def sizes(ck):
    ap.bound(ck)
    ap.readonly(ck)
    wp.bound(ck)
    wp.readonly(ck)


def wav(ck):
    list(wp.load(ck, ('ranked',)))
    wp.save(ck)
    list(wp.encode(ck) or ())
    list(wp.decode(ck) or ())
    wp.seek(ck)
    wp.new(ck)


def frame(ck):
    T = frames.prediction_of(ck)
    frames.encoder(ck, T, ('ranked',))
    frames.decoder(ck, T, ('ranked',))
    search.exponent(ck, T, ('ranked',))


def entropy(ck):
    """any position in any stream (whatever the bits are), any exponent a header can hold, any value"""
    S = bits.setup(ck)
    for root, lo in (('root_s_read_compressed', 0), ('root_s_write_compressed', 1)):
        I = ck.kit.interp()
        args = ck.kit.args(I, root)
        obj = args[0].a[0]
        st, v = S.at(I, obj, isym(name('pos'), 0, bits.CHUNKS * 128))
        out = ck.kit.run(I, root, [args[0], isym(name('exponent'), lo, 15)] + args[2:], st)
        ck.need(bool(out), 'the entropy code returns', root, '')
        ck.covered(I, root)


def covered(ck):
    """every loop seen has a measure, and every loop of the crate's own functions was seen"""
    p = ck.kit.p
    G = Graph(p)
    reach = G.reach([r for r in p.roots if r.startswith(API)])
    for k, ok in sorted(ck.loops.items()):
        if ok is None:
            ck.unknown('every loop makes progress', k, 'depends on a value computed ahead for the next iteration')
            continue
        ck.need(ok, 'every loop makes progress', k, 'no measure decreases on every iteration' if not ok else 'measure found')
    for k in reach:
        d = p.insts[k]
        if not G.local(k) or not d.get('body'):
            continue
        for h in CFG(d['body']).loops:
            key = '%s#%d' % (d['def'], h)
            if key not in ck.loops:
                ck.unknown('every loop was analysed', key, 'not reached by the runs')
            else:
                ck.add(OK, 'every loop was analysed', key, '')


def recursion(ck):
    p = ck.kit.p
    G = Graph(p)
    reach = G.reach([r for r in p.roots if r.startswith(API)])
    ck.roots += [r for r in p.roots if r.startswith(API) and r not in ck.roots]
    nxt = {k: sorted({s.callee for s in G.sites(k) if s.callee in reach and not s.diverges}) for k in reach}
    for k in reach:
        if not G.local(k):
            continue
        # can it be reached from itself?
        seen, todo, back = set(), [(x, None) for x in nxt[k]], {}
        while todo:
            x, fr = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            back[x] = fr
            if x == k:
                break
            todo += [(y, x) for y in nxt[x] if y not in seen]
        way = []
        x = k if k in seen else None
        while x is not None:
            way.append(p.insts[x]['def'])
            x = back[x]
        ck.need(k not in seen, 'no function reaches itself', p.insts[k]['def'], ' > '.join(([p.insts[k]['def']] + way[::-1])[:8]))
