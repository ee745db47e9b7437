from ..kit import Kit
from . import adhocparts as ap, wavparts as wp

FINISH = {'rule': 'every potential panic reachable from load (bounds, overflow, unwrap, division, slicing, capacity) proved unreachable for arbitrary input; ranges of every codec returned', 'floor': 45}


def check(ck):
    ck.kit = Kit()
    with ck.scope('AdhocCodec::load'):
        ap.load(ck, ('safe', 'range'))
    with ck.scope('WavCodec::load'):
        list(wp.load(ck, ('safe', 'range')))
