from ..kit import Kit
from . import adhocparts as ap, wavparts as wp

FINISH = {'rule': 'the codec returned by load as a term over the bytes read: positions, predictors, gains, header fields', 'floor': 40}


def check(ck):
    ck.kit = Kit()
    with ck.scope('AdhocCodec::load'):
        ap.load(ck, ('start',))
    with ck.scope('WavCodec::load'):
        list(wp.load(ck, ('start',)))
