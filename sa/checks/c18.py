from ..kit import Kit
from . import adhocparts as ap, wavparts as wp

FINISH = {'rule': 'filesize_upperbound and the bytes save_to hands to the writer, both as linear terms over the lengths in the same arbitrary codec state; bound >= 8 * bytes proved by linear entailment', 'floor': 30}


def check(ck):
    ck.kit = Kit()
    with ck.scope('AdhocCodec'):
        ap.bound(ck)
    with ck.scope('WavCodec'):
        wp.bound(ck)
