from ..kit import Kit
from . import adhocparts as ap, wavparts as wp

FINISH = {'rule': 'the codec object after info, filesize_upperbound, calculate_sample_count_per_channel and save_to, component by component, on every path (also those ending in an error), equals the object before', 'floor': 20}


def check(ck):
    ck.kit = Kit()
    with ck.scope('AdhocCodec'):
        ap.readonly(ck)
    with ck.scope('WavCodec'):
        wp.readonly(ck)
