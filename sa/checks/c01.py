from ..kit import Kit
from . import adhocparts as ap

FINISH = {'rule': 'the sequence of values AdhocCodec::save_to hands to the serialiser, each as a place in the codec, compared with the pinned 0.1.3 format; then AdhocCodec::load analysed on exactly that sequence, every restored component compared with the saved one', 'floor': 60}


def check(ck):
    ck.kit = Kit()
    with ck.scope('AdhocCodec::save_to'):
        ap.format_(ck)
    with ck.scope('AdhocCodec::load after save_to'):
        ap.roundtrip(ck)
