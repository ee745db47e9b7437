from ..kit import Kit
from . import wavparts as wp

FINISH = {'rule': 'the bytes WavCodec::save_to hands to the writer and the fields WavCodec::load takes from the bytes read, each as a function of the codec state / of the file, compared with the canonical layout', 'floor': 100}


def check(ck):
    ck.kit = Kit()
    with ck.scope('WavCodec::save_to'):
        wp.save(ck, header=True, io=False, safe=False)
    with ck.scope('WavCodec::save_to accepts'):
        wp.save_accepts(ck)
    with ck.scope('WavCodec::load'):
        for x in wp.load(ck, ('header', 'content')):
            wp.stored16(ck, x)
