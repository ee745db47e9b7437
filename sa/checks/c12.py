from ..kit import Kit
from ..par import parts
from . import blocks, hist, wavparts as wp

FINISH = {'rule': 'seek of both codecs, symbolic codec, symbolic target: the position reached, the state of every channel, and every condition on the way', 'floor': 60}


def check(ck):
    ck.kit = Kit()
    parts(ck,
          ('WavCodec::seek', lambda ck: wp.seek(ck)),
          ('AdhocCodec::seek', lambda ck: blocks.seek(ck, {'safe', 'ranked', 'place'})),
          ('history of a channel', hist.contract))
