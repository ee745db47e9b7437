from ..kit import Kit
from ..par import parts
from . import blocks, wavparts as wp

FINISH = {'rule': 'encode of both codecs, symbolic codec and slice: the count returned, the number of samples stored and where each stored sample comes from, as functions of the inputs'}


def check(ck):
    ck.kit = Kit()
    parts(ck,
          ('WavCodec::encode', lambda ck: list(wp.encode(ck, safe=False))),
          ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'count', 'content'})))
