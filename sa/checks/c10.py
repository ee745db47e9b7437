from ..kit import Kit
from ..par import parts
from . import blocks, wavparts as wp

FINISH = {'rule': 'decode of both codecs, symbolic codec and buffer: the count returned, every element written and what it comes from, every element left alone', 'floor': 40}


def check(ck):
    ck.kit = Kit()
    parts(ck,
          ('WavCodec::decode', lambda ck: list(wp.decode(ck))),
          ('AdhocCodec::decode', lambda ck: blocks.decode(ck, {'prefix', 'content'})))
