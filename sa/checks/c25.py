from ..kit import Kit
from ..par import parts
from . import blocks

FINISH = {'rule': 'AdhocCodec::encode and decode, symbolic codec and slice: the channel each frame and sample belongs to, as a function of its position', 'floor': 20}


def check(ck):
    ck.kit = Kit()
    parts(ck,
          ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'order', 'content'})),
          ('AdhocCodec::decode', lambda ck: blocks.decode(ck, {'order', 'content'})))
