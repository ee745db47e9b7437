from ..kit import Kit
from ..par import parts
from . import adhocparts as ap, blocks

FINISH = {'rule': 'level and both gains of the codec as terms after every constructor and setter (all 11 levels and every level above), kept by every other call; the real polynomial each stored and each returned sample is', 'floor': 80}


def check(ck):
    ck.kit = Kit()
    parts(ck,
          ('constructors and setters', lambda ck: ap.gains(ck)),
          ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'gain'})),
          ('AdhocCodec::decode', lambda ck: blocks.decode(ck, {'gain'})),
          ('AdhocCodec::seek', lambda ck: blocks.seek(ck, {'gain'})))
