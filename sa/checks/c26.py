from ..kit import Kit
from ..par import parts
from . import adhocparts as ap, bits, blocks, headers

FINISH = {'rule': 'the codec after init and after seek(Start(0)), field by field; every frame written after it extends a table that holds no later entry; a write replaces the bits at its position', 'floor': 5000}


def check(ck):
    ck.kit = Kit()
    parts(ck,
          ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'fresh', 'content'})),
          ('AdhocCodec::init', ap.init),
          ('AdhocCodec::seek(Start(0))', lambda ck: blocks.seek(ck, {'zero'})))
    with ck.scope('frame headers'):
        headers.drops(ck)
    with ck.scope('bit stream'), ck.keeping(lambda r: not r.endswith('cannot fail')):
        bits.laws(ck, False)
