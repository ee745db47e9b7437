from ..kit import Kit
from ..par import parts
from . import adhocparts as ap, blocks, frames, headers, wavparts as wp
from .c05 import predicted

FINISH = {'rule': 'every count and position that is stored: the value stored and the real one as terms over the same state, compared', 'floor': 100}


def check(ck):
    ck.kit = Kit()
    ck.assume('a stream holds fewer than 2^31 frames and 2^57 bits')
    parts(ck,
          ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'narrow'})),
          ('FrameCodec::encode_frame', predicted(lambda ck, T: frames.encoder(ck, T, ('header',)))),
          ('AdhocCodec::save_to', lambda ck: ap.roundtrip(ck)),
          ('WavCodec::save_to', lambda ck: wp.save(ck, header=False, io=False, safe=False, counts=True)))
    with ck.scope('frame headers'), ck.keeping(lambda r: r == 'the header read back is the one pushed'):
        headers.pushes(ck)
