from ..kit import Kit
from ..par import parts
from . import bits, blocks, frames, headers, search, wavparts as wp
from .c05 import predicted

FINISH = {'rule': 'every bounds check, overflow check, division, unwrap and call of panic on the way from encode to the last bit written, for a symbolic codec and a symbolic slice of any length, each shown unreachable', 'floor': 3000}


def check(ck):
    ck.kit = Kit()
    ck.assume('allocation succeeds; a stream holds fewer than 2^31 frames and 2^57 bits')
    parts(ck,
          ('WavCodec::encode', lambda ck: list(wp.encode(ck, content=False))),
          ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'safe'})),
          ('FrameCodec::encode_frame', predicted(lambda ck, T: frames.encoder(ck, T, ('safe',)))),
          ('choice of the exponent', predicted(lambda ck, T: search.exponent(ck, T, ('safe',)))))
    safe = lambda r: r in ('the writer cannot fail', 'bit access cannot fail', 'push and get cannot fail', 'the exponent is between 1 and 15')
    with ck.scope('writer of the bit stream'), ck.keeping(safe):
        bits.writes(ck)
        bits.codes(ck, read=False)
    with ck.scope('frame headers'), ck.keeping(safe):
        headers.pushes(ck)
