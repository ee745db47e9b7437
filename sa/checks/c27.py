"""C27: the distance between a sample and what is decoded from it, as the sum of what each step on the way can add."""
from ..kit import Kit
from ..par import parts
from . import adhocparts as ap, bits, blocks, frames, hist, search
from .c05 import predicted

FINISH = {'rule': 'the sample handed to the frame codec is gain times the input plus a term whose interval is at most 0.001 times the gain, for every level; it is limited to [-1, 1], scaled by 32767 and cut off; the decoder reconstructs that integer (as in C05), divides by 32767 and multiplies by the inverse gain', 'floor': 400}


def check(ck):
    ck.kit = Kit()
    ck.assume('write_bit, write_bits, read_bit, read_bits and peek_bits obey C06, push and next of the header table C08; rounding of float operations is not counted')
    parts(ck,
          ('constructors and setters', lambda ck: ap.gains(ck)),
          ('AdhocCodec::encode', lambda ck: blocks.encode(ck, {'error'})),
          ('AdhocCodec::decode', lambda ck: blocks.decode(ck, {'gain'})),
          ('FrameCodec::decode_frame', predicted(lambda ck, T: frames.decoder(ck, T, ('code',)))),
          ('FrameCodec::encode_frame', predicted(lambda ck, T: frames.encoder(ck, T, ('code', 'header')))),
          ('choice of the exponent', predicted(lambda ck, T: search.exponent(ck, T, ('code', 'header')))),
          ('history of a channel', hist.contract))
    with ck.scope('residual code'), ck.keeping(lambda r: not r.endswith('cannot fail')):
        bits.codes(ck)
