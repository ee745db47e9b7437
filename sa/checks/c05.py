from ..kit import Kit
from ..par import parts
from . import bits, frames, hist, search

FINISH = {'rule': 'the sample decode_frame reconstructs and the sample encode_frame quantised, both as functions of the last three samples and the residual, compared for every state and length of a frame; the residual code as in C07', 'floor': 400}


def predicted(fn):
    def run(ck):
        fn(ck, frames.prediction_of(ck))
    return run


def check(ck):
    ck.kit = Kit()
    ck.assume('write_bit, write_bits, read_bit, read_bits and peek_bits obey C06, push and next of the header table C08')
    parts(ck,
          ('FrameCodec::decode_frame', predicted(lambda ck, T: frames.decoder(ck, T, ('code',)))),
          ('FrameCodec::encode_frame', predicted(lambda ck, T: frames.encoder(ck, T, ('code', 'header')))),
          ('choice of the exponent', predicted(lambda ck, T: search.exponent(ck, T, ('code', 'header')))),
          ('history of a channel', hist.contract))
    with ck.scope('residual code'), ck.keeping(lambda r: not r.endswith('cannot fail')):
        bits.codes(ck)
