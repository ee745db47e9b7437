from ..kit import *
from .. import floats
from . import wavparts as wp

FINISH = {'rule': 'every byte stored by encode, every sample returned by decode and every byte kept by load as a term over the inputs, compared with low-byte-first 16-bit PCM and the clamp/scale conversion', 'floor': 40}


def check(ck):
    ck.kit = Kit()
    with ck.scope('WavCodec::encode'):
        for _, lo, hi, want, s, R in wp.encode(ck, safe=False):
            v = wp.whole(lo, hi)
            leaf = floats.truncated(v) if v is not None else None
            ck.need(leaf is not None, 'two bytes, low byte first, of clamp(x, -1, 1) * 32767 truncated to 16 bits', R.root, show(v)[:400] if v is not None else '%s %s' % (show(lo)[:200], show(hi)[:200]))
            if leaf is not None:
                ck.need(same(R.I, s, leaf, want), 'sample k of the slice becomes the k-th sample after the position', R.root, show(leaf)[:300])
    with ck.scope('WavCodec::decode'):
        for _, x, want, s, R in wp.decode(ck, safe=False):
            y = floats.normalised(x)
            ck.need(y is not None and same(R.I, s, y, want), 'a returned sample is the 16-bit value times 1/32767', R.root, show(x)[:300])
    with ck.scope('WavCodec::load'):
        for x in wp.load(ck, ('content',)):
            wp.stored16(ck, x)
            wp.widened8(ck, x)
