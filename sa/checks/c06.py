import os
from ..kit import Kit
from . import bits

FINISH = {'rule': 'each write of the bit stream followed by the read of the same width, for an arbitrary stream, every position modulo 128 and every value: the value read, the position and the bits before it as functions of the input, compared', 'floor': 10000}


def check(ck):
    ck.kit = Kit()
    with ck.scope('bit stream'):
        bits.laws(ck, os.environ.get('VERIF_TIER') == 'thorough')
