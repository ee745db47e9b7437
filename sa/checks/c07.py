from ..kit import Kit
from . import bits

FINISH = {'rule': 'the bits the entropy writer appends, and the value and position the entropy reader returns on those bits, as functions of sign, quotient and remainder, for every exponent', 'floor': 200}


def check(ck):
    ck.kit = Kit()
    ck.assume('write_bit, write_bits, read_bit, read_bits and peek_bits obey C06')
    with ck.scope('entropy code'):
        bits.codes(ck)
