"""C28: the exponent in the header of a frame gives the shortest frame."""
from ..kit import Kit
from ..par import parts
from . import bits, frames, search

FINISH = {'rule': 'what the search adds up for a candidate is, up to a constant common to all candidates, the length of the residual code; the candidate in the header costs no more than any other in 1..15', 'floor': 300}


def check(ck):
    ck.kit = Kit()
    ck.assume('Iterator::min_by and min_by_key return an item that is not greater than any other item')
    with ck.scope('search'):
        search.minimal(ck, frames.prediction_of(ck))
    with ck.scope('length of the code'), ck.keeping(lambda r: r.startswith('the code of a value')):
        bits.codes(ck, read=False)
