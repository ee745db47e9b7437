from ..kit import Kit
from . import headers

FINISH = {'rule': 'get, next, push, reset, set_cursor and truncate of the frame-header table on an arbitrary table, every position modulo 64: each column of every entry before and after, compared', 'floor': 5000}


def check(ck):
    ck.kit = Kit()
    with ck.scope('frame headers'):
        headers.table(ck)
