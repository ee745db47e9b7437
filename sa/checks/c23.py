from ..kit import Kit
from . import cli

FINISH = {'rule': 'every call that reaches the file system; the path of the one file created, as a concatenation of the output directory, the stem of the input and the extension of the other format; what has happened before it is created', 'floor': 20}


def check(ck):
    ck.kit = Kit('probe_cli', 'probe_cli.json')
    cli.run(ck, 'C23')
