from ..kit import Kit
from . import cli

FINISH = {'rule': 'protocol automaton over the calls of main: load, decode until None with every decoded range encoded in order, save; stream info and level of the new codec', 'floor': 20}


def check(ck):
    ck.kit = Kit('probe_cli', 'probe_cli.json')
    cli.run(ck, 'C24')
