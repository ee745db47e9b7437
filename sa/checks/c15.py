from ..kit import Kit
from . import adhocparts as ap, cli, wavparts as wp

FINISH = {'rule': 'every path of save_to/load on which a reader or writer call fails ends in None/Err; partial-write calls never count as complete', 'floor': 30}


def check(ck):
    ck.kit = Kit()
    with ck.scope('AdhocCodec::save_to'):
        ap.save_io(ck)
    with ck.scope('AdhocCodec::load'):
        ap.load(ck, ('io',))
    with ck.scope('WavCodec::save_to'):
        wp.save(ck, header=False, io=True, safe=False, counts=False)
    with ck.scope('WavCodec::load'):
        list(wp.load(ck, ('io',)))
    with ck.scope('command line tool'):
        ck.kit = Kit('probe_cli', 'probe_cli.json')
        cli.run(ck, 'C15')
