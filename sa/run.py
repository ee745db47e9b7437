"""python3 -m sa.run C10 [C11 ...]: decide properties on the current tree of /repo"""
import gc
import importlib
import os
import sys

sys.setrecursionlimit(20000)
# terms are hash-consed and live as long as the run: the collector only re-reads them
gc.disable()


def main():
    import threading
    threading.stack_size(512 << 20)
    rc = []

    def go():
        for pid in sys.argv[1:]:
            rc.append(one(pid))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(1 if any(rc) else 0)


def one(pid):
    from .check import Check
    from . import interp
    ck = Check(pid)
    interp.DEADLINE[0] = ck.t0 + (3000 if os.environ.get('VERIF_TIER') == 'thorough' else 600)
    fin = {}
    with ck.scope('setup'):
        m = importlib.import_module('sa.checks.' + pid.lower())
        fin = getattr(m, 'FINISH', {})
        m.check(ck)
    return ck.finish(**fin)


if __name__ == '__main__':
    main()
