"""independent parts of a check in forked processes"""
import multiprocessing as mp
import os

from .check import Check

_JOB = {}


def _one(i):
    import sys, threading
    ck0, fn, tasks = _JOB['j']
    out = {}

    def go():
        ck = Check(ck0.pid)
        ck.kit, ck.part = ck0.kit, ck0.part
        with ck.scope(ck0.part):
            ck.part = ck0.part
            r = fn(ck, tasks[i])
        out['r'] = (ck.items, ck.funcs, ck.loops, ck.gaps, ck.roots, ck.notes, ck.assumptions, r if isinstance(r, (dict, list, int, str, type(None))) else None)
    sys.setrecursionlimit(20000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out.get('r')


def parallel(ck, fn, tasks, procs=None):
    """fn(ck, task) for every task; obligations and coverage are merged into ck"""
    tasks = list(tasks)
    n = min(len(tasks), procs or int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1))
    if n <= 1:
        return [fn(ck, t) for t in tasks]
    _JOB['j'] = (ck, fn, tasks)
    res = []
    with mp.get_context('fork').Pool(n) as pool:
        for i, r in enumerate(pool.imap(_one, range(len(tasks)))):
            if r is None:
                ck.unknown('analysis of this part', ck.part, 'task %s ended without a result' % (tasks[i],))
                res.append(None)
                continue
            items, funcs, loops, gaps, roots, notes, assum, v = r
            ck.items += items
            for f, k in funcs.items():
                ck.funcs[f] = ck.funcs.get(f, 0) + k
            for k, b in loops.items():
                ck.loops[k] = ck.loops.get(k, True) and b
            ck.gaps.update(gaps)
            if gaps:
                ck.gapped = True
            for x in roots:
                if x not in ck.roots:
                    ck.roots.append(x)
            for x in notes:
                if x not in ck.notes:
                    ck.notes.append(x)
            for x in assum:
                ck.assume(x)
            res.append(v)
    return res


def parts(ck, *ps):
    """named parts (name, function of the check), each in a process and a scope of its own"""
    def run(ck, p):
        with ck.scope(p[0]):
            p[1](ck)
    with ck.scope(ck.part):
        parallel(ck, run, ps)
