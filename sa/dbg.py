"""development aid: run one root on arbitrary arguments and print what was found"""
import sys, time
from .extract import extract
from .terms import *
from .interp import *
from .models import M


def main():
    prog = Program(extract('probe'))
    for r in sys.argv[1:]:
        print('=====', r)
        t = time.time()
        I = Interp(prog, M)
        inst = prog.roots[r]
        body = prog.insts[inst]['body']
        args = [I.mk_sym(body['locals'][i + 1], name('arg', i)) for i in range(body['argc'])]
        try:
            res = I.run(inst, args, State({}, ROOT))
        except Exception as e:
            import traceback
            traceback.print_exc()
            continue
        for s, v in res:
            print('  RET', show(v)[:600])
            for o, w in s.mem.items():
                if o[0] == 'D':
                    print('     ', show_obj(o), '=', show(w)[:1500])
            print('      facts:', [show(x)[:150] for x in chain(s.facts, ROOT)][:12])
        for k, o in I.obls.items():
            if o['bad']:
                print('  UNPROVED', k, o['n'], o['bad'][0][1][:300], o['bad'][0][0][-3:])
        print('  obligations', len(I.obls), 'bad', sum(1 for o in I.obls.values() if o['bad']))
        for k, c in I.casts.items():
            if c['bad']:
                print('  CAST', k, c['bad'][0])
        for g, w in I.gaps.items():
            print('  GAP', g, w[-4:] if w else None)
        for k, l in I.loops_seen.items():
            print('  LOOP', k, [x['ranked'] for x in l][:3])
        print('  %.2fs' % (time.time() - t))


def show_obj(o):
    return '.'.join(str(x) if not isinstance(x, T) else show(x) for x in o)


main()
