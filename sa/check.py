"""One run of the check of one property: obligations, verdict, evidence."""
from contextlib import contextmanager
import json
import os
import sys
import time
import traceback

from .extract import VERIF, REPO, ExtractError
from .interp import Gap, Dead, Fork
from .kit import Missing

OK, BAD, UNKNOWN = 'proved', 'violated', 'undecided'


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.items = []
        self.funcs = {}
        self.loops = {}
        self.gaps = {}
        self.roots = []
        self.notes = []
        self.assumptions = []
        self.t0 = time.time()
        self.part = ''
        self.gapped = False
        self.thorough = os.environ.get('VERIF_TIER') == 'thorough'

    # ------------------------------------------------------------ recording
    def add(self, status, rule, where, detail=''):
        if status == BAD and self.gapped:
            status = UNKNOWN
            detail = (detail + ' [not decided: part of the code on the way is outside the analysed language]').strip()
        self.items.append({'rule': rule, 'where': where, 'status': status, 'detail': detail, 'part': self.part})
        return status == OK

    def need(self, cond, rule, where='', detail=''):
        return self.add(OK if cond else BAD, rule, where, detail)

    @contextmanager
    def keeping(self, keep):
        """of the obligations found inside, those whose rule this property is about"""
        n = len(self.items)
        yield
        self.items[n:] = [x for x in self.items[n:] if x['status'] == UNKNOWN or keep(x['rule'])]

    def unknown(self, rule, where='', detail=''):
        self.add(UNKNOWN, rule, where, detail)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def scope(self, part):
        return Scope(self, part)

    def covered(self, I, root=None):
        """what an interpretation looked at"""
        for f, n in I.calls_seen.items():
            self.funcs[f] = self.funcs.get(f, 0) + n
        for g, w in I.gaps.items():
            self.gaps[g] = w
        if I.gaps:
            self.gapped = True
        for (f, h), rs in I.loops_seen.items():
            ok = None if any(r['ranked'] is None for r in rs) else all(r['ranked'] for r in rs)
            self.loops['%s#%d' % (f, h)] = ok
        if root and root not in self.roots:
            self.roots.append(root)

    def safe(self, I, rule, only=None):
        """every recorded condition (bounds, overflow, unwrap, division...) is proved"""
        for (f, line, kind), o in sorted(I.obls.items(), key=str):
            if only is not None and not only(f, kind):
                continue
            if o['bad']:
                w, lit, _ = o['bad'][0]
                self.add(BAD, rule, '%s:%s (%s)' % (f, line, ' > '.join(w[-4:])), '%s: cannot show %s' % (kind, lit))
            else:
                self.add(OK, rule, '%s:%s' % (f, line), kind)

    def ranked(self, I, rule):
        for (f, h), rs in sorted(I.loops_seen.items()):
            ok = all(r['ranked'] for r in rs)
            self.add(OK if ok else UNKNOWN if any(r['ranked'] is None for r in rs) else BAD, rule, '%s:%s' % (f, rs[0]['line']), ('measure ' + str(rs[0]['ranked'])) if ok else 'no measure decreases on every iteration')

    # ------------------------------------------------------------ verdict
    def finish(self, level='proof', rule='', trusted=(), floor=1):
        bad = [x for x in self.items if x['status'] == BAD]
        unk = [x for x in self.items if x['status'] == UNKNOWN]
        good = [x for x in self.items if x['status'] == OK]
        known = known_findings(self.pid)
        new = []
        for x in bad:
            k = next((e for e in known if e in finding_key(x)), None)
            if k is None:
                new.append(x)
            else:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, finding_key(x)))
        cov = {
            'obligations': len(good) + len(bad) + len(unk), 'discharged': len(good),
            'checker_cmd': 'python3 -m sa.run ' + self.pid, 'trusted_base': list(trusted) or TRUSTED,
            'rule': rule, 'entry_points': self.roots, 'functions_analysed': len(self.funcs),
            'functions': sorted(f for f in self.funcs if 'adhoc_audio' in f)[:200],
            'loops': {k: v for k, v in sorted(self.loops.items())}, 'undecided': len(unk), 'undecided_samples': unk[:10],
            'gaps': {g: w for g, w in list(self.gaps.items())[:20]}, 'notes': self.notes,
            'samples': [{k: x[k] for k in ('part', 'rule', 'where', 'detail')} for x in (good[:: max(1, len(good) // 12)] or [])[:14]],
            'proved_by_rule': count(good, 'rule'),
        }
        ev = {'property': self.pid, 'tier': 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if len(good) < floor and not new and not unk:
            ev['coverage']['notes'].append('fewer obligations than expected: %d < %d' % (len(good), floor))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(d, self.pid + '-violations.txt')
            with open(rp, 'w') as f:
                f.write('property %s, tree %s\n' % (self.pid, REPO))
                for x in new:
                    f.write('\n[%s] %s\n  at   %s\n  %s\n' % (x['part'], x['rule'], x['where'], x['detail']))
            for x in new[:12]:
                print('%s: [%s] %s\n    at %s\n    %s' % (self.pid, x['part'], x['rule'], x['where'], x['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        try:
            os.remove(os.path.join(d, self.pid + '-violations.txt'))
        except OSError:
            pass
        for x in unk[:6]:
            print('%s: undecided: [%s] %s at %s %s' % (self.pid, x['part'], x['rule'], x['where'], x['detail'][:300]))
        print('%s: %d obligations, %d proved, %d undecided, %.1f s' % (self.pid, cov['obligations'], len(good), len(unk), ev['wall_s']))
        return 0


TRUSTED = ['rustc front end and MIR construction (nightly), -Zmir-opt-level=0', 'the MIR extraction driver (/verif/driver)',
           'the abstract interpreter, its linear decision procedure and its summaries of standard library functions (/verif/sa)']


def count(xs, k):
    d = {}
    for x in xs:
        d[x[k]] = d.get(x[k], 0) + 1
    return d


def finding_key(x):
    return '[%s] %s at %s' % (x['part'], x['rule'], x['where'])


def known_findings(pid):
    """call sites listed as known: lines 'property=<id> <key>' (fixed entries suppress nothing)"""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('property=%s ' % pid):
                out.append(l.split(' ', 1)[1])
    except OSError:
        pass
    return out


class Scope:
    """part of a check: a failure of the analysis itself in it leaves that part undecided"""

    def __init__(self, ck, part):
        self.ck, self.part = ck, part

    def __enter__(self):
        self.old = (self.ck.part, self.ck.gapped)
        self.ck.part, self.ck.gapped = self.part, False
        return self.ck

    def __exit__(self, t, v, tb):
        try:
            if t is None or t in (KeyboardInterrupt, SystemExit):
                return False
            txt = '%s: %s' % (t.__name__, v)
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exception(t, v, tb)
            loc = traceback.extract_tb(tb)[-1]
            self.ck.unknown('analysis of this part', self.part, '%s (%s:%d)' % (txt[:400], os.path.basename(loc.filename), loc.lineno))
            return True
        finally:
            self.ck.part, self.ck.gapped = self.old
