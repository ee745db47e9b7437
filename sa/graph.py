"""Call graph of the monomorphic program: who calls what, where, and which constants and types are mentioned."""
from collections import deque

from .interp import succs


class Site:
    __slots__ = ('inst', 'block', 'line', 'file', 'name', 'callee', 'diverges', 'kind', 'arg')

    def __init__(self, inst, block, line, file, name, callee, diverges, kind, arg=None):
        self.inst, self.block, self.line, self.file, self.name, self.callee = inst, block, line, file, name, callee
        self.diverges, self.kind, self.arg = diverges, kind, arg


def walk(x):
    """all dicts inside a json value"""
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            yield y
            todo.extend(y.values())
        elif isinstance(y, list):
            todo.extend(y)


class Graph:
    def __init__(self, prog):
        self.p = prog
        self._sites = {}

    def live_blocks(self, k):
        """blocks reachable without unwinding"""
        body = self.p.insts[k].get('body')
        if not body:
            return []
        seen, todo = {0}, [0]
        while todo:
            b = todo.pop()
            for s in succs(body['blocks'][b]['t']):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return sorted(seen)

    def consts(self, x):
        for d in walk(x):
            if 'const_' in d and isinstance(d['const_'], dict):
                yield d['const_']

    def allocs_of(self, const):
        for d in walk(const.get('kind', const)):
            if 'provenance' in d and isinstance(d['provenance'], dict):
                for _, pr in d['provenance'].get('ptrs', []):
                    yield pr

    def sites(self, k):
        """calls, drops, function mentions and static mentions of instance k, on its normal paths"""
        if k in self._sites:
            return self._sites[k]
        out = []
        inst = self.p.insts[k]
        body = inst.get('body')
        for b in self.live_blocks(k):
            blk = body['blocks'][b]
            t = blk['t']
            line, file = t['line'], t['file']
            kd = t['k']
            called = None
            if isinstance(kd, dict):
                n, v = next(iter(kd.items()))
                if n == 'Call':
                    f = v['func']
                    c = f.get('Constant')
                    res = None
                    if c is not None:
                        called = c['const_']['ty']
                        ty = self.p.types[called]
                        if ty.get('k') == 'fndef':
                            r = ty['res']
                            out.append(Site(k, b, line, file, r.get('rname') or r['name'], r['inst'], v['target'] is None, 'call', ty))
                            res = True
                    if res is None:
                        out.append(Site(k, b, line, file, '(function pointer)', None, v['target'] is None, 'pointer'))
                    rest = v['args']
                elif n == 'Drop':
                    if 'drop' in t:
                        out.append(Site(k, b, line, file, 'drop of ' + self.p.types[t['dropty']]['s'], t['drop'], False, 'drop'))
                    rest = []
                elif n == 'InlineAsm':
                    out.append(Site(k, b, line, file, 'inline assembly', None, False, 'asm'))
                    rest = []
                else:
                    rest = v
            else:
                rest = []
            for where, ln in [(rest, line)] + [(s[0], s[1]) for s in blk['s']]:
                for c in self.consts(where):
                    ty = self.p.types.get(c.get('ty'))
                    if ty and ty.get('k') == 'fndef' and c.get('ty') != called:
                        r = ty['res']
                        out.append(Site(k, b, ln, file, r.get('rname') or r['name'], r['inst'], False, 'mention', ty))
                    for a in self.allocs_of(c):
                        for st in self.alloc_statics(a):
                            out.append(Site(k, b, ln, file, st[0], st[1], False, st[2], st[3]))
                for d in walk(where):
                    if 'ThreadLocalRef' in d:
                        out.append(Site(k, b, ln, file, 'thread-local variable', None, False, 'static', None))
        self._sites[k] = out
        return out

    def alloc_statics(self, a, seen=None):
        seen = set() if seen is None else seen
        import json
        key = json.dumps(a, separators=(',', ':')) if not isinstance(a, str) else a
        if key in seen:
            return
        seen.add(key)
        v = self.p.allocs.get(key)
        if v is None:
            return
        if 'static' in v:
            yield (v['static'], None, 'static', v['ty'])
        elif 'fn' in v:
            yield (self.p.insts[v['fn']]['def'], v['fn'], 'mention', None)
        elif 'mem' in v:
            for d in walk(v['mem']):
                if 'provenance' in d and isinstance(d['provenance'], dict):
                    for _, pr in d['provenance'].get('ptrs', []):
                        yield from self.alloc_statics(pr, seen)

    def reach(self, roots, stop=lambda s: False):
        """{instance: (caller site or None)} reachable from the named roots; calls that never return are not followed"""
        out = {}
        todo = deque()
        for r in roots:
            k = self.p.roots.get(r)
            if k is not None and k not in out:
                out[k] = None
                todo.append(k)
        while todo:
            k = todo.popleft()
            for s in self.sites(k):
                if s.callee is None or s.diverges or s.callee in out or stop(s):
                    continue
                out[s.callee] = s
                todo.append(s.callee)
        return out

    def path(self, reach, k):
        """call path from the entry point to instance k"""
        out = [self.p.insts[k]['def']]
        while reach.get(k) is not None:
            k = reach[k].inst
            out.append(self.p.insts[k]['def'])
        return ' > '.join(out[::-1])

    def local(self, k):
        return self.p.insts[k]['crate'] == 'adhoc_audio'
