"""C17: every unsafe operation reachable in the library is traced back to the object it looks at."""
from ..graph import Graph, walk
from ..kit import Kit, Missing
from ..interp import State
from . import wavparts as wp

FINISH = {'rule': 'every unsafe operation in library code reachable from safe callers: the pointer is traced to the object it comes from; extent, alignment, padding and validity of the view are computed from the type layouts',
          'floor': 6}

CASTS = ('PtrToPtr', 'Transmute', 'PointerCoercion')
SAME = ('cast', 'cast_mut', 'cast_const', 'from_ref', 'from_mut', 'as_ptr', 'as_mut_ptr', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'as_slice', 'as_mut_slice', 'borrow', 'borrow_mut', 'as_bytes')
VIEWS = ('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
LANG = ('std::fmt::Arguments', 'core::fmt::')            # used by the expansion of format_args!


class Fn:
    def __init__(self, g, k):
        self.g, self.k, self.p = g, k, g.p
        self.inst = g.p.insts[k]
        self.body = self.inst['body']
        self.defs = {}
        for b in self.body['blocks']:
            for s, ln in b['s']:
                if isinstance(s, dict) and 'Assign' in s:
                    pl, rv = s['Assign']
                    self.defs.setdefault(pl['local'], []).append(None if pl['projection'] else ('rv', rv, ln))
            t = b['t']
            if isinstance(t['k'], dict) and 'Call' in t['k']:
                c = t['k']['Call']
                pl = c['destination']
                self.defs.setdefault(pl['local'], []).append(None if pl['projection'] else ('call', c, t['line']))

    def ty(self, l):
        return self.body['locals'][l]

    def defn(self, l):
        d = self.defs.get(l, [])
        return d[0] if len(d) == 1 else None

    def place_ty(self, pl):
        t = self.ty(pl['local'])
        for e in pl['projection']:
            x = self.p.types[t]
            if e == 'Deref':
                if x['k'] in ('ref', 'ptr'):
                    t = x['e']
                elif x['k'] == 'adt' and x['name'] == 'std::boxed::Box':
                    t = x['targs'][0]
                else:
                    return None
            elif isinstance(e, dict) and 'Field' in e:
                t = e['Field'][1]
            elif isinstance(e, dict) and ('Index' in e or 'ConstantIndex' in e):
                t = x['e']
            else:
                return None
        return t

    def callee(self, c):
        f = c['func'].get('Constant')
        if f is None:
            return None
        ty = self.p.types[f['const_']['ty']]
        return (ty['res'].get('rname') or ty['res']['name'], ty) if ty.get('k') == 'fndef' else None

    # ---------------------------------------------------------------- origins
    # ('obj', type, key)       a pointer to the start of a value of that type
    # ('arr', elem type, key)  a pointer to the first of len(key) elements
    # ('many', [origins])
    def of_place(self, pl, via, depth):
        """origin of a pointer to the place"""
        pr = pl['projection']
        if pr == ['Deref']:
            return self.of_local(pl['local'], via, depth)
        if 'Deref' in pr[1:] and pr.index('Deref') > 0:
            pass
        t = self.place_ty(pl)
        if t is None:
            return None
        return self.of_type(t, (self.k, pl['local'], repr(pr)))

    def of_type(self, t, key):
        x = self.p.types[t]
        if x['k'] == 'slice':
            return ('arr', x['e'], key)
        if x['k'] == 'str':
            return ('arr', self.p.find_type('u8'), key)
        if x['k'] == 'adt' and x['name'] == 'std::vec::Vec':
            return ('arr', x['targs'][0], key)
        if x['k'] in ('array',):
            return ('obj', t, key)
        return ('obj', t, key)

    def of_local(self, l, via, depth=0):
        """origin of the pointer held by local l"""
        if depth > 40:
            return None
        x = self.p.types[self.ty(l)]
        d = self.defn(l)
        if d is None:
            if not self.defs.get(l) and 1 <= l <= self.body['argc']:
                if x['k'] == 'ref':
                    return self.of_type(x['e'], (self.k, l, 'param'))
                # a raw pointer handed in: every caller
                return self.callers(l, via, depth)
            return None
        kind, v, ln = d
        if kind == 'call':
            c = self.callee(v)
            if c is None:
                return None
            last = c[0].split('::')[-1].split('<')[0]
            if last in SAME and v['args'] and not c[0].startswith('adhoc_audio'):
                return self.of_operand(v['args'][0], via, depth + 1)
            if x['k'] == 'ref':
                return self.of_type(x['e'], (self.k, l, 'result'))
            return None
        if isinstance(v, dict):
            n, a = next(iter(v.items()))
            if n == 'Use':
                return self.of_operand(a[0] if isinstance(a, list) else a, via, depth + 1)
            if n == 'Cast' and (a[0] in CASTS or (isinstance(a[0], dict) and next(iter(a[0])) in CASTS)):
                return self.of_operand(a[1], via, depth + 1)
            if n in ('Ref', 'AddressOf'):
                return self.of_place(a[-1], via, depth + 1)
            if n == 'CopyForDeref':
                return self.of_operand({'Copy': a}, via, depth + 1)
        return None

    def of_operand(self, o, via, depth):
        n, a = next(iter(o.items()))
        if n in ('Copy', 'Move'):
            if not a['projection']:
                return self.of_local(a['local'], via, depth)
            t = self.place_ty(a)
            if t is not None and self.p.types[t]['k'] == 'ref':
                return self.of_type(self.p.types[t]['e'], (self.k, a['local'], repr(a['projection'])))
        if n == 'Constant':
            t = self.p.types[a['const_']['ty']]
            if t['k'] == 'ref':
                return self.of_type(t['e'], (self.k, 'const', repr(a['const_'])))
        return None

    def callers(self, l, via, depth):
        outs = []
        for site, c in via.get(self.k, []):
            f = via['fn'](site.inst)
            o = f.of_operand(c['args'][l - 1], via, depth + 1) if l - 1 < len(c['args']) else None
            if o is None:
                return None
            outs.append(o)
        return ('many', outs) if outs else None

    # ---------------------------------------------------------------- counts: (constant) or (len of key, num, den)
    def count(self, o, via, depth=0):
        if depth > 40:
            return None
        n, a = next(iter(o.items()))
        if n == 'Constant':
            return const_int(self.p, a['const_'])
        if a['projection']:
            if a['projection'] == [{'Field': [0, self.ty(a['local'])]}] or (len(a['projection']) == 1 and isinstance(a['projection'][0], dict) and a['projection'][0].get('Field', [None])[0] == 0):
                # result of a checked operation
                d = self.defn(a['local'])
                if d and d[0] == 'rv' and 'CheckedBinaryOp' in d[1]:
                    return self.binop(d[1]['CheckedBinaryOp'], via, depth)
            return None
        d = self.defn(a['local'])
        if d is None:
            if not self.defs.get(a['local']) and 1 <= a['local'] <= self.body['argc']:
                outs = []
                for site, c in via.get(self.k, []):
                    f = via['fn'](site.inst)
                    x = f.count(c['args'][a['local'] - 1], via, depth + 1)
                    if x is None:
                        return None
                    outs.append(x)
                return ('many', outs) if outs else None
            return None
        kind, v, ln = d
        if kind == 'call':
            c = self.callee(v)
            if c is None:
                return None
            nm = c[0]
            last = nm.split('::')[-1]
            if last == 'size_of' and nm.startswith(('std::mem', 'core::mem')):
                return ('c', self.p.types[c[1]['targs'][0]]['size'])
            if last == 'size_of_val' and v['args']:
                f = self.of_operand(v['args'][0], via, depth + 1)
                if f and f[0] == 'obj':
                    return ('c', self.p.types[f[1]]['size'])
                if f and f[0] == 'arr':
                    return ('len', f[2], self.p.types[f[1]]['size'], 1)
                return None
            if last == 'len' and v['args']:
                f = self.of_operand(v['args'][0], via, depth + 1)
                if f and f[0] == 'arr':
                    return ('len', f[2], 1, 1)
                if f and f[0] == 'obj' and self.p.types[f[1]]['k'] == 'array':
                    return ('c', self.p.types[f[1]]['n'])
            return None
        if isinstance(v, dict):
            n, x = next(iter(v.items()))
            if n == 'Use':
                return self.count(x[0] if isinstance(x, list) else x, via, depth + 1)
            if n == 'BinaryOp':
                return self.binop(x, via, depth)
            if n == 'Cast':
                return self.count(x[1], via, depth + 1)
            if n == 'Len':
                f = self.of_place(x, via, depth + 1)
                if f and f[0] == 'arr':
                    return ('len', f[2], 1, 1)
            if n == 'UnaryOp' and x[0] == 'PtrMetadata':
                f = self.of_operand(x[1], via, depth + 1)
                if f and f[0] == 'arr':
                    return ('len', f[2], 1, 1)
        return None

    def binop(self, x, via, depth):
        op, a, b = x
        a, b = self.count(a, via, depth + 1), self.count(b, via, depth + 1)
        if a is None or b is None or a[0] == 'many' or b[0] == 'many':
            return None
        if op in ('Mul', 'MulUnchecked'):
            if a[0] == 'c' and b[0] == 'c':
                return ('c', a[1] * b[1])
            if b[0] == 'len':
                a, b = b, a
            if a[0] == 'len' and b[0] == 'c':
                return ('len', a[1], a[2] * b[1], a[3])
        if op == 'Div' and b[0] == 'c' and b[1] > 0:
            return ('c', a[1] // b[1]) if a[0] == 'c' else ('len', a[1], a[2], a[3] * b[1])
        if op in ('Shr', 'ShrUnchecked') and b[0] == 'c':
            return ('c', a[1] >> b[1]) if a[0] == 'c' else ('len', a[1], a[2], a[3] << b[1])
        if op in ('Shl', 'ShlUnchecked') and b[0] == 'c':
            return ('c', a[1] << b[1]) if a[0] == 'c' else ('len', a[1], a[2] << b[1], a[3])
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked') and a[0] == 'c' and b[0] == 'c':
            return ('c', a[1] + b[1] if op.startswith('Add') else a[1] - b[1])
        return None


def const_int(p, c):
    t = p.types.get(c.get('ty'))
    if not t or t['k'] not in ('int', 'uint'):
        return None
    for d in walk(c.get('kind', {})):
        if 'bytes' in d and isinstance(d['bytes'], list):
            bs = [b or 0 for b in d['bytes']]
            return ('c', sum(b << (8 * i) for i, b in enumerate(bs)))
    return None


def tiles(p, t):
    """no padding byte anywhere in the type"""
    x = p.types[t]
    k = x['k']
    if k in ('int', 'uint', 'float', 'bool', 'char'):
        return True
    if k == 'array':
        return tiles(p, x['e'])
    if k == 'tuple' or (k == 'adt' and x['adt'] == 'struct'):
        fs = x['f'] if k == 'tuple' else [f for _, f in x['v'][0]['f']]
        return sum(p.types[f]['size'] for f in fs) == x['size'] and all(tiles(p, f) for f in fs)
    return False


def plain(p, t):
    """every bit pattern is a valid value"""
    x = p.types[t]
    k = x['k']
    if k in ('int', 'uint', 'float'):
        return True
    if k == 'array':
        return plain(p, x['e'])
    if k == 'tuple':
        return all(plain(p, f) for f in x['f'])
    if k == 'adt' and x['adt'] == 'struct':
        return all(plain(p, f) for _, f in x['v'][0]['f'])
    return False


def judge(p, org, cnt, elem, mut):
    """None when the view of cnt elements of type elem at org is valid, else what is wrong"""
    if org[0] == 'many':
        cs = cnt[1] if cnt and cnt[0] == 'many' else [cnt] * len(org[1])
        for o, c in zip(org[1], cs):
            r = judge(p, o, c, elem, mut)
            if r:
                return r
        return None
    if cnt is None:
        return 'the length of the view is not known'
    if cnt[0] == 'many':
        for c in cnt[1]:
            r = judge(p, org, c, elem, mut)
            if r:
                return r
        return None
    E = p.types[elem]
    base = org[1]
    B = p.types[base]
    if 'size' not in B or 'size' not in E:
        return 'the size of the object is not known'
    if E['align'] > B['align']:
        return 'a view of %s (alignment %d) over data of type %s (alignment %d) can be misaligned' % (E['s'], E['align'], B['s'], B['align'])
    if org[0] == 'obj':
        if cnt[0] != 'c':
            return 'the length of the view is not the size of the object'
        if cnt[1] * E['size'] > B['size']:
            return 'a view of %d bytes over %s of %d bytes' % (cnt[1] * E['size'], B['s'], B['size'])
    else:
        if cnt[0] == 'c':
            if cnt[1] != 0:
                return 'a view of fixed length over a slice of any length'
        elif cnt[1] != org[2]:
            return 'the length of the view is that of another object'
        elif cnt[2] * E['size'] > cnt[3] * B['size']:
            return 'a view of len*%d/%d elements of %s over len elements of %s' % (cnt[2], cnt[3], E['s'], B['s'])
    if elem != base:
        if not tiles(p, base):
            return 'a view of %s as %s exposes padding bytes' % (B['s'], E['s'])
        if not plain(p, elem):
            return 'not every bit pattern is a valid %s' % E['s']
        if mut and not plain(p, base):
            return 'a writable view of %s as %s can store an invalid value' % (B['s'], E['s'])
    return None


def check(ck):
    ck.kit = Kit()
    p = ck.kit.p
    g = Graph(p)
    rs = [r for r in p.roots if r.startswith('root_')]
    ck.roots += rs
    reach = g.reach(rs)
    loc = [k for k in reach if g.local(k) and p.insts[k].get('body')]
    fns = {}

    def fn(k):
        if k not in fns:
            fns[k] = Fn(g, k)
        return fns[k]
    via = {'fn': fn}
    for k in reach:
        for s in g.sites(k):
            if s.callee is not None and s.kind == 'call':
                c = p.insts[k]['body']['blocks'][s.block]['t']['k']['Call']
                via.setdefault(s.callee, []).append((s, c))
    obls = None
    with ck.scope('unsafe operations'):
        for k in loc:
            d = p.insts[k]['def']
            f = fn(k)
            n = 0
            for s in g.sites(k):
                if s.kind not in ('call', 'mention') or not s.arg or not s.arg.get('unsafe'):
                    continue
                if s.name.startswith(LANG) or s.arg.get('krate') == 'adhoc_audio':
                    continue        # an unsafe fn of the library is judged by what it does
                n += 1
                where = '%s (%s:%s)' % (d, s.file[s.file.rfind('src/'):], s.line)
                r = 'not an operation this analysis can justify'
                if s.kind == 'call' and s.name in VIEWS:
                    c = p.insts[k]['body']['blocks'][s.block]['t']['k']['Call']
                    org = f.of_operand(c['args'][0], via, 0)
                    cnt = f.count(c['args'][1], via)
                    r = judge(p, org, cnt, s.arg['targs'][0], s.name.endswith('mut')) if org is not None else 'the pointer is not traced to an object'
                elif s.kind == 'call':
                    obls = obls if obls is not None else engine(ck)
                    o = [b for (fu, ln, kd), b in obls.items() if ln == s.line and fu.split('::')[-1] == d.split('::')[-1]]
                    if o and not any(o):
                        r = None
                ck.need(r is None, 'unsafe operation is valid for every caller', where, '%s: %s' % (s.name, r or 'valid'))
            for ln, t, org in derefs(f, g, via):
                n += 1
                r = judge(p, org, ('c', 1), t, False) if org is not None else 'the pointer is not traced to an object'
                ck.need(r is None, 'raw pointer is valid where it is followed', '%s:%s' % (d, ln), r or '')
            for ln, a, b in transmutes(f, g):
                n += 1
                A, B = p.types[a], p.types[b]
                ok = plain(p, b) and tiles(p, a) or (A['k'] in ('ref', 'ptr') and B['k'] == 'ptr')
                ck.need(ok, 'transmute yields a valid value', '%s:%s' % (d, ln), '%s to %s' % (A['s'], B['s']))
            for ln, t in unions(f, g):
                n += 1
                ck.need(False, 'no union field is read', '%s:%s' % (d, ln), t)
            ck.funcs[d] = 1
            if n == 0:
                ck.need(True, 'function without unsafe operations', d)


def engine(ck):
    out = {}
    for r, form in (('root_w_decode', 'blocks'), ('root_w_encode', 'linear'), ('root_w_seek', 'blocks'), ('root_w_save', 'blocks')):
        try:
            I = wp.WavRun(ck.kit, r, form).I
        except Exception:
            continue
        if I.gaps:
            continue
        for (f, ln, kind), o in I.obls.items():
            if 'index' in kind or 'bounds' in kind or 'view' in kind:
                out[(f, ln, kind)] = bool(o['bad']) or out.get((f, ln, kind), False)
    return out


def places(x, out):
    if isinstance(x, dict):
        if set(x) >= {'local', 'projection'}:
            out.append(x)
        for v in x.values():
            places(v, out)
    elif isinstance(x, list):
        for v in x:
            places(v, out)
    return out


def derefs(f, g, via):
    p = f.p
    for b in g.live_blocks(f.k):
        blk = f.body['blocks'][b]
        for x, ln in [(s[0], s[1]) for s in blk['s']] + [(blk['t']['k'], blk['t']['line'])]:
            addr = set()
            if isinstance(x, dict) and 'Assign' in x and isinstance(x['Assign'][1], dict):
                rv = x['Assign'][1]
                if 'AddressOf' in rv:
                    addr.add(id(rv['AddressOf'][-1]))
            for pl in places(x, []):
                if 'Deref' in pl['projection'] and p.types[f.ty(pl['local'])]['k'] == 'ptr' and pl['projection'][0] == 'Deref' and id(pl) not in addr:
                    e = p.types[f.ty(pl['local'])]['e']
                    yield ln, e, f.of_local(pl['local'], via)


def transmutes(f, g):
    for b in g.live_blocks(f.k):
        for s, ln in f.body['blocks'][b]['s']:
            if isinstance(s, dict) and 'Assign' in s and isinstance(s['Assign'][1], dict) and 'Cast' in s['Assign'][1]:
                kd, o, t = s['Assign'][1]['Cast']
                if kd == 'Transmute':
                    n, a = next(iter(o.items()))
                    ft = f.place_ty(a) if n in ('Copy', 'Move') else a['const_']['ty']
                    if ft is not None:
                        yield ln, ft, t


def unions(f, g):
    p = f.p
    for b in g.live_blocks(f.k):
        blk = f.body['blocks'][b]
        for x, ln in [(s[0], s[1]) for s in blk['s']] + [(blk['t']['k'], blk['t']['line'])]:
            for pl in places(x, []):
                t = f.ty(pl['local'])
                for e in pl['projection']:
                    if isinstance(e, dict) and 'Field' in e:
                        y = p.types.get(t)
                        if y and y['k'] == 'adt' and y.get('adt') == 'union' and y.get('crate') == 'adhoc_audio':
                            yield ln, y['s']
                        t = e['Field'][1]
                    elif e == 'Deref' and p.types[t]['k'] in ('ref', 'ptr'):
                        t = p.types[t]['e']
