"""The command line tool: its `main`, interpreted with one symbolic input file.

Paths and strings are concatenations of symbolic pieces; files, codecs and the argument parser are opaque, and their calls
drive a protocol automaton kept in ghost variables (opened, loaded, decoded but not yet encoded, ended, created, saved)."""
import re

from ..kit import *
from ..graph import Graph
from ..models import loc, norm, ety_of

G = lambda n: ('G', n)
LEVEL_MAX_DOC = 10


# ------------------------------------------------------------------------------------------------ strings
def lit(s):
    return mk('pstr', mk('plit', s))


def pvar(*nm):
    return mk('pstr', mk('pvar', name(*nm)))


def pcat(*xs):
    out = []
    for x in xs:
        for p in (x.a if x.op == 'pstr' else (x,)):
            if out and p.op == 'plit' and out[-1].op == 'plit':
                out[-1] = mk('plit', out[-1].a[0] + p.a[0])
            elif not (p.op == 'plit' and p.a[0] == ''):
                out.append(p)
    return mk('pstr', *out)


SEP = mk('psep')
INPUT = pvar('input file')


def text(x):
    """the characters of a constant string, or None"""
    if len(x.a) == 0:
        return ''
    return x.a[0].a[0] if len(x.a) == 1 and x.a[0].op == 'plit' else None


def joined(base, rel):
    t = text(base)
    if t == '' or (t is not None and t.endswith('/')):
        return pcat(mk('pstr', mk('pdir', base)), SEP, rel)
    return pcat(mk('pstr', mk('pdir', base)), SEP, rel)


def cut_last(p):
    """(directory part, last component) of a path that ends in a known component"""
    for i in range(len(p.a) - 1, -1, -1):
        if p.a[i] is SEP:
            return mk('pstr', *p.a[:i + 1]), mk('pstr', *p.a[i + 1:])
    return mk('pstr'), p


def with_ext(p, e):
    d, last = cut_last(p)
    te = text(e)
    if te is not None and te != '':
        if len(last.a) == 1 and last.a[0].op == 'fname':
            return pcat(d, mk('stem', last.a[0].a[0]), mk('plit', '.'), e)
        if len(last.a) >= 2 and last.a[-1].op == 'plit' and last.a[-1].a[0].count('.') == 1 and last.a[-1].a[0].startswith('.'):
            return pcat(mk('pstr', *d.a, *last.a[:-1]), mk('plit', '.'), e)
    if text(last) is not None and te:
        t = text(last)
        return pcat(d, lit(t.rsplit('.', 1)[0] if '.' in t[1:] else t), mk('plit', '.'), e)
    return mk('pstr', mk('withext', p, e))


def file_name(p):
    if len(p.a) == 1 and p.a[0].op == 'withext' and p.a[0].a[0] is INPUT and text(p.a[0].a[1]):
        return pcat(mk('stem', INPUT), mk('plit', '.'), p.a[0].a[1])
    d, last = cut_last(p)
    return last if d.a else mk('pstr', mk('fname', p))


def stem(p):
    return mk('pstr', mk('stem', p))


def show(p):
    if p.op == 'pstr':
        return ''.join(show(x) for x in p.a) or "''"
    if p.op == 'plit':
        return repr(p.a[0])
    if p.op == 'pvar':
        return '<%s>' % ' '.join(str(x) for x in (p.a[0] if isinstance(p.a[0], tuple) else (p.a[0],)))
    if p.op == 'psep':
        return '/'
    if p.op == 'pdir':
        return show(p.a[0])
    return '%s(%s)' % (p.op, ', '.join(show(x) for x in p.a))


# ------------------------------------------------------------------------------------------------ the interpretation
class Opaque(dict):
    """handlers by pattern: the last one registered that matches"""

    def __init__(self):
        super().__init__()
        self.rules = []

    def rule(self, pat):
        def deco(f):
            self.rules.append((re.compile(pat), f))
            return f
        return deco

    def get(self, key, default=None):
        if key in self:
            return self[key]
        for r, f in self.rules:
            if r.search(key):
                self[key] = f
                return f
        self[key] = None
        return None


def short(s):
    return re.sub(r'\w+::', '', s)


class Cli:
    def __init__(self, kit, ext, ck):
        self.kit, self.ck, self.ext = kit, ck, ext
        self.I = kit.interp(io=False)
        self.codec = {}         # codec symbol -> facts
        self.names = {}         # argument symbol -> (name, default)
        self.parsed = set()
        self.file = {}
        self.options = {}
        self.infos = {}
        self.bad = []
        self.good = {}
        self.ends = []
        self.flows = set()      # (codec decoded, codec encoded into)
        for g, v in (('n', ZERO), ('done', ZERO), ('buf', ZERO), ('pending', FALSE), ('ended', FALSE), ('failed', FALSE), ('src', ZERO), ('opened', FALSE),
                     ('created', FALSE), ('saved', FALSE), ('item', FALSE), ('reported', FALSE), ('isdir', FALSE)):
            self.I.ghosts[G(g)] = v
        self.I.opaque = self.table()

    # ---- helpers
    def g(self, st, n):
        return st.mem.get(G(n), self.I.ghosts[G(n)])

    def flag(self, st, n):
        """a boolean ghost: TRUE, FALSE or a condition"""
        v = self.g(st, n)
        t = self.I.truth(st, v)
        return v if t is None else TRUE if t else FALSE

    def set(self, st, **kw):
        st = st.copy()
        for k, v in kw.items():
            st.mem[G(k)] = v
        return st

    def need(self, c, cond, rule, detail=''):
        if not self.I.record:
            return
        where = '%s:%s' % (c.I.p.insts[c.fr.inst]['def'], c.line) if c is not None else ''
        if cond:
            self.good[(rule, where)] = detail
        else:
            self.bad.append((rule, where, detail))

    def content(self, st, v, depth=8):
        I = self.I
        v = norm(I, st, v)
        if depth == 0:
            raise Gap('text of an unknown value')
        if v.op == 'pstr':
            return v
        if v.op == 'ref':
            o = v.a[0]
            if v.a[2] is None or o not in st.mem or st.mem[o].op == 'pstr':
                x = st.mem.get(o) if not v.a[1] else None
                if x is not None and x.op in ('pstr', 'ite'):
                    return self.content(st, x, depth - 1)
            if o[0] == 'Z':
                return lit('')
            x = I.read(st, o, v.a[1])
            if x.op == 'arrc':
                bs = [cval(b) for b in x.a[1]]
                if all(b is not None for b in bs):
                    return lit(bytes(bs).decode('utf8', 'replace'))
            if x.op == 'arrsym':
                return pvar('text', x)
            return self.content(st, x, depth - 1)
        if v.op == 'agg' and len(v.a[2]) == 1:
            return self.content(st, v.a[2][0], depth - 1)
        if v.op == 'sym':
            return pvar('text', v)
        raise Gap('text of ' + v.op)

    def ref(self, st, ty, s):
        """a reference of type ty to text s"""
        I = self.I
        o = ('D', I.fresh('text'))
        t = I.p.types[ty]
        e = I.p.types[t['e']]
        I.objty[o] = t['e']
        st.mem[o] = s
        if e['k'] in ('str', 'slice'):
            x = text(s)
            n = K(len(x)) if x is not None else isym(name('bytes', s), 0, 1 << 40)
            return mkref(o, (), ZERO, n)
        return mkref(o)

    def value(self, st, ty, s):
        """text s as a value of type ty (a reference or an owned string)"""
        return self.ref(st, ty, s) if self.I.p.types[ty]['k'] in ('ref', 'ptr') else s

    def choice(self, c, cond, f, fail=True, bad='None'):
        """Some(f(state)) when cond, None otherwise"""
        out = []
        for b, s in self.I.branch(c.st, cond):
            if b:
                s = s.copy()
                out.append((s, some(self.I, c.dty, f(s))))
            else:
                if fail:
                    s = self.set(s, failed=TRUE)
                out.append((s, none(self.I, c.dty)))
        return out

    def result(self, c, good, **marks):
        """[Ok(good), Err]; the error path is marked as failed"""
        I = self.I
        b = mk('bsym', I.fresh('io'))
        s1 = self.set(c.st.copy().assume(b), **marks)
        s2 = self.set(c.st.copy().assume(bnot(b)), failed=TRUE)
        t = I.p.types[c.dty]
        if t['name'].endswith('Option'):
            return [(s1, some(I, c.dty, good(s1, variant_ty(I, c.dty, 'Some')))), (s2, none(I, c.dty))]
        return [(s1, ok(I, c.dty, good(s1, variant_ty(I, c.dty, 'Ok')))), (s2, err(I, c.dty, I.mk_sym(variant_ty(I, c.dty, 'Err'), I.fresh('error'))))]

    def sym_in(self, st, v, known, depth=6):
        """the registered symbol a value stands for (through references and wrappers)"""
        v = norm(self.I, st, v)
        if v in known:
            return v
        if depth == 0:
            return None
        if v.op == 'ref':
            o, p = loc(self.I, st, v)
            return self.sym_in(st, self.I.read(st, o, p), known, depth - 1)
        if v.op == 'agg' and len(v.a[2]) == 1:
            return self.sym_in(st, v.a[2][0], known, depth - 1)
        return None

    def codec_of(self, c, v):
        k = self.sym_in(c.st, v, self.codec)
        if k is None:
            raise Gap('a codec of unknown origin')
        return k

    def new_codec(self, ty, **facts):
        s = mk('sym', ty, self.I.fresh('codec'))
        self.codec[s] = facts
        return s

    # ---- handlers
    def table(self):
        T = Opaque()
        I = self.I
        kit = self.kit
        TEXT = r'(std::path|std::ffi|std::string|core::str|std::str|alloc::str|alloc::string|std::borrow|<str |impl str|for str|PathBuf|OsString|OsStr|String)'

        # -- one input file
        @T.rule(r'::begin_item$')
        def begin(c):
            st = self.set(c.st, item=TRUE, n=ZERO, done=ZERO, pending=FALSE, ended=FALSE, failed=FALSE, src=ZERO, opened=FALSE, created=FALSE, saved=FALSE, reported=FALSE)
            ty = c.dty
            tys = [ty]
            while I.p.types[tys[-1]]['k'] == 'ref' and I.p.types[I.p.types[tys[-1]]['e']]['k'] == 'ref':
                tys.append(I.p.types[tys[-1]]['e'])
            v = self.value(st, tys[-1], INPUT)
            for t in tys[-2::-1]:
                o = ('D', I.fresh('item'))
                I.objty[o] = I.p.types[t]['e']
                st.mem[o] = v
                v = mkref(o)
            return [(st, v)]

        @T.rule(r'Iter.*::next$')
        def next_input(c):
            """a loop over the input files: its body is looked at once"""
            ty = variant_ty(I, c.dty, 'Some')
            e = ty
            while I.p.types[e]['k'] == 'ref':
                e = I.p.types[e]['e']
            t = I.p.types[e]
            if t['k'] != 'str' and not (t['k'] == 'adt' and t['name'].split('::')[-1] in ('String', 'OsString', 'OsStr', 'Path', 'PathBuf')):
                return NotImplemented
            if self.flag(c.st, 'item') is TRUE:
                if I.record:
                    self.ends.append(c.st)
                return [(self.set(c.st, item=FALSE), none(I, c.dty))]
            c2 = Call(I, c.st, c.fr, c.b, c.line, c.args, c.atys, ty, c.ft, False)
            return [(s, some(I, c.dty, v)) for s, v in begin(c2)]

        @T.rule(r'::end_item$')
        def end(c):
            if I.record:
                self.ends.append(c.st)
            return [(self.set(c.st, item=FALSE), agg(c.dty, 0, []))]

        # -- the argument parser
        @T.rule(r'^clap::.*Arg.*::with_name$')
        def with_name(c):
            s = I.mk_sym(c.dty, I.fresh('clap argument'))
            self.names[s] = {'name': text(self.content(c.st, c.args[0])), 'default': None}
            return c.ret(s)

        @T.rule(r'^clap::.*Arg.*::default_value$')
        def default_value(c):
            s = self.names.get(c.args[0])
            if s is not None:
                s['default'] = text(self.content(c.st, c.args[1]))
            return c.ret(c.args[0])

        @T.rule(r'^clap::(\w+::)*Arg::.*::\w+$')
        def arg_any(c):
            if c.args and c.args[0] in self.names and c.dty == c.atys[0]:
                return c.ret(c.args[0])
            return c.ret(I.mk_sym(c.dty, I.fresh('clap')))

        @T.rule(r'^clap::.*::value_of(_os)?$')
        def value_of(c):
            nm = text(self.content(c.st, c.args[1]))
            known = {x['name']: x for x in self.names.values()}
            if nm is None:
                raise Gap('name of an argument')
            self.need(c, nm in known, 'only declared arguments are read', nm)
            if known and nm in known and known[nm]['default'] is not None:
                st = c.st.copy()
                return [(st, some(I, c.dty, self.ref(st, variant_ty(I, c.dty, 'Some'), pvar('argument', nm))))]
            return self.choice(c, mk('bsym', name('given', nm)), lambda s: self.ref(s, variant_ty(I, c.dty, 'Some'), pvar('argument', nm)), fail=False)

        @T.rule(r'^clap|^<clap|^(rayon|<rayon)(?!.*::for_each$)')
        def clap_any(c):
            return c.ret(I.mk_sym(c.dty, I.fresh('clap')))

        @T.rule(r'Iterator::collect$|FromIterator.*::from_iter$')
        def collect(c):
            return c.ret(I.mk_sym(c.dty, I.fresh('collected')))

        # -- text and paths
        @T.rule(r'^std::path::Path::(is_dir|is_file|exists|is_absolute|is_relative|has_root)$')
        def is_dir(c):
            p = self.content(c.st, c.args[0])
            b = mk('bsym', name('path test', c.name.split('::')[-1], p))
            out = []
            for t, s in I.branch(c.st, b):
                if t and c.name.endswith('is_dir'):
                    s = self.set(s, isdir=p)
                elif not t and self.flag(s, 'item') is TRUE:
                    s = self.set(s, failed=TRUE)
                out.append((s, TRUE if t else FALSE))
            return out

        @T.rule(r'^(std::path::Path::(extension|file_stem|file_name|parent|to_str|as_str)|std::ffi::OsStr::to_str)$')
        def part(c):
            p = self.content(c.st, c.args[0])
            what = c.name.split('::')[-1]
            inner = variant_ty(I, c.dty, 'Some')
            if what == 'to_str':
                if text(p) is not None:
                    st = c.st.copy()
                    return [(st, some(I, c.dty, self.ref(st, inner, p)))]
                return self.choice(c, mk('bsym', name('is text', p)), lambda s: self.ref(s, inner, p))
            if what == 'extension' and p is INPUT and self.ext is not None:
                st = c.st.copy()
                return [(st, some(I, c.dty, self.ref(st, inner, lit(self.ext))))]
            if what == 'file_name':
                q = file_name(p)
            elif what == 'file_stem':
                q = stem(p)
            else:
                q = mk('pstr', mk(what, p))
            cond = mk('bsym', name('has file name', p) if what in ('file_stem', 'file_name') else name('has', what, p))
            return self.choice(c, cond, lambda s: self.ref(s, inner, q))

        @T.rule(TEXT + r'.*::(as_mut_os_string|as_mut_os_str|deref_mut|as_mut|borrow_mut)$')
        def same(c):
            return c.ret(c.args[0])

        @T.rule(r'PathBuf::push$')
        def push(c):
            o, p = loc(I, c.st, c.args[0])
            s = joined(self.content(c.st, I.read(c.st, o, p)), self.content(c.st, c.args[1]))
            st = c.st.copy()
            I.write(st, o, p, s)
            return [(st, agg(c.dty, 0, []))]

        @T.rule(r'(OsString|String)::(push|push_str)$')
        def append(c):
            if I.p.types[c.atys[1]]['k'] == 'char':
                k = cval(c.args[1])
                if k is None:
                    raise Gap('character of unknown value')
                x = lit(chr(k))
            else:
                x = self.content(c.st, c.args[1])
            o, p = loc(I, c.st, c.args[0])
            s = pcat(self.content(c.st, I.read(c.st, o, p)), x)
            st = c.st.copy()
            I.write(st, o, p, s)
            return [(st, agg(c.dty, 0, []))]

        @T.rule(r'PathBuf::(set_extension|set_file_name)$')
        def set_ext(c):
            o, p = loc(I, c.st, c.args[0])
            old, x = self.content(c.st, I.read(c.st, o, p)), self.content(c.st, c.args[1])
            st = c.st.copy()
            I.write(st, o, p, with_ext(old, x) if c.name.endswith('extension') else pcat(cut_last(old)[0], x))
            return [(st, I.mk_sym(c.dty, I.fresh('set')))]

        @T.rule(r'Path::(join|with_extension|with_file_name|with_added_extension)$')
        def join(c):
            a, b = self.content(c.st, c.args[0]), self.content(c.st, c.args[1])
            w = c.name.split('::')[-1]
            st = c.st.copy()
            s = joined(a, b) if w == 'join' else with_ext(a, b) if w == 'with_extension' else pcat(a, mk('plit', '.'), b) if w.startswith('with_added') else pcat(cut_last(a)[0], b)
            return [(st, self.value(st, c.dty, s))]

        @T.rule(r'(String::new|OsString::new|PathBuf::new|(String|OsString|PathBuf)::with_capacity|Default for (std::\w+::)*(String|OsString|PathBuf)>::default)$|<std::(path::PathBuf|ffi::OsString|string::String) as std::default::Default>::default$')
        def empty(c):
            return c.ret(lit(''))

        @T.rule(TEXT + r'.*::(as_ref|deref|as_path|as_os_str|as_os_string|borrow|new|as_str|from|into|to_path_buf|to_owned|to_os_string|clone|into_os_string|to_string|into_path_buf|into_string|into_boxed_path|as_bytes|trim|to_vec|from_str)$')
        def same_text(c):
            if not c.args or I.p.types[c.dty]['k'] == 'adt' and I.p.types[c.dty]['name'].endswith(('Option', 'Result')):
                raise Gap('text conversion ' + str(c.name))
            s = self.content(c.st, c.args[0])
            st = c.st.copy()
            return [(st, self.value(st, c.dty, s))]

        @T.rule(r'ToString>::to_string$|ToOwned.*::to_owned$')
        def to_string(c):
            s = self.content(c.st, c.args[0])
            st = c.st.copy()
            return [(st, self.value(st, c.dty, s))]

        @T.rule(TEXT + r'.*::(to_string_lossy|to_lowercase|to_ascii_lowercase|to_uppercase|to_ascii_uppercase|from_utf8_lossy)$')
        def mapped(c):
            w = c.name.split('::')[-1]
            s = self.content(c.st, c.args[0])
            t = text(s)
            f = {'to_lowercase': str.lower, 'to_ascii_lowercase': str.lower, 'to_uppercase': str.upper, 'to_ascii_uppercase': str.upper}.get(w, lambda x: x)
            s = lit(f(t)) if t is not None else mk('pstr', mk(w, s))
            st = c.st.copy()
            return [(st, self.value(st, c.dty, s))]

        @T.rule(r'(core::str::<impl str>::(contains|starts_with|ends_with|eq_ignore_ascii_case)|(PartialEq|for str|str as|OsStr|OsString|PathBuf|Path|String)\b.*>::(eq|ne)|OsStr::eq_ignore_ascii_case)$')
        def predicate(c):
            w = c.name.split('::')[-1]
            if w in ('eq', 'ne'):
                try:
                    a, b = self.content(c.st, c.args[0]), self.content(c.st, c.args[1])
                except Gap:
                    return NotImplemented
            else:
                a = self.content(c.st, c.args[0])
                if I.p.types[c.atys[1]]['k'] in ('char', 'closure', 'array', 'fndef'):
                    raise Gap('pattern of a text search')
                b = self.content(c.st, c.args[1])
            ta, tb = text(a), text(b)
            if ta is not None and tb is not None:
                r = {'contains': tb in ta, 'starts_with': ta.startswith(tb), 'ends_with': ta.endswith(tb), 'eq': ta == tb, 'ne': ta != tb, 'eq_ignore_ascii_case': ta.lower() == tb.lower()}[w]
                return c.ret(TRUE if r else FALSE)
            if a is b and w != 'ne':
                return c.ret(TRUE)
            v = mk('bsym', name('text test', 'eq' if w == 'ne' else w, a, b))
            return c.ret(bnot(v) if w == 'ne' else v)

        @T.rule(r'core::str::<impl str>::parse$|FromStr( for \w+)?>::from_str$')
        def parse(c):
            s = self.content(c.st, c.args[0])
            good = variant_ty(I, c.dty, 'Ok')
            self.parsed.add(s)
            out = []
            for b, st in I.branch(c.st, mk('bsym', name('parses', s))):
                st = st.copy()
                if b:
                    out.append((st, ok(I, c.dty, I.mk_sym(good, name('parsed', s)))))
                else:
                    out.append((st, err(I, c.dty, I.mk_sym(variant_ty(I, c.dty, 'Err'), I.fresh('parse error')))))
            return out

        @T.rule(r'::_e?print$|Path::display$|fmt::Arguments|fmt::rt::|std::fmt::|core::fmt::|alloc::fmt::|std::io::Stderr|std::io::stdio')
        def printing(c):
            st = c.st
            if c.name.endswith('print') and self.flag(st, 'item') is TRUE:
                st = self.set(st, reported=TRUE)
            return [(st.copy(), I.mk_sym(c.dty, I.fresh('printed')))]

        # -- files
        @T.rule(r'^std::fs::File::(open|open_buffered)$')
        def fopen(c):
            p = self.content(c.st, c.args[0])
            self.need(c, p is INPUT, 'only the input file is opened', show(p))
            self.need(c, self.flag(c.st, 'opened') is FALSE, 'the input is opened once', show(p))

            def mkfile(s, ty):
                f = I.mk_sym(ty, I.fresh('file'))
                self.file[f] = 'in'
                return f
            return self.result(c, mkfile, opened=TRUE)

        @T.rule(r'^std::fs::(File::(create|create_new|create_buffered)|write)$')
        def fcreate(c):
            p = self.content(c.st, c.args[0])
            self.check_create(c, p)
            if c.name.endswith('fs::write'):
                raise Gap('a file written in one go')

            def mkfile(s, ty):
                f = I.mk_sym(ty, I.fresh('file'))
                self.file[f] = 'out'
                return f
            return self.result(c, mkfile, created=TRUE)

        @T.rule(r'^std::fs::OpenOptions::new$|^std::fs::File::options$')
        def options(c):
            s = I.mk_sym(c.dty, I.fresh('options'))
            self.options[s] = frozenset()
            return c.ret(s)

        @T.rule(r'^std::fs::OpenOptions::(read|write|append|create|truncate|create_new)$')
        def option(c):
            k = self.sym_in(c.st, c.args[0], self.options)
            if k is None or c.args[1] not in (TRUE, FALSE):
                raise Gap('file open options')
            w = c.name.split('::')[-1]
            s = I.mk_sym(k.a[0], I.fresh('options'))
            self.options[s] = self.options[k] | {w} if c.args[1] is TRUE else self.options[k] - {w}
            o, p = loc(I, c.st, c.args[0])
            st = c.st.copy()
            I.write(st, o, p, s)
            return [(st, c.args[0])]

        @T.rule(r'^std::fs::OpenOptions::open$')
        def option_open(c):
            k = self.sym_in(c.st, c.args[0], self.options)
            if k is None:
                raise Gap('file open options')
            f = self.options[k]
            c.args = c.args[1:]
            if not f & {'write', 'append', 'create', 'truncate', 'create_new'}:
                return fopen(c)
            self.need(c, 'append' not in f and ({'create', 'truncate'} <= f or 'create_new' in f), 'a file that exists is replaced', 'opened with ' + ', '.join(sorted(f)))
            return fcreate(c)

        @T.rule(r'^std::fs::File::(sync_all|sync_data|flush)$')
        def sync(c):
            return self.result(c, lambda s, ty: agg(ty, 0, []))

        @T.rule(r'^std::fs::')
        def fs_any(c):
            return [(c.st.copy(), I.mk_sym(c.dty, I.fresh('fs')))]        # judged in the call graph

        @T.rule(r'BufReader::<R>::(new|with_capacity)$')
        def bufreader(c):
            f = self.sym_in(c.st, c.args[-1], self.file)
            if f is None:
                raise Gap('reader of unknown origin')
            v = I.mk_sym(c.dty, I.fresh('file'))
            self.file[v] = self.file[f]
            return c.ret(v)

        # -- codecs
        @T.rule(r'^adhoc_audio::(\w+::)*(AdhocCodec|WavCodec)::load$')
        def load(c):
            f = self.sym_in(c.st, c.args[0], self.file)
            if f is None:
                raise Gap('reader of unknown origin')
            self.need(c, self.file[f] == 'in', 'the input file is what is loaded')

            def mkcodec(s, ty):
                k = self.new_codec(ty, kind=short(I.p.types[ty]['s']), loaded=True, info=None, level=None)
                s.mem[G('src')] = k
                return k
            return self.result(c, mkcodec, ended=FALSE, pending=FALSE, n=ZERO, done=ZERO)

        @T.rule(r'^adhoc_audio::(\w+::)*(AdhocCodec|WavCodec)::new$|<adhoc_audio::(\w+::)*AdhocCodec as std::default::Default>::default$')
        def new(c):
            k = self.new_codec(c.dty, kind=short(I.p.types[c.dty]['s']), loaded=False, info=self.info_of(c.st, c.args[0]) if c.args else None, level=None)
            return c.ret(k)

        @T.rule(r'^adhoc_audio::(\w+::)*AdhocCodec::(with_compression_level|with_info|set_info)$')
        def configure(c):
            w = c.name.split('::')[-1]
            k = self.codec_of(c, c.args[0])
            f = dict(self.codec[k])
            if w == 'with_compression_level':
                f['level'] = c.args[1]
            else:
                f['info'] = self.info_of(c.st, c.args[1])
            if w == 'set_info':
                o, p = loc(I, c.st, c.args[0])
                st = c.st.copy()
                I.write(st, o, p, self.new_codec(k.a[0], **f))
                return [(st, agg(c.dty, 0, []))]
            return c.ret(self.new_codec(c.dty, **f))

        @T.rule(r'adhoc_audio::.*::info$')
        def info(c):
            k = self.codec_of(c, c.args[0])
            return c.ret(mk('sym', c.dty, name('info of', k)))

        @T.rule(r'adhoc_audio::(\w+::)*StreamInfo(>|::<impl)? ?.*::(clone)$')
        def info_clone(c):
            v = norm(I, c.st, c.args[0])
            o, p = loc(I, c.st, v)
            return c.ret(I.read(c.st, o, p))

        @T.rule(r'adhoc_audio::.*::decode$')
        def decode(c):
            k = self.codec_of(c, c.args[0])
            st = c.st
            self.need(c, self.codec[k]['loaded'], 'the loaded codec is what is decoded')
            self.drained(c, st, 'everything decoded is encoded before more is decoded')
            sl = as_slice(I, st, c.args[1], c.atys[1])
            b = mk('bsym', I.fresh('more'))
            s1 = st.copy().assume(b)
            n = isym(I.fresh('samples'), 0, LEN_MAX)
            s1 = s1.assume(le(n, sl[3]))
            arr = mk('arrsym', ety_of(I, c.atys[1]), I.fresh('decoded'))
            s1 = s1.copy()
            old = I.read(s1, sl[0], sl[1])
            I.write(s1, sl[0], sl[1], arr)
            s1 = self.set(s1, n=n, done=ZERO, buf=mk('buffer', mk('pvar', name(sl[0], sl[1])), sl[2], arr), pending=TRUE)
            s2 = self.set(st.copy().assume(bnot(b)), ended=TRUE)
            return [(s1, some(I, c.dty, n)), (s2, none(I, c.dty))]

        @T.rule(r'adhoc_audio::.*::encode$')
        def encode(c):
            k = self.codec_of(c, c.args[0])
            st = c.st
            self.need(c, not self.codec[k]['loaded'], 'the new codec is what is encoded into')
            sl = as_slice(I, st, c.args[1], c.atys[1])
            pend = self.flag(st, 'pending')
            n, done = norm(I, st, self.g(st, 'n')), norm(I, st, self.g(st, 'done'))
            if pend is not TRUE:
                self.need(c, I.prove(st, eq(sl[3], ZERO)), 'only samples just decoded are encoded', 'nothing was decoded since the last encode')
            else:
                buf = norm(I, st, self.g(st, 'buf'))
                here = buf.op == 'buffer' and buf.a[0] is mk('pvar', name(sl[0], sl[1])) and I.simp(st, I.resolve_ite(st, I.read(st, sl[0], sl[1]))) is buf.a[2]
                self.need(c, here, 'only samples just decoded are encoded', 'the buffer encoded is not the one decoded into, or it was changed in between')
                if here:
                    self.need(c, I.prove(st, eq(sl[2], add(buf.a[1], done))), 'samples are encoded in order, none twice', 'from %s, expected %s' % (sl[2], add(buf.a[1], done)))
                    st2 = st
                    tot = add(done, sl[3])
                    self.need(c, I.prove(st, le(tot, n)), 'no more samples are encoded than were decoded', '%s of %s' % (tot, n))
                    if I.prove(st, eq(tot, n)):
                        st = self.set(st2, n=ZERO, done=ZERO, buf=ZERO, pending=FALSE)
                    else:
                        st = self.set(st2, done=tot)
            if I.record:
                self.flows.add((norm(I, st, self.g(st, 'src')), k))
            b = mk('bsym', I.fresh('encoded'))
            s1 = st.copy().assume(b)
            s2 = st.copy().assume(bnot(b))
            return [(s1, some(I, c.dty, sl[3])), (s2, none(I, c.dty))]

        @T.rule(r'adhoc_audio::.*::save_to$')
        def save(c):
            k = self.codec_of(c, c.args[0])
            f = self.sym_in(c.st, c.args[1], self.file)
            if f is None:
                raise Gap('writer of unknown origin')
            self.need(c, self.file[f] == 'out', 'the new file is what is written')
            self.check_saved(c, k)
            return self.result(c, lambda s, ty: agg(ty, 0, []), saved=TRUE)

        @T.rule(r'StreamInfo::(channels|frequency)$')
        def info_part(c):
            v = self.info_val(c.st, c.args[0])
            t = I.p.types[c.dty]['n']
            return c.ret(self.info_field(v, c.name.split('::')[-1], t))

        @T.rule(r'StreamInfo::new$')
        def info_new(c):
            s = mk('sym', c.dty, I.fresh('stream info'))
            self.infos[s] = {'frequency': c.args[0], 'channels': c.args[1]}
            return c.ret(s)

        @T.rule(r'^adhoc_audio::|^<adhoc_audio::')
        def other(c):
            raise Gap('library call ' + c.name)
        return T

    def info_val(self, st, v):
        v = norm(self.I, st, v)
        if v.op == 'ref':
            o, p = loc(self.I, st, v)
            return self.info_val(st, self.I.read(st, o, p))
        if v.op != 'sym':
            raise Gap('stream info ' + v.op)
        return v

    def info_field(self, v, which, ty):
        if v in self.infos:
            return self.infos[v][which]
        lo, hi = (1 if which == 'channels' else 0), (1 << 32) - 1
        return isym(name(which, v), lo, hi)

    def same_info(self, st, v, src):
        if v is None or v.op != 'sym':
            return False
        w = mk('sym', v.a[0], name('info of', src))
        if v is w:
            return True
        return v in self.infos and all(self.I.prove(st, eq(self.info_field(v, x, None), self.info_field(w, x, None))) for x in ('channels', 'frequency'))

    def info_of(self, st, v):
        v = norm(self.I, st, v)
        return v

    def drained(self, c, st, rule):
        pend = self.flag(st, 'pending')
        n, done = norm(self.I, st, self.g(st, 'n')), norm(self.I, st, self.g(st, 'done'))
        self.need(c, pend is FALSE or self.I.prove(st, eq(n, done)), rule, '%s of %s samples' % (done, n))

    def converted(self, c, rule):
        st = c.st
        self.need(c, self.flag(st, 'ended') is TRUE, rule, 'the decoder has not reported the end')
        self.drained(c, st, rule)

    def check_create(self, c, p):
        st = c.st
        src = norm(self.I, st, self.g(st, 'src'))
        self.need(c, self.flag(st, 'created') is FALSE, 'at most one file is created', show(p))
        self.converted(c, 'the file is created only after the input was read and converted')
        kind = self.codec.get(src, {}).get('kind')
        ext = {'WavCodec': '.adhoc', 'AdhocCodec': '.wav'}.get(kind)
        want = []
        if ext:
            dirs = [pvar('argument', x['name']) for x in self.names.values() if pvar('argument', x['name']) not in self.parsed]
            dirs.append(lit('./'))
            want = [joined(d, pcat(mk('stem', INPUT), mk('plit', ext))) for d in dirs]
        self.need(c, any(p is w for w in want), 'the file created is <outdir>/<stem>' + (ext or ''), show(p))
        if any(p is w for w in want):
            self.need(c, norm(self.I, st, self.g(st, 'isdir')) is p.a[0].a[0], 'the output directory was checked', show(p.a[0].a[0]))

    def check_saved(self, c, k):
        I, st = self.I, c.st
        f = self.codec[k]
        src = norm(I, st, self.g(st, 'src'))
        self.need(c, not f['loaded'], 'the new codec is what is saved')
        self.need(c, all(d is k for x, d in self.flows if x is src), 'the codec that was encoded into is saved')
        self.converted(c, 'everything is converted before the result is saved')
        self.need(c, self.same_info(st, f['info'], src), 'the new stream has the stream info of the source', str(self.infos.get(f['info'], f['info'])))
        kinds = (self.codec.get(src, {}).get('kind'), f['kind'])
        self.need(c, kinds in (('WavCodec', 'AdhocCodec'), ('AdhocCodec', 'WavCodec')), 'the other codec is the target', '%s -> %s' % kinds)
        if f['kind'] == 'AdhocCodec':
            self.level(c, st, f['level'])

    def level(self, c, st, lv):
        I = self.I
        rule = 'the requested compression level is used (5 when none is given)'
        if lv is None:
            self.need(c, False, rule, 'no level is set')
            return
        args = [x for x in self.names.values() if pvar('argument', x['name']) in self.parsed]
        if len(args) != 1:
            raise Gap('%d arguments that are parsed as numbers' % len(args))
        a = args[0]
        s = pvar('argument', a['name'])
        v = isym(name('parsed', s), 0, (1 << 32) - 1)
        given, okp = mk('bsym', name('given', a['name'])), mk('bsym', name('parses', s))
        has = a['default'] is not None
        self.need(c, a['default'] in (None, '5'), rule, 'the default of the argument is %r' % a['default'])
        for what, lits, want in (('given', [okp] + ([] if has else [given]), v), ('not a number', [bnot(okp)] + ([] if has else [given]), K(5)), ('not given', None if has else [bnot(given)], K(5))):
            if lits is None:
                continue
            t = st
            if any(I.truth(t, l) is False for l in lits):
                continue
            for l in lits:
                t = t.assume(l)
            x = I.simp(t, lv)
            good = x is want or I.prove(t, eq(x, want))
            if not good and what == 'given':        # limiting to the levels that exist is as good
                good = x.op == 'poly' and any(y.op == 'lim' and x is A(y) and y.a[0] is v and y.a[1] is None and (cval(y.a[2]) if isinstance(y.a[2], T) else y.a[2]) >= LEVEL_MAX_DOC for y in [single_atom(x)] if y is not None)
            self.need(c, good, rule, 'level %s: %s' % (what, x))

    def atom(self, st, v):
        """a condition inside v that is open in this state"""
        if v.op == 'bsym':
            return v if self.I.truth(st, v) is None else None
        for x in v.a:
            if isinstance(x, T):
                y = self.atom(st, x)
                if y is not None:
                    return y
        return None

    def cases(self, st, ghosts, done=()):
        """the state split until each of the ghosts has one value"""
        if len(done) == len(ghosts):
            return [(st,) + done]
        g = ghosts[len(done)]
        if self.I.ghosts[G(g)] is FALSE:
            v = self.flag(st, g)
            if v not in (TRUE, FALSE):
                v = self.I.simp(st, v)
                t = self.I.truth(st, v)
                a = None if t is not None else self.atom(st, v)
                if a is not None:
                    return [y for _, s in self.I.branch(st, a) for y in self.cases(s, ghosts, done)]
                if t is None:
                    return [y for b, s in self.I.branch(st, v) for y in self.cases(s, ghosts, done + (TRUE if b else FALSE,))]
                v = TRUE if t else FALSE
        else:
            v = self.I.resolve_ite(st, self.g(st, g))
            if v.op == 'ite':
                return [y for _, s in self.I.branch(st, v.a[0]) for y in self.cases(s, ghosts, done)]
        return self.cases(st, ghosts, done + (v,))

    # ---- the run
    def go(self):
        I = self.I
        args = self.kit.args(I, 'root_c_main')
        self.kit.run(I, 'root_c_main', args, State({}, ROOT))
        ck = self.ck
        ck.covered(I, 'root_c_main')
        n = 0
        if not self.ends:
            raise Missing('the loop over the input files')
        for st, failed, saved, src, created in [y for st in self.ends for y in self.cases(st, ('failed', 'saved', 'src', 'created'))]:
            n += saved is TRUE
            if self.ext == 'txt':
                self.need(None, created is FALSE, 'a file of another kind is not converted')
                continue
            self.need(None, saved is TRUE or failed is TRUE, 'a .%s input is converted and saved, unless reading or writing fails' % self.ext, 'a path on which nothing failed ends without a file saved')
            if failed is TRUE:
                self.need(None, self.flag(st, 'reported') is TRUE, 'a failed conversion is reported')
            if saved is TRUE:
                kind = self.codec.get(src, {}).get('kind')
                self.need(None, kind == {'wav': 'WavCodec', 'adhoc': 'AdhocCodec'}[self.ext], 'a .%s input is read with the codec of its format' % self.ext, str(kind))
        if self.ext != 'txt':
            self.need(None, n > 0, 'some path of a .%s input saves a file' % self.ext)


C23 = ('only the input file is opened', 'the input is opened once', 'at most one file is created', 'the file is created only after', 'the file created is', 'the output directory was checked',
       'no other operation on the file system', 'a file that exists is replaced', 'a file of another kind')
C15 = ('a failed conversion is reported',)
READS = ('metadata', 'symlink_metadata', 'exists', 'try_exists', 'canonicalize', 'len', 'is_dir', 'is_file', 'file_type', 'is_empty', 'sync_all', 'sync_data', 'read_link', 'permissions', 'clone')
OPENS = re.compile(r'^std::fs::(File::(open|create|create_new|options|open_buffered|create_buffered)|OpenOptions::\w+|write|read)$')
OUTSIDE = re.compile(r'^<?(std::process::(?!exit|ExitCode|Termination|abort)|std::net::|std::os::|std::env::(set_|remove_)|libc::)')


def effects(ck):
    """every call of the tool itself that reaches the file system or another process"""
    g = Graph(ck.kit.p)
    p = ck.kit.p
    reach = g.reach(['root_c_main'])
    ck.roots.append('root_c_main')
    for k in reach:
        if p.insts[k]['crate'] != 'probe_cli':
            continue
        for s in g.sites(k):
            if s.kind != 'call' or not s.name:
                continue
            at = 'src/main.rs:%s in %s' % (s.line, p.insts[k]['def'].replace('probe_cli::', ''))
            n = s.name
            fs = n.replace('<', '').startswith('std::fs::')
            ok_ = not OUTSIDE.match(n) and (not fs or OPENS.match(n) or n.split('::')[-1] in READS or n.startswith('<'))
            ck.need(ok_, 'no other operation on the file system', at, n)


def run(ck, pid):
    """the obligations of one property (C15, C23, C24)"""
    if pid == 'C23':
        with ck.scope('call graph of the tool'):
            effects(ck)
    for ext in ('wav', 'adhoc', 'txt'):
        with ck.scope('input *.%s' % ext):
            c = Cli(ck.kit, ext, ck)
            c.go()

            def mine(r):
                return pid == ('C15' if r.startswith(C15) else 'C23' if r.startswith(C23) else 'C24')
            for (rule, where), d in sorted(c.good.items()):
                if mine(rule):
                    ck.need(True, rule, where, d)
            seen = set()
            for rule, where, d in c.bad:
                if mine(rule) and (rule, where, d) not in seen:
                    seen.add((rule, where, d))
                    ck.need(False, rule, where, d)
