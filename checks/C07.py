"""C07: text files are read and written in an encoding the program names, never in whatever the computer's locale happens to be.

Rule: every place where a file is opened as text (open, io.open, codecs.open, Path.open, read_text, write_text, temporary files,
log files, configparser reads) names an encoding.  The value is traced through assignments, object attributes and parameter defaults:
 - it may not be None (a None default has to be replaced on every path that reaches the open);
 - a constant must be the name of an encoding that Python knows;
 - where the library writes, it is UTF-8 (a caller may choose another, but what it gets by default is UTF-8); where it reads, a
   fixed encoding is UTF-8 too (OTHER_FORMATS lists the format that is defined otherwise);
 - it does not come from the locale or the system's default;
 - nothing that cannot be decoded or encoded is dropped or replaced silently: no lossy errors= mode on a text file, and a lossy decode
   or encode only in the handler of a failed strict one that is reported, or of the output of another program."""
import re, encodings.aliases
from common import *

RULE = __doc__
ASSUMPTIONS = ['what a caller passes explicitly as encoding is the caller\'s choice', 'XML parsers take the encoding from the XML declaration']
OTHER_FORMATS = {'loadConf': 'Sword .conf files are ISO-8859-1 unless they say otherwise', '_getConfFile': 'Sword .conf files'}
LOSSY = {'ignore', 'replace', 'backslashreplace', 'surrogateescape'}
SYSTEM = r'locale\.|sys\.get(default|filesystem)encod|io\.text_encoding|os\.environ|os\.getenv|sys\.(__)?std(in|out|err)(__)?\b|os\.device_encoding'
ERRORS_AT = {'builtins.open': 4, 'io.open': 4, 'os.fdopen': 4, 'codecs.open': 3, 'io.TextIOWrapper': 2, 'gzip.open': 4, 'bz2.open': 4, 'lzma.open': 4}
KNOWN = set(encodings.aliases.aliases) | set(encodings.aliases.aliases.values())
UTF8 = {'utf_8', 'utf8', 'u8', 'utf', 'utf8_ucs2', 'utf8_ucs4', 'cp65001', 'utf_8_sig', 'utf8_sig'}
norm = lambda s: re.sub('[^a-z0-9.]+', '_', s.lower()).strip('_')


def mode_of(e):
    """constant text of a mode expression, or None"""
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


def text_opens(p, f, nodes):
    """(call, encoding expr or None, writes?)"""
    for n in nodes:
        if not isinstance(n, ast.Call): continue
        kw = {k.arg: k.value for k in n.keywords}
        if None in kw: kw = {**options(p, kw.pop(None), f), **kw}
        x = opener(p, n.func, f)
        arg = lambda i, name: n.args[i] if len(n.args) > i else kw.get(name)
        if x in ('builtins.open', 'io.open', 'os.fdopen'): mode, enc, dm = arg(1, 'mode'), arg(3, 'encoding'), 'r'
        elif x == 'codecs.open': mode, enc, dm = arg(1, 'mode'), arg(2, 'encoding'), 'r'
        elif x in ('tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile'): mode, enc, dm = arg(0, 'mode'), kw.get('encoding'), 'w+b'
        elif x in ('gzip.open', 'bz2.open', 'lzma.open'): mode, enc, dm = arg(1, 'mode'), arg(3, 'encoding'), 'rb'; 
        elif x in ('logging.FileHandler', 'logging.handlers.RotatingFileHandler'): yield n, kw.get('encoding') or (n.args[2] if len(n.args) > 2 else None), True; continue
        elif x == 'logging.basicConfig':
            if 'filename' in kw: yield n, kw.get('encoding'), True
            continue
        elif x == 'io.TextIOWrapper': yield n, arg(1, 'encoding'), True; continue
        elif isinstance(n.func, ast.Attribute) and n.func.attr in ('read_text', 'write_text') and not p.callees(n, f, cha=False):
            yield n, (kw.get('encoding') or (n.args[0 if n.func.attr == 'read_text' else 1] if len(n.args) > (0 if n.func.attr == 'read_text' else 1) else None)), n.func.attr == 'write_text'; continue
        elif isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and x is None and (is_path(p, n.func.value, f)): mode, enc, dm = arg(0, 'mode'), arg(2, 'encoding'), 'r'
        elif isinstance(n.func, ast.Attribute) and n.func.attr == 'read' and x is None and any((external(p, c.func, g) or '').startswith('configparser.') for v, g in feeds(p, n.func.value, f) for c in ast.walk(v) if isinstance(c, ast.Call)):
            yield n, kw.get('encoding') or (n.args[1] if len(n.args) > 1 else None), False; continue
        else: continue
        modes = [m for m in ({mode_of(v) for v, g in feeds(p, mode, f)} if mode is not None else {dm}) if m is not None and re.fullmatch(r'[rwaxbtU+]+', m)]
        if mode is not None and not modes: modes = ['?']
        if x in ('gzip.open', 'bz2.open', 'lzma.open') and not any('t' in m for m in modes): continue
        if modes and all('b' in m for m in modes): continue
        yield n, enc, any(set(m) & set('wax+') for m in modes)


def options(p, e, f):
    """keyword arguments that **e may hold"""
    out = {}
    for v, g in feeds(p, e, f):
        if isinstance(v, ast.Dict): out.update({k.value: x for k, x in zip(v.keys, v.values) if isinstance(k, ast.Constant)})
        elif isinstance(v, ast.Call) and callname(v) == 'dict': out.update({k.arg: k.value for k in v.keywords if k.arg})
    if isinstance(e, ast.Name):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(t.slice, ast.Constant): out[t.slice.value] = n.value
    return out


def opener(p, e, f):
    """the outside function called, also through a variable, functools.partial or a choice of two"""
    x = external(p, e, f)
    if x: return x
    if isinstance(e, ast.Name) and p.is_local(e.id, f): values = defs_of(f, e.id)
    else: values = [e]
    for v in values:
        for y in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]):
            x = external(p, y, f)
            if x: return x
    return None


def errors_of(p, call, f):
    """the errors= argument of something that opens a text file"""
    kw = {k.arg: k.value for k in call.keywords}
    if None in kw: kw = {**options(p, kw.pop(None), f), **kw}
    if 'errors' in kw: return kw['errors']
    i = ERRORS_AT.get(opener(p, call.func, f))
    if i is None and isinstance(call.func, ast.Attribute): i = {'open': 3, 'read_text': 1, 'write_text': 2}.get(call.func.attr)
    return call.args[i] if i is not None and len(call.args) > i else None


def external(p, e, f):
    r = p.resolve(e, f)
    return r[1] if isinstance(r, tuple) and r[0] == 'ext' else None


def is_path(p, e, f):
    for v, g in feeds(p, e, f, depth=3):
        for y in ast.walk(v):
            if isinstance(y, ast.Call) and (callname(y) in ('Path', 'joinpath', 'with_suffix', 'with_name') or external(p, y.func, g) == 'pathlib.Path'): return True
    return False


class Values:
    """what an encoding expression may be: constants, None, 'param' (caller's explicit choice), 'other' (computed)"""
    def __init__(self, p): self.p = p

    def of(self, e, f, node=None, depth=0):
        out = set()
        if depth > 8: return {('other',)}
        if e is None: return {None}
        if isinstance(e, ast.Constant): return {e.value}
        if isinstance(e, ast.IfExp):
            facts = self.not_none_in(e)
            a = self.of(e.body, f, node, depth+1)
            if facts is not None and ast.unparse(e.body) == facts: a = a - {None}
            b = self.of(e.orelse, f, node, depth+1)
            return a | b
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            for i, v in enumerate(e.values):
                s = self.of(v, f, node, depth+1)
                out |= s - {None} if i < len(e.values) - 1 else s
            return out
        if isinstance(e, ast.BoolOp): return set().union(*[self.of(v, f, node, depth+1) for v in e.values])
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in self.p.locals_of(g): return self.local(e.id, g, node if g is f else None, depth)
                g = g.parent
            r = self.p.resolve(e, f)
            if isinstance(r, tuple) and r[0] == 'global':
                for v in r[1].globals.get(r[2], []): out |= self.of(v, next(iter(r[1].allfuncs), f), None, depth+1) if v is not None else {('other',)}
                return out or {('other',)}
            return {('other',)}
        if isinstance(e, ast.Attribute):
            r = self.p.resolve(e, f)
            if isinstance(r, tuple) and r[0] == 'global':
                for v in r[1].globals.get(r[2], []): out |= self.of(v, next(iter(r[1].allfuncs), f), None, depth+1) if v is not None else {('other',)}
                return out or {('other',)}
            return self.attribute(e, f, node, depth)
        return {('other',)}

    def not_none_in(self, e):
        t = e.test
        if isinstance(t, (ast.Name, ast.Attribute)): return ast.unparse(t)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None: return ast.unparse(t.left)
        return None

    def attribute(self, e, f, node, depth):
        """self.encoding: every assignment in the class hierarchy; flow-sensitive within the function that opens"""
        h = f
        while h is not None and h.cls is None: h = h.parent
        if h is None or not h.params or not isinstance(e.value, ast.Name) or e.value.id != h.params[0]: return {('other',)}
        text = ast.unparse(e)
        if node is not None:
            vals, entry = self.reaching(f, text, node, depth)
            if not entry: return vals
        else: vals = set()
        found = False; inits = set(); has_init = False
        for k in self.p.mro(h.cls):
            for m in k.methods.values():
                if not m.params: continue
                asg = [n for n in own_nodes(m.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None]
                hit = False
                for n in asg:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        pairs = zip(t.elts, n.value.elts) if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts) else [(t, n.value)]
                        for a, b in pairs:
                            if isinstance(a, ast.Attribute) and a.attr == e.attr and isinstance(a.value, ast.Name) and a.value.id == m.params[0]:
                                found = True; hit = True
                                v = self.of(b, m, self.node_of(m, n), depth+1)
                                if m.name == '__init__':
                                    # the constructor closest to the class decides
                                    if has_init and k is not has_init: continue
                                    has_init = k
                                    # what stands at the end of the constructor
                                    c = cfg_of(m)
                                    rv, ent = self.reaching(m, f'{m.params[0]}.{e.attr}', c.exit, depth+1)
                                    inits |= rv | ({None} if False else set())
                                else: vals |= v
                            elif isinstance(a, (ast.Tuple,)): pass
        if not found:
            for k in self.p.mro(h.cls):
                if e.attr in k.attrs: return vals | self.of(k.attrs[e.attr], h, None, depth+1)
            return {('other',)}
        return vals | inits

    def node_of(self, f, stmt):
        for n in cfg_of(f).nodes:
            if n.ast is stmt: return n
        return None

    def local(self, name, f, node, depth):
        if node is None: 
            vals = set()
            for v in defs_of(f, name): vals |= self.of(v, f, None, depth+1)
            if name in f.allparams: vals |= self.param(name, f)
            return vals or {('other',)}
        vals, entry = self.reaching(f, name, node, depth)
        if entry and name in f.allparams: vals |= self.param(name, f, node)
        return vals or {('other',)}

    def param(self, name, f, node=None):
        a = f.node.args
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos][len(pos)-len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        out = {('param', f.short, name)}
        if name in dflt: out |= self.of(dflt[name], f, None)
        if None in out and node is not None and self.guarded(f, name, node): out.discard(None)
        return out

    def guarded(self, f, name, node):
        """every path from entry to node that does not assign name has established that it is not None"""
        c = cfg_of(f); seen = set(); st = [c.entry]
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            if n is node: return False
            if n is not c.entry and self.assigned(n, name): continue
            for s, l in n.succ:
                if n.kind == 'test' and l in (True, False) and self.excludes_none(n.ast, name, l): continue
                st.append(s)
        return True

    def excludes_none(self, t, name, truth):
        if ast.unparse(t) == name: return truth is True
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and ast.unparse(t.left) == name:
            c = t.comparators[0]; o = t.ops[0]
            if isinstance(c, ast.Constant) and c.value is None: return isinstance(o, (ast.Is, ast.Eq)) and truth is False or isinstance(o, (ast.IsNot, ast.NotEq)) and truth is True
            if isinstance(o, ast.Eq) and truth is True: return True
        return False

    def assigned(self, n, name):
        a = n.ast
        if n.kind in ('foriter', 'forhead') and isinstance(a, ast.For): return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(a.target)) if n.kind == 'forhead' else False
        if isinstance(a, (ast.Assign, ast.AnnAssign)) and n.kind not in ('test',):
            for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                for x in ([t] + list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == name: return True
        return False

    def value_at(self, n, name):
        a = n.ast
        if isinstance(a, ast.For): return a.iter
        for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
            if isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    if isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == name:
                        return a.value.elts[i] if isinstance(a.value, (ast.Tuple, ast.List)) and len(a.value.elts) == len(t.elts) else None
            elif ast.unparse(t) == name: return a.value
        return None

    def reaching(self, f, name, node, depth):
        """(values of the assignments that reach node, whether the value at entry reaches it) - a test that excludes None removes it"""
        c = cfg_of(f); vals = set(); entry = False
        seen = set(); st = [(q, l, False) for q, l in node.pred]
        if not node.pred: return set(), True
        while st:
            n, l, nn = st.pop()
            if n.kind == 'test' and l in (True, False) and self.excludes_none(n.ast, name, l): nn = True
            if (n, nn) in seen: continue
            seen.add((n, nn))
            if self.assigned(n, name):
                if isinstance(n.ast, ast.For):
                    it = n.ast.iter
                    v = set().union(*[self.of(x, f, None, depth+1) for x in it.elts]) if isinstance(it, (ast.Tuple, ast.List)) and it.elts else {('other',)}
                else:
                    e = self.value_at(n, name)
                    v = {('other',)} if e is None else self.of(e, f, n, depth+1)
                vals |= v - {None} if nn else v
                if l != 'exc': continue
            if n is c.entry:
                if nn and '.' not in name:
                    vals |= {('param', f.short, name)} if name in f.allparams else set()
                else: entry = True
                continue
            for q, ll in n.pred: st.append((q, ll, nn))
        return vals, entry


def holder(c, call):
    """CFG node in which the call is evaluated"""
    for n in c.nodes:
        for e in node_exprs(n):
            if any(x is call for x in ast.walk(e)): return n
    return None


def decide(p, r):
    v = Values(p); rep = Reporter(p)
    for f in p.functions():
        for call, enc, writes in text_opens(p, f, own_nodes(f.node)):
            r.count('text_files_written' if writes else 'text_files_read')
            where = f.where(call)
            what = ast.unparse(call)[:80]
            key = f'{f.short}/{ast.unparse(call.args[0])[:40] if call.args else callname(call)}'
            if enc is None: r.find(key + '/none', where, f'{f.short} opens a text file in the encoding of the locale: {what}'); continue
            vals = v.of(enc, f, holder(cfg_of(f), call))
            if None in vals: r.find(key + '/may-be-none', where, f'{f.short} may open a text file with encoding=None, that is in the encoding of the locale: {what}')
            for x in vals:
                if isinstance(x, str) and norm(x) not in KNOWN and norm(x).replace('_', '') not in {k.replace('_', '') for k in KNOWN}: r.find(key + '/unknown', where, f'{f.short} opens a text file with an encoding Python does not know ({x!r}): {what}')
                elif isinstance(x, str) and writes and norm(x) not in UTF8: r.find(key + '/not-utf8', where, f'{f.short} writes a text file in {x!r}, not in UTF-8: {what}')
                elif isinstance(x, str) and norm(x) not in UTF8 and f.name not in OTHER_FORMATS: r.find(key + '/read-not-utf8', where, f'{f.short} always reads a text file in {x!r}, not in UTF-8: {what}')
                elif x == ('other',): r.count('computed_encodings')
            if system(p, enc, f): r.find(key + '/locale', where, f'{f.short} opens a text file in an encoding taken from the system: {what}')
            err = errors_of(p, call, f)
            if err is not None and any(not (isinstance(e, ast.Constant) and e.value in (None, 'strict')) for e, g in feeds(p, err, f)):
                r.find(f'{f.short}/{callname(call)}/lossy', f.where(call), f'{f.short} opens a text file with an errors= mode: what cannot be decoded is lost silently')
        for call in own_nodes(f.node):
            if not isinstance(call, ast.Call): continue
            kw = {k.arg: k.value for k in call.keywords}
            if any(isinstance(kw.get(t), ast.Constant) and kw[t].value is True for t in ('text', 'universal_newlines')) and 'encoding' not in kw and (external(p, call.func, f) or '').startswith('subprocess.'):
                r.find(f'{f.short}/{callname(call)}/text', f.where(call), f'{f.short} reads the output of another program in the encoding of the locale: {ast.unparse(call)[:80]}')
            meth = callname(call) in ('decode', 'encode') and isinstance(call.func, ast.Attribute)
            x = external(p, call.func, f) if meth or callname(call) in ('str', 'bytes') else None
            if meth or x in ('builtins.str', 'builtins.bytes') and len(call.args) + len(call.keywords) > 1:
                modes = {e.value for a in call.args[1:] + [k.value for k in call.keywords if k.arg == 'errors'] for e, g in feeds(p, a, f) if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value in LOSSY}
                r.count('coding_calls')
                if modes and not self_reporting(p, rep, call, f) and not program_output(p, call, f):
                    r.find(f'{f.short}/{ast.unparse(call)[:60]}/lossy', f.where(call), f'{f.short} silently loses what it cannot {callname(call)}: {ast.unparse(call)[:80]}')
                for a in call.args[(1 if not isinstance(call.func, ast.Attribute) or x else 0):] + [k.value for k in call.keywords if k.arg == 'encoding']:
                    if system(p, a, f): r.find(f'{f.short}/{ast.unparse(call)[:60]}/locale', f.where(call), f'{f.short} {callname(call)}s in an encoding taken from the system: {ast.unparse(call)[:80]}')


def system(p, enc, f):
    for e, g in feeds(p, enc, f):
        for y in ast.walk(e):
            if isinstance(y, (ast.Call, ast.Attribute, ast.Subscript)):
                x = external(p, y.func if isinstance(y, ast.Call) else y.value if isinstance(y, ast.Subscript) else y, g) or ''
                if re.match(SYSTEM, x): return True
    return False


def self_reporting(p, rep, call, f):
    """in an except handler all of whose paths report, or followed/preceded in its block by a report"""
    for a in ancestors(call):
        if a is f.node: return False
        if isinstance(a, ast.ExceptHandler): return any(isinstance(y, ast.Call) and rep.call_reports(y, f) for b in a.body for y in ast.walk(b))
    return False


def program_output(p, call, f):
    src = call.func.value if isinstance(call.func, ast.Attribute) else call.args[0] if call.args else None
    return src is not None and any(isinstance(y, ast.Call) and (callname(y) in ('communicate', 'check_output') or (external(p, y.func, g) or '').startswith('subprocess.')) for e, g in feeds(p, src, f) for y in ast.walk(e))


def run(p, r, tier):
    decide(p, r)
    r.floor('text_files_written', 60); r.floor('text_files_read', 30)


class R7:
    def __init__(self): self.findings = {}
    def find(self, k, w, m): self.findings[k] = m
    def count(self, *a): pass


def _st(src, want):
    def thunk():
        p = Project.from_sources({'BibleOrgSys/x.py': 'import logging, io, locale\nfrom pathlib import Path\n' + src}); r = R7(); decide(p, r)
        return bool(r.findings) == want
    return thunk


SELFTESTS = [
    ('named', _st("def f(fn):\n with open(fn, 'wt', encoding='utf-8') as q: pass\n", False)),
    ('binary', _st("def f(fn):\n with open(fn, 'rb') as q: pass\n", False)),
    ('none', _st("def f(fn):\n with open(fn, 'at') as q: pass\n", True)),
    ('default None', _st("def f(fn, encoding=None):\n with open(fn, encoding=encoding) as q: pass\n", True)),
    ('default None replaced', _st("def f(fn, encoding=None):\n if encoding is None: encoding = 'utf-8'\n with open(fn, encoding=encoding) as q: pass\n", False)),
    ('default None replaced on one path', _st("def f(fn, encoding=None, x=0):\n if x and encoding is None: encoding = 'utf-8'\n with open(fn, encoding=encoding) as q: pass\n", True)),
    ('or', _st("def f(fn, encoding=None):\n with open(fn, encoding=encoding or 'utf-8') as q: pass\n", False)),
    ('attribute', _st("class A:\n def __init__(self, e=None): self.encoding = e\n def f(self, fn):\n  with open(fn, encoding=self.encoding) as q: pass\n", True)),
    ('attribute replaced', _st("class A:\n def __init__(self, e=None): self.encoding = e if e else 'utf-8'\n def f(self, fn):\n  with open(fn, encoding=self.encoding) as q: pass\n", False)),
    ('latin output', _st("ENC='latin-1'\ndef f(fn):\n Path(fn).write_text('x', encoding=ENC)\n", True)),
    ('locale', _st("def f(fn):\n e = locale.getpreferredencoding()\n with open(fn, encoding=e) as q: pass\n", True)),
    ('lossy open', _st("def f(fn):\n with open(fn, encoding='utf-8', errors='ignore') as q: pass\n", True)),
    ('standard output', _st("import sys\ndef f(fn):\n with open(fn, encoding=sys.stdout.encoding) as q: pass\n", True)),
    ('environment', _st("import os\ndef f(fn):\n with open(fn, encoding=os.environ.get('E') or 'utf-8') as q: pass\n", True)),
    ('decode locale', _st("def f(b): return b.decode(locale.getlocale()[1])\n", True)),
    ('errors by position', _st("def f(fn):\n with open(fn, 'rt', -1, 'utf-8', 'ignore') as q: pass\n", True)),
    ('errors in options', _st("def f(fn):\n o = {'errors':'ignore'}\n with open(fn, encoding='utf-8', **o) as q: pass\n", True)),
    ('encoding in options', _st("def f(fn):\n o = {'encoding':'utf-8'}\n with open(fn, **o) as q: pass\n", False)),
    ('another name for open', _st("def f(fn):\n o = open\n with o(fn) as q: pass\n", True)),
    ('another name for open, named', _st("def f(fn):\n o = open\n with o(fn, encoding='utf-8') as q: pass\n", False)),
    ('lossy decode', _st("def f(b): return b.decode('utf-8', 'replace')\n", True)),
    ('lossy decode reported', _st("def f(b):\n try: return b.decode('utf-8')\n except UnicodeDecodeError:\n  logging.error('x')\n  return b.decode('utf-8', 'replace')\n", False)),
]
