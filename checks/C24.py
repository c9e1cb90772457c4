"""C24: a file name made from the texts of a Bible is made safe before it is used.

For every write effect of the library (see C29) the whole path is followed backwards - joins, concatenations, formatted strings, string methods, local variables,
attributes, parameters through the calls, results of library functions. rule: every part that comes from free text - the name, abbreviation and other descriptive
attributes of a Bible or book, a value looked up in control files, settings or metadata - goes through something that replaces the folder separator
(makeSafeFilename, or replacing '/' itself) on its way into the path. Otherwise a '/' in that text makes the export fail or end up elsewhere.
makeSafeFilename itself counts only if every text it returns has had its '/' replaced."""
import re
from common import *
import C29
from cfg import *

RULE = __doc__
ASSUMPTIONS = ['callees are resolved by type', 'book codes (BBB), chapter and verse numbers are not free text']
CODES = {'BBB', 'books', 'objectNameString', 'objectTypeString', 'C', 'V'}
CLEANM = {'getReferenceNumber', 'getUSFMNumber'}
NUM = {'builtins.int', 'builtins.len', 'builtins.sum', 'builtins.ord', 'builtins.hash', 'builtins.abs', 'builtins.round', 'builtins.id'}


class Parts:
    def __init__(s, p, A): s.p = p; s.A = A; s.memo = {}; s.busy = set()

    def sanitises(s, g):
        """does library function g return only texts in which '/' has been replaced"""
        k = ('san', g)
        if k not in s.memo:
            s.memo[k] = False
            rets = [n.value for n in own_nodes(g.node) if isinstance(n, ast.Return) and n.value is not None]
            s.memo[k] = bool(rets) and all(s.replaced(e, g) for e in rets)
        return s.memo[k]

    def replaced(s, e, f, depth=0):
        if isinstance(e, ast.Constant): return isinstance(e.value, str) and '/' not in e.value
        if isinstance(e, ast.IfExp): return s.replaced(e.body, f, depth) and s.replaced(e.orelse, f, depth)
        if isinstance(e, ast.Call):
            g = s.p.resolve(e.func, f)
            if isinstance(g, Func) and g is not f: return s.sanitises(g)
            if isinstance(e.func, ast.Attribute):
                if e.func.attr == 'replace' and len(e.args) >= 2:
                    a, b = e.args[:2]
                    if isinstance(a, ast.Constant) and a.value in ('/', os_sep) and isinstance(b, ast.Constant) and '/' not in str(b.value): return True
                    return s.replaced(e.func.value, f, depth) and not (isinstance(b, ast.Constant) and '/' in str(b.value))
                if e.func.attr in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'title', 'replace'): return s.replaced(e.func.value, f, depth)
                if e.func.attr == 'translate': return True
            if (dotted(e.func) or '') in ('re.sub', 'os.path.basename'): return True
        if isinstance(e, ast.Name) and depth < 4:
            vals, entry = s.reaching(e, f)
            if vals is None: vals, entry = defs_of(f, e.id), e.id in f.allparams
            return bool(vals) and not (entry and e.id in f.allparams) and all(s.replaced(d, f, depth+1) for d in vals)
        if isinstance(e, ast.NamedExpr): return s.replaced(e.value, f, depth)
        if isinstance(e, ast.Subscript): return s.replaced(e.value, f, depth)
        return False

    def of(s, e, f):
        """{('text', what) , ('param', Func, name)}"""
        k = (id(e), f)
        if k in s.memo: return s.memo[k]
        if k in s.busy: return set()
        s.busy.add(k); r = s.of0(e, f); s.busy.discard(k); s.memo[k] = r
        return r

    def reaching(s, e, f):
        """(value expressions that the name may have here, may it still be what it was on entry); (None, True) if that is not known"""
        k = ('where', f)
        if k not in s.memo:
            w = {}
            for n in cfg_of(f).nodes:
                for x in node_walk(n): w.setdefault(id(x), n)
            s.memo[k] = w
        at = s.memo[k].get(id(e))
        if at is None: return None, True
        out = []; seen = set(); todo = [q for q, l in at.pred if not nothing(q, l, e.id)]; entry = False
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            if n is cfg_of(f).entry: entry = True; continue
            ds = s.defines(n, e.id)
            if ds is not None:
                out += ds
                if not any(isinstance(x, ast.AugAssign) for x in [n.ast]): continue
            todo += [q for q, l in n.pred if not nothing(q, l, e.id)]
        return out, entry

    def defines(s, n, name):
        """value expressions that node n gives to the name; None if it gives none"""
        a = n.ast
        if n.kind in ('foriter', 'forhead') and isinstance(a, (ast.For, ast.AsyncFor)):
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(a.target)):
                if isinstance(a.target, ast.Tuple) and isinstance(a.iter, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Tuple) and len(x.elts) == len(a.target.elts) for x in a.iter.elts):
                    return [x.elts[i] for x in a.iter.elts for i, t in enumerate(a.target.elts) if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t))]
                return [] if isinstance(a.iter, ast.Subscript) or isinstance(a.iter, ast.Call) and isinstance(a.iter.func, ast.Attribute) and a.iter.func.attr in ('items', 'keys', 'values') else [a.iter]
            return None
        if isinstance(a, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.kind == 'stmt' and a.value is not None:
            out = []
            for t in C29.targets(a):
                for u, v in C29.pairs(t, a.value):
                    if isinstance(u, ast.Name) and u.id == name: out.append(v)
            if out: return out
        if isinstance(a, (ast.With, ast.AsyncWith)) and n.kind == 'with_enter':
            for i in a.items:
                if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == name: return [i.context_expr]
        for x in node_walk(n):
            if isinstance(x, ast.NamedExpr) and x.target.id == name: return [x.value]
        return None

    def all(s, es, f): return set().union(set(), *[s.of(x, f) for x in es])

    def of0(s, e, f):
        if isinstance(e, ast.JoinedStr): return s.all([v.value for v in e.values if isinstance(v, ast.FormattedValue)], f)
        if isinstance(e, ast.NamedExpr): return s.of(e.value, f)
        if isinstance(e, ast.BinOp): return s.all([e.left, e.right], f)
        if isinstance(e, ast.IfExp): return s.all([e.body, e.orelse], f)
        if isinstance(e, ast.BoolOp): return s.all(e.values, f)
        if isinstance(e, (ast.Tuple, ast.List)): return s.all(e.elts, f)
        if isinstance(e, ast.Starred): return s.of(e.value, f)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str) and not (isinstance(e.value, ast.Name) and any(isinstance(d, ast.Dict) and d.keys for d in defs_of(f, e.value.id))):
                return {('text', ast.unparse(e)[:50])}
            return s.of(e.value, f)
        if isinstance(e, ast.Attribute): return s.attr(e, f)
        if isinstance(e, ast.Name): return s.name(e, f)
        if isinstance(e, ast.Call): return s.call(e, f)
        return set()

    def name(s, e, f):
        g = f
        while g is not None:
            ds = defs_of(g, e.id)
            if e.id in g.allparams or ds:
                if e.id in CODES: return set()
                vals, entry = s.reaching(e, g) if g is f else (None, True)
                if vals is None: vals = ds
                vals = list(vals) + s.items(g, e.id)
                r = s.all([d for d in vals if not s.replaced(d, g)], g)
                if e.id in g.allparams and entry: r = r | {('param', g, e.id)}
                return r
            g = g.parent
        return set()

    def items(s, f, name):
        """values stored in the local dictionary or list of that name"""
        k = ('it', f)
        if k not in s.memo:
            d = {}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name): d.setdefault(t.value.id, []).append(n.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ('append', 'add') and n.args:
                    d.setdefault(n.func.value.id, []).append(n.args[0])
            s.memo[k] = d
        return s.memo[k].get(name, [])

    def attr(s, e, f):
        if e.attr in CODES: return set()
        if e.attr in C29.PROPS or e.attr in C29.BAREP and not isinstance(e.value, ast.Name): return s.of(e.value, f)
        c = f.cls; g = f
        while c is None and g is not None: c = g.cls; g = g.parent
        if isinstance(e.value, ast.Name) and e.value.id == 'self' and c is not None: pass
        elif isinstance(e.value, ast.Name) and (s.p.resolve(e, f) is None or f.parent): c = s.bible_attr(e.attr) or None
        elif isinstance(e.value, (ast.Subscript, ast.Attribute, ast.Call)) and s.p.resolve(e, f) is None: c = s.bible_attr(e.attr)
        else: return set()
        if c is None: return set()
        return s.stored(c, e.attr)

    def bible_attr(s, a):
        k = ('ba', a)
        if k not in s.memo: s.memo[k] = next((c for c in sorted(s.A.bibles, key=lambda c: c.name) if s.A.stored(c, a)), None)
        return s.memo[k]

    def stored(s, c, a):
        if a in s.A.pathattrs and c in s.A.bibles: return set()
        k = ('st', c, a)
        if k in s.memo: return s.memo[k]
        s.memo[k] = set(); out = set(); bible = c in s.A.bibles
        for x in set(s.p.mro(c)) | (set(s.p.subclasses(c)) if bible else set()):
            for m in x.methods.values():
                for n in own_nodes(m.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in C29.targets(n):
                            for u, v in C29.pairs(t, n.value):
                                if isinstance(u, ast.Attribute) and u.attr == a and isinstance(u.value, ast.Name) and u.value.id == 'self':
                                    if bible:
                                        if not isinstance(v, ast.Constant) and not s.replaced(v, m): out.add(('text', 'self.' + a))
                                    else: out |= s.of(v, m)
        s.memo[k] = out
        return out

    def call(s, e, f):
        x = s.A.ext(e.func, f)
        if x in NUM or x in C29.TEMP or x in ('os.listdir', 'os.walk', 'os.getcwd', 'builtins.str') and not e.args: return set()
        if x in ('os.listdir', 'os.walk', 'os.scandir', 'glob.glob'): return set()
        if s.replaced(e, f): return set()
        gs = [g for g in s.p.callees(e, f, cha=False) if isinstance(g, Func)]
        if gs:
            r = set()
            for g in gs:
                if s.sanitises(g) or g.name in CLEANM: continue
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        for t in s.of(n.value, g):
                            if t[0] == 'param' and t[1] is g:
                                m = arg_map(e, g)
                                if m and t[2] in m: r |= s.of(m[t[2]], f)
                            else: r.add(t)
            return r
        if isinstance(e.func, ast.Attribute):
            if e.func.attr == 'get' and e.args and isinstance(e.args[0], ast.Constant): return {('text', ast.unparse(e)[:50])}
            if e.func.attr in ('encode', 'items', 'values', 'keys', 'index', 'find', 'count'): return set()
            if x is None or x.startswith('os.path') or x.startswith('pathlib'): return s.all([e.func.value] + list(e.args) + [k.value for k in e.keywords], f) if x is None else s.all(e.args, f)
            return s.all(e.args, f)
        if isinstance(e.func, ast.Name): return s.all(e.args, f)
        return set()


os_sep = '/'


def nothing(n, label, name):
    """is the name None or empty when the test n goes to label"""
    if n.kind != 'test' or label not in (True, False): return False
    e = n.ast
    if isinstance(e, (ast.If, ast.While, ast.IfExp)): e = e.test
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e = e.operand; label = not label
    if isinstance(e, ast.Name) and e.id == name: return not label
    if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and e.left.id == name and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
        return label if isinstance(e.ops[0], (ast.Is, ast.Eq)) else not label if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)) else False
    return False


def mentions(d, name): return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(d))


def decide(p, r):
    A = C29.Paths(p); P = Parts(p, A); r.count('write effects', len(A.sinks))
    n = 0
    for call, e, f in A.sinks:
        todo = [(e, f, call)]; seen = set()
        while todo:
            e1, f1, c1 = todo.pop(); n += 1
            if '/Online/' in f1.module.rel: continue
            for t in P.of(e1, f1):
                if t[0] == 'text':
                    r.find(f'{f1.short}:{t[1]}', f1.where(c1), f'{f1.short} puts {t[1]} into a file name as it is ({ast.unparse(c1)[:80]}): a "/" in it leads elsewhere')
                elif (t[1], t[2]) not in seen:
                    seen.add((t[1], t[2]))
                    for cc, cf in A.callers.get(t[1], []):
                        m = arg_map(cc, t[1])
                        if m and t[2] in m: todo.append((m[t[2]], cf, cc))
    r.count('paths followed', n)


def run(p, r, tier):
    decide(p, r)
    r.floor('write effects', 100)


class _R:
    def __init__(s): s.k = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, *a): pass


B = 'import os, zipfile\nfrom pathlib import Path\ndef safe(n): return n.replace("/", "-").replace(":", "_")\ndef half(n):\n    if len(n) < 9: return n\n    return n.replace("/", "-")\nclass InternalBible:\n    def __init__(self, d):\n        self.sourceFolder = d; self.name = self.abbreviation = None; self.books = {}\n    def load(self, t): self.name, self.abbreviation = t.split(",")\n    def getAName(self): return self.name or self.abbreviation\n'


def _st(body, want):
    def t():
        p = Project.from_sources({'BibleOrgSys/a.py': B + body}); r = _R(); decide(p, r)
        return (bool(r.k) == want) or list(r.k)
    return t


SELFTESTS = [
    ('constant', _st('    def toX(self, out): open(os.path.join(out, "x.txt"), "w").close()\n', False)),
    ('raw', _st('    def toX(self, out): open(os.path.join(out, self.name + ".txt"), "w").close()\n', True)),
    ('safe', _st('    def toX(self, out): open(os.path.join(out, safe(self.name + ".txt")), "w").close()\n', False)),
    ('half safe', _st('    def toX(self, out): open(os.path.join(out, half(self.name + ".txt")), "w").close()\n', True)),
    ('replace', _st('    def toX(self, out): open(os.path.join(out, self.name.replace("/", "_") + ".txt"), "w").close()\n', False)),
    ('other replace', _st('    def toX(self, out): open(os.path.join(out, self.name.replace(" ", "_") + ".txt"), "w").close()\n', True)),
    ('variable', _st('    def toX(self, out):\n        fn = f"{self.getAName()}.txt"\n        fp = Path(out) / fn\n        fp.write_text("x")\n', True)),
    ('variable made safe', _st('    def toX(self, out):\n        fn = f"{self.getAName()}.txt"\n        fn = safe(fn)\n        fp = Path(out) / fn\n        fp.write_text("x")\n', False)),
    ('made safe too late', _st('    def toX(self, out):\n        fn = f"{self.getAName()}.txt"\n        fp = Path(out) / fn\n        fn = safe(fn)\n        fp.write_text("x")\n', True)),
    ('made safe on one branch', _st('    def toX(self, out):\n        fn = f"{self.getAName()}.txt"\n        if len(fn) > 20: fn = safe(fn)\n        fp = Path(out) / fn\n        fp.write_text("x")\n', True)),
    ('made safe unless empty', _st('    def toX(self, out):\n        fn = self.getAName()\n        if fn is not None: fn = safe(fn)\n        if fn is None: fn = "x"\n        Path(out).joinpath(fn).write_text("x")\n', False)),
    ('through helper', _st('    def toX(self, out): put(out, self.abbreviation)\ndef put(out, n): open(os.path.join(out, n), "w").close()\n', True)),
    ('helper makes safe', _st('    def toX(self, out): put(out, self.abbreviation)\ndef put(out, n): open(os.path.join(out, safe(n)), "w").close()\n', False)),
    ('folder', _st('    def toX(self, out): os.makedirs(os.path.join(out, self.abbreviation))\n', True)),
    ('setting', _st('    def toX(self, out, controls): open(os.path.join(out, controls["file"]), "w").close()\n', True)),
    ('setting safe', _st('    def toX(self, out, controls): open(os.path.join(out, safe(controls["file"])), "w").close()\n', False)),
    ('books', _st('    def toX(self, out):\n        for BBB in self.books: open(os.path.join(out, BBB + ".txt"), "w").close()\n', False)),
    ('writer object', _st('    def toX(self, out): W(self.name, out).start()\nclass W:\n    def __init__(self, fn, d): self.fp = os.path.join(d, fn)\n    def start(self): self.f = open(self.fp, "w")\n', True)),
    ('reading', _st('    def toX(self, out): open(os.path.join(out, self.name + ".txt")).read()\n', False)),
]
