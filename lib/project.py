"""Resolved view of the BibleOrgSys source tree: modules, imports, classes, functions, call resolution.

Everything here is computed from the text of /repo's current working tree with the standard `ast` module;
nothing of BibleOrgSys is imported or run.
"""
from __future__ import annotations
import ast, os, builtins, warnings, symtable

REPO = os.environ.get('BOS_REPO', '/repo')
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__builtins__', '__spec__', '__loader__', '__package__', '__path__', '__annotations__'}
# Deliberately undefined name used all over BibleOrgSys as a debugging breakpoint (see README/author's comments)
HALT = 'halt'
DEMO_FUNCS = ('briefDemo', 'fullDemo', 'demo', 'main')


class AnalysisError(Exception):
    """The analysis itself is broken (anchor vanished, too few instances): exit 2, never a silent pass."""


class Module:
    def __init__(self, name, path, rel, src, tree):
        self.name, self.path, self.rel, self.src, self.tree = name, path, rel, src, tree
        self.lines = src.split('\n')
        self.imports = {}      # local name -> dotted target ('pkg.mod' or 'pkg.mod.attr')
        self.star = []         # star-imported modules
        self.funcs = {}        # top-level functions name -> Func
        self.classes = {}      # top-level classes name -> Cls
        self.globals = {}      # top-level assigned names -> list of value exprs (or None)
        self.allfuncs = []     # every Func in the module incl. methods, nested
    def __repr__(self): return f'<Module {self.name}>'


class Cls:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods = {}
        self.bases = []        # dotted / Cls resolved later
        self.attrs = {}        # class-level assigned names -> value expr
        self.qual = f'{module.name}.{name}'
        self.props = set()
    def __repr__(self): return f'<Cls {self.qual}>'


class Func:
    def __init__(self, name, node, module, cls=None, parent=None):
        self.name, self.node, self.module, self.cls, self.parent = name, node, module, cls, parent
        self.nested = {}
        if parent is not None: self.qual = f'{parent.qual}.{name}'
        elif cls is not None: self.qual = f'{cls.qual}.{name}'
        else: self.qual = f'{module.name}.{name}'
        self.short = self.qual[len(module.name)+1:]
        self.demo = False
    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]
    @property
    def allparams(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg: r.append(a.vararg.arg)
        if a.kwarg: r.append(a.kwarg.arg)
        return r
    @property
    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in self.node.decorator_list)
    @property
    def is_property(self):
        return any((isinstance(d, ast.Name) and d.id in ('property', 'cached_property')) or
                   (isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter')) for d in self.node.decorator_list)
    def where(self, node=None):
        return f'{self.module.rel}:{getattr(node, "lineno", self.node.lineno)}'
    def __repr__(self): return f'<Func {self.qual}>'


def set_parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n


def ancestors(node):
    n = getattr(node, '_parent', None)
    while n is not None:
        yield n
        n = getattr(n, '_parent', None)


def dotted(e):
    """a.b.c -> 'a.b.c' (or None)"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr); e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return '.'.join(reversed(parts))
    return None


def own_nodes(fnode):
    """All nodes of a function body, not descending into nested function/class definitions (lambdas ARE included)."""
    cached = getattr(fnode, '_own', None)
    if cached is not None: return cached
    out = []
    stack = list(fnode.body) if hasattr(fnode, 'body') and isinstance(fnode.body, list) else [fnode.body]
    stack = stack[::-1]
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list: stack.append(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]: stack.append(d)
            continue
        for c in reversed(list(ast.iter_child_nodes(n))):
            stack.append(c)
    try: fnode._own = out
    except AttributeError: pass
    return out


def is_main_guard(stmt):
    return (isinstance(stmt, ast.If) and isinstance(stmt.test, ast.Compare) and isinstance(stmt.test.left, ast.Name)
            and stmt.test.left.id == '__name__')


class Project:
    PKG = 'BibleOrgSys'
    # Generated table that is not valid Python in the original repository (a set display of bare dots)
    UNPARSABLE_OK = {'BibleOrgSys/DataFiles/DerivedFiles/BibleVersificationSystems_Tables.py'}

    @classmethod
    def from_sources(cls, sources):
        """a tiny in-memory project for the self-tests: {'BibleOrgSys/x.py': source}"""
        return cls(sources=sources)

    def __init__(self, root=None, extra_dirs=(), sources=None):
        self.root = root or REPO
        self.modules = {}
        self.by_rel = {}
        self.skipped = []
        warnings.simplefilter('ignore')
        if sources is not None:
            for rel, src in sources.items(): self._add(rel, src)
        for top in () if sources is not None else (self.PKG,) + tuple(extra_dirs):
            for dp, dns, fns in os.walk(os.path.join(self.root, top)):
                dns[:] = sorted(d for d in dns if d not in ('__pycache__', '.git'))
                for fn in sorted(fns):
                    if not fn.endswith('.py'): continue
                    path = os.path.join(dp, fn)
                    rel = os.path.relpath(path, self.root)
                    with open(path, encoding='utf-8') as f: src = f.read()
                    try: tree = ast.parse(src, rel)
                    except SyntaxError as err:
                        if rel in self.UNPARSABLE_OK: self.skipped.append(rel); continue
                        raise AnalysisError(f'{rel} does not parse: {err}')
                    self._add(rel, src, tree)
        if sources is None and len(self.modules) < 110:
            raise AnalysisError(f'only {len(self.modules)} modules found under {self.root}/{self.PKG} (expected at least 110)')
        for m in self.modules.values(): self._index(m)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values(): self.classes[c.qual] = c
        for c in self.classes.values(): self._bases(c)
        self.methods_by_name = {}
        for c in self.classes.values():
            for n, f in c.methods.items(): self.methods_by_name.setdefault(n, []).append(f)
        self._mark_demo()
        self._global_types = None
        self._selftypes = {}
        self._subs = None

    def _add(self, rel, src, tree=None):
        if tree is None: tree = ast.parse(src, rel)
        name = rel[:-3].replace(os.sep, '.')
        if name.endswith('.__init__'): name = name[:-9]
        m = Module(name, os.path.join(self.root, rel), rel, src, tree)
        set_parents(tree)
        self.modules[name] = m
        self.by_rel[rel] = m

    # ---- indexing
    def _index(self, m):
        def add_func(node, cls, parent):
            f = Func(node.name, node, m, cls, parent)
            node._func = f
            m.allfuncs.append(f)
            for n in own_nodes(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f.nested[n.name] = add_func(n, None, f)
            return f
        def do_body(body):
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)): self._imp(m, s)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): m.funcs[s.name] = add_func(s, None, None)
                elif isinstance(s, ast.ClassDef):
                    c = Cls(s.name, s, m); s._cls = c
                    m.classes[s.name] = c
                    for b in s.body:
                        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            c.methods[b.name] = add_func(b, c, None)
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name): c.attrs[t.id] = b.value
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            c.attrs[b.target.id] = b.value
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name): m.globals.setdefault(n.id, []).append(s.value if t is n else None)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.globals.setdefault(s.target.id, []).append(s.value)
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    m.globals.setdefault(s.target.id, []).append(None)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        do_body(getattr(s, fld, []) or [])
                    for h in getattr(s, 'handlers', []) or []: do_body(h.body)
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name): m.globals.setdefault(n.id, []).append(None)
                    if isinstance(s, ast.With):
                        for it in s.items:
                            if it.optional_vars is not None:
                                for n in ast.walk(it.optional_vars):
                                    if isinstance(n, ast.Name): m.globals.setdefault(n.id, []).append(None)
        do_body(m.tree.body)
        for f in m.allfuncs:       # 'global x' writes
            for n in own_nodes(f.node):
                if isinstance(n, ast.Global):
                    for x in n.names: m.globals.setdefault(x, []).append(None)

    def _imp(self, m, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname: m.imports[a.asname] = a.name
                else: m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = s.module or ''
            if s.level:
                parts = m.name.split('.')
                parts = parts[:len(parts)-s.level] if not m.rel.endswith('__init__.py') else parts[:len(parts)-s.level+1]
                base = '.'.join(parts + ([s.module] if s.module else []))
            for a in s.names:
                if a.name == '*': m.star.append(base)
                else: m.imports[a.asname or a.name] = f'{base}.{a.name}'

    def _bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr_static(b, c.module)
            c.bases.append(r)

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out or not isinstance(x, Cls): continue
            out.append(x)
            todo = [b for b in x.bases] + todo
        return out

    def subclasses(self, c):
        if self._subs is None:
            self._subs = {}
            for x in self.classes.values():
                for b in self.mro(x)[1:]: self._subs.setdefault(b.qual, []).append(x)
        return self._subs.get(c.qual, [])

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods: return k.methods[name]
        return None

    # ---- static name resolution at module level
    def resolve_dotted(self, d):
        """'BibleOrgSys.x.Y.z' -> Module / Cls / Func / ('global', Module, name) / ('ext', dotted)"""
        if d in self.modules: return self.modules[d]
        if '.' not in d: return ('ext', d)
        head, tail = d.rsplit('.', 1)
        h = self.resolve_dotted(head)
        return self.member(h, tail, d)

    def member(self, h, tail, d=None):
        if isinstance(h, Module):
            sub = f'{h.name}.{tail}'
            if tail in h.classes: return h.classes[tail]
            if tail in h.funcs: return h.funcs[tail]
            if tail in h.imports:
                t = h.imports[tail]
                if t != sub: return self.resolve_dotted(t)
            if tail in h.globals: return ('global', h, tail)
            if sub in self.modules: return self.modules[sub]
            for st in h.star:
                sm = self.modules.get(st)
                if sm is not None:
                    r = self.member(sm, tail)
                    if r is not None: return r
            return None
        if isinstance(h, Cls):
            f = self.find_method(h, tail)
            if f: return f
            return None
        if isinstance(h, tuple) and h[0] == 'ext': return ('ext', f'{h[1]}.{tail}')
        return None

    def resolve_expr_static(self, e, module):
        if isinstance(e, ast.Name):
            r = self.member(module, e.id)
            if r is None and e.id in BUILTINS: return ('ext', f'builtins.{e.id}')
            return r
        if isinstance(e, ast.Attribute):
            h = self.resolve_expr_static(e.value, module)
            if h is None: return None
            return self.member(h, e.attr)
        return None

    # ---- demo code: functions reachable only from the __main__ block
    def _mark_demo(self):
        """Demo code: the program entry points run by `if __name__=='__main__'` blocks (briefDemo/fullDemo/demo/main), module-level
           test helpers (testXX, exportXX, private __processXX) used only by them, and anything nested in those."""
        import re
        def mark(g):
            g.demo = True
            for n in g.nested.values(): mark(n)
        for m in self.modules.values():
            for f in m.funcs.values():
                if f.name in DEMO_FUNCS or re.match(r'test|export[A-Z]|__process[A-Z]', f.name): mark(f)

    def functions(self, demo=False, prefix=None):
        for m in self.modules.values():
            if prefix and not any(m.rel.startswith(p) for p in ([prefix] if isinstance(prefix, str) else prefix)): continue
            for f in m.allfuncs:
                if f.demo and not demo: continue
                yield f

    def func(self, qual):
        """lookup by 'Module.Class.method' dotted path below BibleOrgSys"""
        m, _, rest = qual.partition(':')
        mod = self.modules.get(m)
        if mod is None: raise AnalysisError(f'anchor module {m} has vanished')
        parts = rest.split('.')
        if len(parts) == 1:
            if parts[0] in mod.funcs: return mod.funcs[parts[0]]
        elif parts[0] in mod.classes and parts[1] in mod.classes[parts[0]].methods:
            return mod.classes[parts[0]].methods[parts[1]]
        raise AnalysisError(f'anchor function {qual} has vanished')

    def cls(self, qual):
        m, _, name = qual.partition(':')
        mod = self.modules.get(m)
        if mod is None or name not in mod.classes: raise AnalysisError(f'anchor class {qual} has vanished')
        return mod.classes[name]

    # ---- light type inference
    def global_types(self):
        """module-global name -> set of Cls assigned to it anywhere (incl. from 'global' functions and Mod.attr = Cls())"""
        if self._global_types is not None: return self._global_types
        gt = {}
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Assign): continue
                v = n.value
                if not isinstance(v, ast.Call): continue
                k = self._ctor(v, m)
                if k is None: continue
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in m.globals:
                        gt.setdefault((m.name, t.id), set()).add(k)
                    elif isinstance(t, ast.Attribute):
                        h = self.resolve_expr_static(t.value, m)
                        if isinstance(h, Module): gt.setdefault((h.name, t.attr), set()).add(k)
        self._global_types = gt
        return gt

    def _ctor(self, call, m):
        """class constructed by a call expression, following fluent `.loadData()` chains that return self."""
        e = call
        while isinstance(e, ast.Call):
            r = self.resolve_expr_static(e.func, m)
            if isinstance(r, Cls): return r
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call): e = e.func.value
            else: return None
        return None

    def self_attr_types(self, c):
        """attr -> set(Cls) for self.attr = Cls(...) anywhere in the class hierarchy"""
        if c.qual in self._selftypes: return self._selftypes[c.qual]
        out = {}
        self._selftypes[c.qual] = out
        for k in self.mro(c):
            for f in k.methods.values():
                if not f.params: continue
                me = f.params[0]
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        kk = self._ctor(n.value, k.module)
                        if kk is None: continue
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                out.setdefault(t.attr, set()).add(kk)
        return out

    def local_types(self, f):
        if hasattr(f, '_lt'): return f._lt
        lt = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                k = self._ctor(n.value, f.module)
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if k is not None: lt.setdefault(t.id, set()).add(k)
        for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            if a.annotation is not None:
                an = a.annotation
                if isinstance(an, ast.Name):
                    r = self.resolve_expr_static(an, f.module)
                    if isinstance(r, Cls): lt.setdefault(a.arg, set()).add(r)
        f._lt = lt
        return lt

    def expr_types(self, e, f):
        """set of project classes an expression may be an instance of (empty = unknown)"""
        if isinstance(e, ast.Name):
            if f is not None and f.cls is not None and f.params and e.id == f.params[0] and not f.is_static:
                return {f.cls}
            g = f
            while g is not None:
                lt = self.local_types(g)
                if e.id in lt: return lt[e.id]
                if g.parent is not None and g.parent.cls is not None and g.parent.params and e.id == g.parent.params[0] and e.id not in g.allparams:
                    return {g.parent.cls}
                g = g.parent
            gt = self.global_types().get((f.module.name, e.id)) if f else None
            if gt: return gt
            r = self.resolve_expr_static(e, f.module) if f else None
            if isinstance(r, tuple) and r[0] == 'global': return self.global_types().get((r[1].name, r[2]), set())
            return set()
        if isinstance(e, ast.Attribute):
            h = self.resolve_expr_static(e.value, f.module)
            if isinstance(h, Module): return self.global_types().get((h.name, e.attr), set())
            out = set()
            for c in self.expr_types(e.value, f):
                out |= self.self_attr_types(c).get(e.attr, set())
            return out
        if isinstance(e, ast.Call):
            k = self._ctor(e, f.module)
            if k: return {k}
        return set()

    # ---- call resolution
    GENERIC = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(bytes)) | {'close', 'write', 'read', 'writelines', 'readlines', 'readline', 'search', 'match', 'group', 'start', 'end', 'find', 'findall', 'execute', 'commit', 'getroot', 'load', 'loads', 'dump', 'dumps', 'open'}

    def is_local(self, name, f):
        """is `name` a local variable/param of f or an enclosing function"""
        g = f
        while g is not None:
            if name in self.locals_of(g): return True
            g = g.parent
        return False

    def locals_of(self, f):
        if hasattr(f, '_locals'): return f._locals
        out = set(f.allparams); glob = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names: out.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)): glob |= set(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: out.add(n.name)
        f._locals = out - glob
        return f._locals

    def local_imports(self, f):
        if hasattr(f, '_limps'): return f._limps
        tmp = Module(f.module.name, '', f.module.rel, '', None)
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)): self._imp(tmp, n)
        f._limps = tmp.imports
        return f._limps

    def resolve(self, e, f):
        """resolve an expression used inside Func f: Module/Cls/Func/('ext',dotted)/('global',Module,name)/None"""
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.nested: return g.nested[e.id]
                li = self.local_imports(g)
                if e.id in li: return self.resolve_dotted(li[e.id])
                if e.id in self.locals_of(g): return None
                g = g.parent
            return self.resolve_expr_static(e, f.module)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super':
                c = f.cls or (f.parent.cls if f.parent else None)
                if c is not None:
                    for b in self.mro(c)[1:]:
                        if e.attr in b.methods: return b.methods[e.attr]
                return None
            h = self.resolve(e.value, f)
            if h is not None:
                r = self.member(h, e.attr)
                if r is not None: return r
            return None
        return None

    def callees(self, call, f, cha=True):
        """list of Func/('ext',..)/Cls targets; methods on inferred types incl. subclass overrides; CHA by unique-ish name otherwise"""
        fn = call.func
        r = self.resolve(fn, f)
        if isinstance(r, (Func, Cls)): return [r]
        if isinstance(r, tuple) and r[0] == 'ext': return [r]
        if isinstance(fn, ast.Attribute):
            ts = self.expr_types(fn.value, f)
            out = []
            for c in ts:
                m = self.find_method(c, fn.attr)
                if m: out.append(m)
                for s in self.subclasses(c):
                    if fn.attr in s.methods: out.append(s.methods[fn.attr])
            if out: return list(dict.fromkeys(out))
            if cha and fn.attr not in self.GENERIC:
                return list(self.methods_by_name.get(fn.attr, []))
        return []
