"""C17: every name, attribute, call, import and returned tuple in the library fits its definition.

Rule, at every reachable point of every function of the library:
 - a name that is read is a builtin, a name of the module, an import that exists, or a local (or enclosing) variable,
   and a local variable that is read has an assignment that can reach the read;
 - an attribute read on self is set, defined, inherited or slotted somewhere in the class's family (with name mangling);
   an attribute read on an imported module, or on a local whose every assignment constructs a known class, exists there;
 - `from X import y` inside the library names something that X defines;
 - the arguments of a call to a known function, method or constructor fit its parameters
   (count, keyword names, required parameters, no parameter given twice);
 - a call whose result is unpacked into n names never returns a tuple of another length or a plain constant;
 - on an object of unknown class, a method that only classes of the library define is called in a way that at least one of
   them accepts, and an attribute is read that somebody (the library, a builtin type, an imported standard module) has;
   functions and modules that use third-party packages are left out of the latter.

A bare expression statement that is just an undefined name (`halt`, `NEVER_HAPPENS`) is this library's deliberate way of
stopping on a should-not-happen condition and is not reported."""
import builtins, importlib, inspect, os, re, sys, types
from common import *
from kinds import Misuse, Kinds, NONE

RULE = __doc__
ASSUMPTIONS = ['attributes are not created through setattr with computed names, or by other programs importing the library',
               'a variable assigned on some path only is not reported (which paths are possible depends on the data)']
B = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__builtins__', '__path__', '__spec__', '__package__', '__class__'}


class Names:
    def __init__(s, p): s.p = p

    def stores(s, n):
        out = set()

        def go(x):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr): out.add(y.target.id)
                return
            if isinstance(x, ast.Lambda): return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
            for y in ast.iter_child_nodes(x): go(y)
        a = n.ast
        if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return {a.name}
        if isinstance(a, (ast.Import, ast.ImportFrom)): return {(x.asname or x.name).split('.')[0] for x in a.names}
        if n.kind == 'handler' and isinstance(a, ast.ExceptHandler) and a.name: out.add(a.name)
        if n.kind == 'case':
            for y in ast.walk(a.pattern):
                if isinstance(y, (ast.MatchAs, ast.MatchStar)) and y.name: out.add(y.name)
                if isinstance(y, ast.MatchMapping) and y.rest: out.add(y.rest)
        for e in node_exprs(n): go(e)
        return out

    def uses(s, n):
        """(name nodes read now, name nodes read later in a lambda)"""
        now, later = [], []

        def go(x, bound, out):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                b = set(bound)
                for g in x.generators:
                    go(g.iter, b, out)
                    b |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                    for c in g.ifs: go(c, b, out)
                if isinstance(x, ast.DictComp): go(x.key, b, out); go(x.value, b, out)
                else: go(x.elt, b, out)
                return
            if isinstance(x, ast.Lambda):
                for d in x.args.defaults + [d for d in x.args.kw_defaults if d is not None]: go(d, bound, out)
                a = x.args
                go(x.body, set(bound) | {q.arg for q in a.posonlyargs+a.args+a.kwonlyargs} | {q.arg for q in (a.vararg, a.kwarg) if q}, later)
                return
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in bound: out.append(x)
            for y in ast.iter_child_nodes(x): go(y, bound, out)
        for e in node_exprs(n): go(e, set(), now)
        if n.kind == 'stmt' and isinstance(n.ast, ast.AugAssign) and isinstance(n.ast.target, ast.Name): now.append(n.ast.target)
        if isinstance(n.ast, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.ast.args.defaults + [d for d in n.ast.args.kw_defaults if d is not None]: go(d, set(), now)
        return now, later

    def unassigned(s, f):
        c = cfg_of(f); loc = s.p.locals_of(f) - set(f.allparams)
        for g in f.nested.values():
            for x in ast.walk(g.node):
                if isinstance(x, ast.Nonlocal): loc = loc - set(x.names)
        ins = {c.entry: frozenset()}; st = [c.entry]
        gen = {n: frozenset(s.stores(n)) for n in c.nodes}
        while st:
            n = st.pop()
            dels = {t.id for t in n.ast.targets if isinstance(t, ast.Name)} if isinstance(n.ast, ast.Delete) else set()
            o = (ins[n] - dels) | gen[n]
            for t, l in n.succ:
                v = o if l != 'exc' else ins[n] | o
                old = ins.get(t)
                if old is None or not v <= old:
                    ins[t] = v if old is None else old | v; st.append(t)
        for n in c.nodes:
            if n not in ins: continue
            have = ins[n] | {y.target.id for e in node_exprs(n) for y in ast.walk(e) if isinstance(y, ast.NamedExpr)}
            for x in s.uses(n)[0]:
                if x.id in loc and x.id not in have: yield x
        # names that only an except clause sets are gone after it
        hs = {}
        for x in own_nodes(f.node):
            if isinstance(x, ast.ExceptHandler) and x.name: hs.setdefault(x.name, []).append(x)
        for nm, hh in hs.items():
            if nm not in loc or any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in own_nodes(f.node)): continue
            for n in c.nodes:
                if n not in ins: continue
                for x in s.uses(n)[0]:
                    if x.id == nm and not any(q in hh for q in ancestors(x)): yield x

    def set_globals(s, m):
        if not hasattr(m, '_setg'):
            m._setg = {y.id for y in ast.walk(m.tree) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and not any(isinstance(q, (ast.FunctionDef, ast.Lambda)) for q in ancestors(y))}
            for g in m.allfuncs:
                gl = {z for y in own_nodes(g.node) if isinstance(y, ast.Global) for z in y.names}
                m._setg |= {y.id for y in own_nodes(g.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id in gl}
        return m._setg

    def undefined(s, f):
        c = cfg_of(f); ok = reachable(c.entry)
        for n in c.nodes:
            if n not in ok: continue
            if isinstance(n.ast, ast.Expr) and isinstance(n.ast.value, ast.Name): continue    # deliberate stop
            now, later = s.uses(n)
            for x in now + later:
                bad = x.id not in B and not s.p.is_local(x.id, f) and s.p.resolve(x, f) is None
                if not bad and x.id in {z for y in own_nodes(f.node) if isinstance(y, ast.Global) for z in y.names}:
                    m = f.module
                    bad = x.id not in B and not (x.id in m.imports or x.id in m.funcs or x.id in m.classes) and x.id not in s.set_globals(m)
                yield x, bad


class Fit:
    def __init__(s, p):
        s.p = p; s.hier = {}; s.sure = {}; s.own = {}
        s.nonself = set()          # attributes stored on something other than self, anywhere
        s.optional = {}            # class -> attributes read under try/except AttributeError or hasattr/getattr
        for f in p.functions(demo=True):
            me = s.me(f)
            for x in own_nodes(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == me): s.nonself.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant): s.nonself.add(x.args[1].value)
                c = s.clsof(f)
                if c is None: continue
                if isinstance(x, ast.Try) and any(h.type is not None and any(isinstance(y, ast.Name) and y.id == 'AttributeError' for y in ast.walk(h.type)) for h in x.handlers):
                    for st in x.body:
                        for y in ast.walk(st):
                            if isinstance(y, ast.Attribute): s.optional.setdefault(c, set()).add(y.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    s.optional.setdefault(c, set()).add(x.args[1].value)
        for m in p.modules.values():
            for st in m.tree.body:
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    for x in ast.walk(st):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store): s.nonself.add(x.attr)
        # names of modules that are both imported and assigned: the class of that name is no longer meant
        s.rebound = {(m.name, n) for m in p.modules.values() for n in set(m.globals) & (set(m.imports) | set(m.classes) | set(m.funcs))}

    def me(s, f):
        g = f
        while g is not None:
            if g.cls is not None and g.params and not g.is_static: return g.params[0]
            g = g.parent

    def clsof(s, f):
        g = f
        while g is not None and g.cls is None: g = g.parent
        return g.cls if g and not g.is_static else None

    def mangle(s, c, a): return f'_{c.name.lstrip("_")}{a}' if a.startswith('__') and not a.endswith('__') else a

    def attrs(s, c):
        """every attribute that an instance of c or of a relative may have; None = unknown"""
        if c in s.hier: return s.hier[c]
        fam = set(s.p.mro(c))
        for k in s.p.subclasses(c): fam |= set(s.p.mro(k))
        out, unknown = set(), False
        for k in fam:
            for b in k.bases:
                if not isinstance(b, Cls) and not (isinstance(b, tuple) and b[1] == 'builtins.object'):
                    if isinstance(b, tuple) and b[1].startswith('builtins.'): out |= set(dir(getattr(builtins, b[1][9:], object)))
                    else: unknown = True
            out |= {s.mangle(k, a) for a in k.methods} | {s.mangle(k, a) for a in k.attrs} | set(dir(object)) | {'__dict__', '__name__', '__slots__', '__annotations__'}
            if '__slots__' in k.attrs:
                out |= {s.mangle(k, y.value) for y in ast.walk(k.attrs['__slots__']) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
            if '__getattr__' in k.methods or '__getattribute__' in k.methods: unknown = True
            for st in k.node.body:
                if isinstance(st, ast.ClassDef): out.add(st.name)
            if k not in s.own:
                s.own[k] = {s.mangle(k, x.attr) for m in k.methods.values() if m.params for x in ast.walk(m.node)
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == m.params[0]}
            out |= s.own[k]
            out |= s.optional.get(k, set())
        s.hier[c] = None if unknown else out
        return s.hier[c]

    def certain(s, e, f):
        """classes of which e is certainly an instance (every assignment seen constructs one or is None)"""
        if not isinstance(e, ast.Name): return set()
        if (f, e.id) not in s.sure: s.sure[f, e.id] = s.certain1(e, f)
        return s.sure[f, e.id]

    def certain1(s, e, f):
        g = f
        while g is not None and e.id not in s.p.locals_of(g): g = g.parent
        if g is None or g is not f or e.id in g.allparams: return set()
        out = set(); n_stores = 0; n_seen = 0
        for x in own_nodes(g.node):
            if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store): n_stores += 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id:
                if isinstance(x.value, ast.Constant) and x.value.value is None: n_seen += 1; continue
                if not isinstance(x.value, ast.Call): return set()
                r = s.p.resolve(x.value.func, f)
                if not isinstance(r, Cls) or s.is_rebound(x.value.func, f): return set()
                out.add(r); n_seen += 1
        for h in g.nested.values():
            if any(isinstance(x, ast.Nonlocal) and e.id in x.names for x in ast.walk(h.node)): return set()
        return out if n_seen == n_stores else set()

    def is_rebound(s, fn, f):
        b = fn
        while isinstance(b, ast.Attribute): b = b.value
        if not isinstance(b, ast.Name): return False
        if (f.module.name, b.id) in s.rebound and not s.p.is_local(b.id, f): return True
        r = s.p.resolve(fn, f)
        if isinstance(r, (Cls, Func)) and isinstance(fn, (ast.Name, ast.Attribute)):
            nm = fn.id if isinstance(fn, ast.Name) else fn.attr
            return (r.module.name, nm) in s.rebound
        return False

    def reads(s, f):
        """(attribute node, owner or None, ok)"""
        c = s.clsof(f); me = s.me(f); cf = cfg_of(f); ok = reachable(cf.entry)
        for n in cf.nodes:
            if n not in ok: continue
            for x in node_walk(n):
                if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)): continue
                if isinstance(x.value, ast.Name) and c is not None and x.value.id == me:
                    if any(x.value.id in s.p.locals_of(g) and x.value.id not in g.allparams for g in [f]): continue
                    a = s.attrs(c)
                    if a is not None: yield x, c.qual, s.mangle(c, x.attr) in a or x.attr in s.nonself
                    continue
                if isinstance(x.value, ast.Name) and s.is_rebound(x.value, f): continue
                h = s.p.resolve(x.value, f)
                if isinstance(h, Cls) and x.attr.startswith('__') and not x.attr.endswith('__'):
                    c2 = c
                    yield x, h.qual, c2 is not None and s.attrs(h) is None or s.mangle(c2, x.attr) in s.attrs(h) if c2 is not None else x.attr in h.methods and False
                if isinstance(h, Module):
                    yield x, h.name, s.p.member(h, x.attr) is not None or x.attr in B or x.attr in s.nonself
                elif h is None:
                    ts = s.certain(x.value, f)
                    if ts:
                        good = False
                        for k in ts:
                            a = s.attrs(k)
                            if a is None or x.attr in a or x.attr in s.nonself: good = True
                        yield x, '|'.join(sorted(k.qual for k in ts)), good

    def imports(s, f, imps):
        for nm, d in imps.items():
            if d.split('.')[0] == 'BibleOrgSys': yield nm, d, s.p.resolve_dotted(d) is not None

    def universe(s):
        """names that objects from outside the library may have; which modules and functions use third-party packages"""
        uni = {'returncode', 'ServiceManager', 'getGlobalOptions', 'getRawData'}; third = set()
        for t in list(vars(builtins).values()) + [types.FunctionType, types.ModuleType, types.CodeType, types.TracebackType, types.FrameType, re.Pattern, re.Match]:
            if isinstance(t, type): uni |= set(dir(t))
        std = set()
        for m in s.p.modules.values():
            for own, imps in [(m, m.imports)] + [(f, s.p.local_imports(f)) for f in m.allfuncs]:
                for d in imps.values():
                    top = d.split('.')[0]
                    if top == 'BibleOrgSys': continue
                    if top in sys.stdlib_module_names: std.add(d)
                    elif top != '__main__': third.add(own)
        s.stdmods = []
        for d in sorted(std):
            parts = d.split('.'); mod = None
            for k in range(len(parts), 0, -1):
                try: mod = importlib.import_module('.'.join(parts[:k])); break
                except ImportError: pass
            if mod is None: continue
            uni |= set(dir(mod)) | set(parts); s.stdmods.append(set(dir(mod)))
            for v in list(vars(mod).values()):
                if isinstance(v, (type, types.ModuleType)): uni |= set(dir(v)); s.stdmods.append(set(dir(v)))
        lib = os.path.dirname(os.__file__)                     # whatever the Python library itself defines
        for dp, dns, fns in os.walk(lib):
            dns[:] = [d for d in dns if d not in ('test', 'tests', 'site-packages', 'dist-packages', 'idlelib', 'turtledemo', '__pycache__', 'lib2to3', 'pydoc_data')]
            for fn in fns:
                if not fn.endswith('.py'): continue
                try: t = open(os.path.join(dp, fn), encoding='utf-8').read()
                except (OSError, UnicodeDecodeError): continue
                uni |= set(re.findall(r'(?:def|class) +(\w+)', t)) | set(re.findall(r'self\.(\w+)', t)) | set(re.findall(r'^ +(\w+) *=', t, re.M))
        for m in s.p.modules.values():
            uni |= set(m.globals) | set(m.classes) | set(m.funcs) | set(m.imports)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load): uni.add(x.attr)
                if isinstance(x, ast.ClassDef):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): uni.add(y.id)
                        if isinstance(y, (ast.FunctionDef, ast.ClassDef)): uni.add(y.name)
                        if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ('__slots__', '_fields') for t in y.targets):
                            uni |= {z.value for z in ast.walk(y.value) if isinstance(z, ast.Constant) and isinstance(z.value, str)}
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr', 'setattr', 'namedtuple') or isinstance(x.func, ast.Attribute) and x.func.attr in ('add_argument', 'namedtuple', 'NamedTuple', 'add_parser'):
                        for z in ast.walk(x):
                            if isinstance(z, ast.Constant) and isinstance(z.value, str): uni |= {w.lstrip('-').replace('-', '_') for w in re.split(r'[ ,]+', z.value)}
        return uni, third

    def duck(s, f, uni, third):
        """(node, key, what is wrong or '') for uses of objects of unknown class"""
        if not hasattr(s, 'lib'):
            s.lib = {}
            for m in s.p.modules.values():
                for c in m.classes.values():
                    for n, g in c.methods.items(): s.lib.setdefault(n, []).append(g)
            s.ext = set()
            for t in [v for v in vars(builtins).values() if isinstance(v, type)]: s.ext |= set(dir(t))
            for d in s.stdmods: s.ext |= d
        top = f; mine = [f]
        while top.parent is not None: top = top.parent; mine.append(top)
        uses3 = f.module in third or any(g in third for g in mine)
        if not uses3 and top.cls is not None: uses3 = any(g in third and g.cls is top.cls and g.short.split('.')[-1] == f.short.split('.')[-1] for g in third if isinstance(g, Func))
        ok = reachable(cfg_of(f).entry); c = s.clsof(f); me = s.me(f)
        for n in cfg_of(f).nodes:
            if n not in ok: continue
            for x in node_walk(n):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in s.lib and x.func.attr not in s.ext and x.func.attr not in s.nonself:
                    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords) or s.misfit(x, f) is not None: continue
                    if isinstance(s.p.resolve(x.func.value, f), (Module, Cls)): continue
                    gs = s.lib[x.func.attr]
                    if any(g.node.decorator_list or g.is_static or g.is_property for g in gs): continue
                    bad = True; kws = {k.arg for k in x.keywords}
                    for g in gs:
                        ps, req, kwreq, kwo, va, kw = s.sig(g, True)
                        miss = [r for r in req if r not in ps[:len(x.args)] and r not in kws] + [k for k in kwreq if k not in kws]
                        if not (len(x.args) > len(ps) and not va or kws - set(ps) - kwo and not kw or miss or set(ps[:len(x.args)]) & kws): bad = False
                    yield x, x.func.attr, f'no {x.func.attr} of the library takes these arguments' if bad else ''
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and not uses3:
                    if isinstance(x.value, ast.Name) and x.value.id == me and c is not None: continue
                    b = x
                    while isinstance(b, ast.Attribute): b = b.value
                    if isinstance(b, ast.Name) and not s.p.is_local(b.id, f) and (b.id in f.module.imports): continue
                    if isinstance(b, ast.Name) and any(b.id in s.p.local_imports(g) for g in mine): continue
                    if s.certain(x.value, f): continue
                    g = s.guarded(x)
                    yield x, ast.unparse(x)[:60], f'reads {ast.unparse(x)[:60]}, but nothing has an attribute {x.attr}' if x.attr not in uni and not g else ''

    def guarded(s, x):
        """inside the body of a try that catches AttributeError"""
        y = x
        while getattr(y, '_parent', None) is not None:
            q = y._parent
            if isinstance(q, ast.Try) and y in q.body and any(h.type is None or any(isinstance(z, ast.Name) and z.id in ('AttributeError', 'Exception') for z in ast.walk(h.type)) for h in q.handlers): return True
            if isinstance(q, (ast.FunctionDef, ast.ClassDef)): return False
            y = q
        return False

    def sig(s, g, bound):
        a = g.node.args; allp = [x.arg for x in a.posonlyargs + a.args]; ps = allp[1:] if bound else allp
        req = [x for x in (allp[:len(allp)-len(a.defaults)] if a.defaults else allp) if x in ps]
        return ps, req, [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None], {k.arg for k in a.kwonlyargs}, a.vararg is not None, a.kwarg is not None

    def misfit(s, x, f):
        """None = target not known; '' = fits; else what is wrong"""
        if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords): return None
        if isinstance(x.func, (ast.Name, ast.Attribute)) and s.is_rebound(x.func, f): return None
        if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and s.is_rebound(x.func.value, f): return None
        ts = [t for t in s.p.callees(x, f, cha=False) if isinstance(t, (Func, Cls))]
        if not ts: return None
        probs = []
        for t in ts:
            if isinstance(t, Cls):
                g = s.p.find_method(t, '__init__') or s.p.find_method(t, '__new__')
                if g is None or any(not isinstance(b, Cls) and b != ('ext', 'builtins.object') for k in s.p.mro(t) for b in k.bases) and s.p.find_method(t, '__init__') is None: return None
                bound = True
            else:
                g = t
                dn = [d for d in g.node.decorator_list if not (isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod'))]
                if dn: return None
                isclsm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in g.node.decorator_list)
                bound = g.cls is not None and not g.is_static and isinstance(x.func, ast.Attribute)
                if bound and not isclsm and isinstance(s.p.resolve(x.func.value, f), Cls): bound = False
            ps, req, kwreq, kwo, va, kw = s.sig(g, bound); kws = {k.arg for k in x.keywords}
            miss = [r for r in req if r not in ps[:len(x.args)] and r not in kws] + [k for k in kwreq if k not in kws]
            if len(x.args) > len(ps) and not va: probs.append(f'{g.qual} takes {len(ps)} positional arguments, not {len(x.args)}')
            elif kws - set(ps) - kwo and not kw: probs.append(f'{g.qual} has no parameter {", ".join(sorted(kws - set(ps) - kwo))}')
            elif miss: probs.append(f'{g.qual} is not given {", ".join(miss)}')
            elif set(ps[:len(x.args)]) & kws: probs.append(f'{g.qual} is given {", ".join(sorted(set(ps[:len(x.args)]) & kws))} twice')
        return '; '.join(probs) if len(probs) == len(ts) else ''

    def calls(s, f):
        ok = reachable(cfg_of(f).entry)
        for n in cfg_of(f).nodes:
            if n not in ok: continue
            for x in node_walk(n):
                if isinstance(x, ast.Call):
                    m = s.misfit(x, f)
                    if m is not None: yield x, m

    def rets(s, g, depth=0):
        """lengths of the values returned: ints, 'constant', None, '?'"""
        c = cfg_of(g); ok = reachable(c.entry); out = set()
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(g.node)): return {'?'}

        def val(v, d=0):
            if v is None or isinstance(v, ast.Constant) and v.value is None: return {None}
            if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts): return {len(v.elts)}
            if isinstance(v, ast.IfExp): return val(v.body, d) | val(v.orelse, d)
            if isinstance(v, ast.Constant): return {len(v.value)} if isinstance(v.value, (str, bytes)) else {'constant'}
            if isinstance(v, ast.Name) and d < 4 and v.id in s.p.locals_of(g) and v.id not in g.allparams:
                ds = defs_of(g, v.id)
                if ds and all(isinstance(q, (ast.Tuple, ast.Constant)) for q in ds) and not any(isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name) and q.target.id == v.id for q in own_nodes(g.node)):
                    return set().union(*(val(q, d+1) for q in ds)) - {None}
            if isinstance(v, ast.Call) and d < 4:
                ts = [t for t in s.p.callees(v, g, cha=False) if isinstance(t, Func)]
                if len(ts) == 1 and ts[0] is not g and depth < 4: return s.rets(ts[0], depth+1)
            return {'?'}
        for n in c.nodes:
            if n in ok and n.kind == 'return': out |= val(n.ast.value)
        return out

    def unpacks(s, f):
        ok = reachable(cfg_of(f).entry)
        for n in cfg_of(f).nodes:
            if n not in ok or not isinstance(n.ast, ast.Assign): continue
            v = n.ast.value
            for t in n.ast.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    k = len(t.elts)
                    if isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in v.elts):
                        yield n.ast, 'the tuple', '' if len(v.elts) == k else f'{len(v.elts)} values for {k} names'
                    elif isinstance(v, ast.Call):
                        gs = [g for g in s.p.callees(v, f, cha=False) if isinstance(g, Func)]
                        for g in gs:
                            rs = s.rets(g); bad = sorted({str(q) for q in rs if q not in ('?', None) and q != k})
                            if rs - {'?', None}: yield n.ast, g.qual, f'returns {", ".join(bad)} for {k} names' if bad else ''


class Outside:
    """what the Python library itself offers: attributes of its modules, parameters of its functions and of built-in methods"""
    # methods of text, list, dict, set and file objects: (least, most) positional arguments over all built-in types that have them
    def __init__(s, p):
        s.p = p; s.mods = {}; s.sigs = {}
        s.lib = {n for m in p.modules.values() for c in m.classes.values() for n in c.methods}
        s.meth = {}
        import io
        for t in (str, bytes, list, dict, set, tuple, frozenset, bytearray, io.TextIOWrapper, io.BufferedReader, re.Match, re.Pattern):
            for n in dir(t):
                if n.startswith('_'): continue
                try: sg = inspect.signature(getattr(t, n))
                except (ValueError, TypeError): s.meth.setdefault(n, []).append(None); continue
                s.meth.setdefault(n, []).append(sg)
        for n in list(s.meth):
            if n in DOCUMENTED: s.meth[n] = [q for q in s.meth[n] if q is not None] + [DOCUMENTED[n]]
        s.used = set()                   # attributes of whatever kind that something in the library sets (they may be anything)
        for m in p.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store): s.used.add(x.attr)
        s.others = set()                 # methods of classes in modules that the library imports: they take what they take
        for m in p.modules.values():
            for own, imps in [(m, m.imports)] + [(f, p.local_imports(f)) for f in m.allfuncs]:
                for d in imps.values():
                    mod = s.module(d)
                    if mod is None: continue
                    for v in list(vars(mod).values()) + [mod]:
                        if isinstance(v, (type, types.ModuleType)): s.others |= {n for n in dir(v)}
        s.third = {d.split('.')[0] for m in p.modules.values() for d in m.imports.values()}

    def module(s, d):
        """the module object of a dotted name of Python's own library (or None)"""
        parts = d.split('.')
        if parts[0] not in sys.stdlib_module_names or parts[0] in ('antigravity', 'this', 'idlelib'): return None
        if d not in s.mods:
            mod = None
            for k in range(len(parts), 0, -1):
                try: mod = importlib.import_module('.'.join(parts[:k])); break
                except ImportError: continue
            for q in parts[k:]:
                if mod is None: break
                mod = getattr(mod, q, None)
                if not isinstance(mod, types.ModuleType): mod = None
            s.mods[d] = mod
        return s.mods[d]

    def thing(s, d):
        """(object, known) of a dotted name"""
        if d.startswith('builtins.'): return getattr(builtins, d[9:], None), hasattr(builtins, d[9:])
        parts = d.split('.')
        for k in range(len(parts), 0, -1):
            m = s.module('.'.join(parts[:k]))
            if m is None: continue
            o = m
            for q in parts[k:]:
                if isinstance(o, types.ModuleType):
                    try: importlib.import_module(f'{o.__name__}.{q}')
                    except Exception: pass
                if not hasattr(o, q): return None, isinstance(o, (types.ModuleType, type))
                o = getattr(o, q)
            return o, True
        return None, False

    def misfit(s, sg, x, skip):
        args = [None] * (len(x.args) + skip)
        try: sg.bind(*args, **{k.arg: None for k in x.keywords})
        except TypeError as e: return str(e)
        return ''

    def uses(s, f, F):
        """(node, kind, what is wrong or '')"""
        ok = reachable(cfg_of(f).entry)
        for n in cfg_of(f).nodes:
            if n not in ok: continue
            for x in node_walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    b = x.value
                    while isinstance(b, ast.Attribute): b = b.value
                    if not isinstance(b, ast.Name) or F.is_rebound(b, f): continue
                    h = s.p.resolve(x.value, f)
                    if isinstance(h, tuple) and h[0] == 'ext' and h[1].split('.')[0] in sys.stdlib_module_names:
                        o, known = s.thing(h[1])
                        if isinstance(o, types.ModuleType):
                            o2, known2 = s.thing(h[1] + '.' + x.attr)
                            yield x, 'attribute', f'reads {ast.unparse(x)}, which {h[1]} does not have' if known2 and o2 is None and not hasattr(o, x.attr) and not F.guarded(x) and not platform(x) else ''
                if isinstance(x, ast.Call) and not any(isinstance(a, ast.Starred) for a in x.args) and not any(k.arg is None for k in x.keywords):
                    if isinstance(x.func, (ast.Name, ast.Attribute)):
                        b = x.func
                        while isinstance(b, ast.Attribute): b = b.value
                        h = s.p.resolve(x.func, f) if isinstance(b, ast.Name) and not F.is_rebound(b, f) and not (isinstance(x.func, ast.Name) and s.p.is_local(x.func.id, f)) else None
                        if h is None and isinstance(x.func, ast.Name) and x.func.id in vars(builtins) and not s.p.is_local(x.func.id, f) and x.func.id not in f.module.globals: h = ('ext', 'builtins.' + x.func.id)
                        if isinstance(h, tuple) and h[0] == 'ext':
                            o, known = s.thing(h[1])
                            if o is None or not callable(o): continue
                            try: sg = inspect.signature(o)
                            except (ValueError, TypeError): sg = DOCUMENTED.get(h[1])
                            if isinstance(o, type) and h[1] not in DOCUMENTED and not isinstance(inspect.getattr_static(o, '__init__', None), types.FunctionType): sg = None
                            if h[1] in LOGGING and any(k.arg not in ('exc_info', 'stack_info', 'stacklevel', 'extra') for k in x.keywords):
                                yield x, 'call', f'{h[1]} has no parameter {[k.arg for k in x.keywords][0]}'; continue
                            if sg is None: continue
                            m = s.misfit(sg, x, 0)
                            yield x, 'call', f'{h[1]}: {m}' if m else ''; continue
                    if isinstance(x.func, ast.Attribute) and x.func.attr in s.meth:
                        a = x.func.attr
                        if a in s.used or s.p.resolve(x.func, f) is not None and not isinstance(x.func.value, ast.Constant): continue
                        if any(isinstance(c, (Func, Cls)) for c in s.p.callees(x, f, cha=False)): continue
                        if a in s.lib and any(fits(F, g, x) for m in s.p.modules.values() for c in m.classes.values() for n2, g in c.methods.items() if n2 == a): continue
                        sgs = s.meth[a]
                        if any(q is None for q in sgs): continue
                        if a in s.others - set(s.meth): continue
                        if a in WIDE: continue
                        ms = [s.misfit(q, x, 1) for q in sgs]
                        yield x, 'call', f'no {a} of a built-in type takes these arguments ({ms[0]})' if all(ms) else ''


def fits(F, g, x):
    if g.node.decorator_list or g.is_static: return True
    ps, req, kwreq, kwo, va, kw = F.sig(g, True); kws = {k.arg for k in x.keywords}
    miss = [r for r in req if r not in ps[:len(x.args)] and r not in kws] + [k for k in kwreq if k not in kws]
    return not (len(x.args) > len(ps) and not va or kws - set(ps) - kwo and not kw or miss or set(ps[:len(x.args)]) & kws)


def platform(x):
    """under a test of the operating system or Python version"""
    return any(isinstance(a, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and (y.value.id, y.attr) in (('sys', 'platform'), ('os', 'name'), ('sys', 'version_info'), ('platform', 'system')) for y in ast.walk(a.test)) for a in ancestors(x))


def _sig(text): 
    ns = {}; exec(f'def f({text}): pass', ns)
    return inspect.signature(ns['f'])


LOGGING = {'logging.' + n for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log')}
# documented parameters of what inspect cannot tell
DOCUMENTED = {n: _sig(t) for n, t in {
    'builtins.int': 'x=0, /, base=10', 'builtins.str': 'object="", encoding="utf-8", errors="strict"', 'builtins.list': 'x=(), /', 'builtins.tuple': 'x=(), /', 'builtins.set': 'x=(), /',
    'builtins.frozenset': 'x=(), /', 'builtins.float': 'x=0, /', 'builtins.bool': 'x=0, /', 'builtins.range': 'a, b=0, c=1, /', 'builtins.min': 'a, /, *b, key=None, default=None',
    'builtins.max': 'a, /, *b, key=None, default=None', 'builtins.enumerate': 'iterable, start=0', 'builtins.reversed': 'a, /', 'builtins.slice': 'a, b=None, c=None, /',
    'builtins.zip': '*a, strict=False', 'builtins.map': 'f, a, /, *b', 'builtins.filter': 'f, a, /', 'builtins.iter': 'a, b=None, /', 'builtins.next': 'a, b=None, /',
    'builtins.getattr': 'a, b, c=None, /', 'builtins.dir': 'a=None, /', 'builtins.vars': 'a=None, /',
    'get': 's, k, d=None, /', 'pop': 's, k=None, d=None, /', 'update': 's, *a, **k', 'startswith': 's, a, b=None, c=None, /', 'endswith': 's, a, b=None, c=None, /', 'find': 's, a, b=None, c=None, /',
    'rfind': 's, a, b=None, c=None, /', 'index': 's, a, b=None, c=None, /', 'rindex': 's, a, b=None, c=None, /', 'count': 's, a, b=None, c=None, /', 'format': 's, *a, **k', 'sort': 's, *, key=None, reverse=False',
    'group': 's, *a', 'union': 's, *a', 'intersection': 's, *a', 'difference': 's, *a', 'start': 's, a=0, /', 'end': 's, a=0, /', 'span': 's, a=0, /', 'maketrans': 's, a, b=None, c=None, /',
    'extend': 's, a, /', 'fromkeys': 's, a, b=None, /', 'intersection_update': 's, *a', 'difference_update': 's, *a', 'expandtabs': 's, tabsize=8', 'read': 's, a=-1, /', 'write': 's, a, /', 'readline': 's, a=-1, /',
    }.items()}
# names that objects of the outside world often have with other parameters
WIDE = {'close', 'open', 'seek', 'flush', 'read', 'write', 'readline', 'readlines', 'search', 'match', 'sub', 'copy', 'update', 'format', 'count', 'index', 'find', 'start', 'end', 'get', 'pop', 'clear', 'name', 'mode'}


class Bodies:
    """the code of modules and class bodies: stands in for a function where names are looked up"""
    parent = None; allparams = params = (); cls = None; nested = (); is_static = True
    def __init__(s, m): s.module = m; s.name = s.short = s.qual = '<module>'; s.node = m.tree


def bodies(p):
    """(module, name node, defined?) for names read by module and class bodies, defaults, decorators and annotations"""
    for m in p.modules.values():
        known = set(m.globals) | set(m.classes) | set(m.funcs) | set(m.imports) | B
        star = False
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names): star = True
            if isinstance(x, ast.Global): known |= set(x.names)
        lazy = any(isinstance(x, ast.ImportFrom) and x.module == '__future__' and any(a.name == 'annotations' for a in x.names) for x in m.tree.body)
        if star: continue
        def stored(sts):
            out = set()
            for st in sts:
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
                    if isinstance(x, (ast.Import, ast.ImportFrom)): out |= {(a.asname or a.name).split('.')[0] for a in x.names}
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)): out.add(x.name)
                    if isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
            return out
        known |= stored([st for st in m.tree.body if not isinstance(st, (ast.FunctionDef, ast.ClassDef))])
        found = []
        def go(x, names):
            if isinstance(x, ast.If) and '__main__' in ast.unparse(x.test): return
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Name): return
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for y in x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d is not None]: go(y, names)
                if not lazy:
                    for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs:
                        if a.annotation is not None: go(a.annotation, names)
                    if x.returns is not None: go(x.returns, names)
                return
            if isinstance(x, ast.Lambda): return
            if isinstance(x, ast.ClassDef):
                for y in x.decorator_list + x.bases + [k.value for k in x.keywords]: go(y, names)
                inner = names | stored([st for st in x.body if not isinstance(st, (ast.FunctionDef, ast.ClassDef))]) | {st.name for st in x.body if isinstance(st, (ast.FunctionDef, ast.ClassDef))}
                for y in x.body: go(y, inner)
                return
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                names = names | {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): found.append((x, x.id in names))
            for y in ast.iter_child_nodes(x): go(y, names)
        for st in m.tree.body: go(st, known)
        for x, okk in found: yield m, x, okk


def lengths(p, f, F, K):
    """(node, what is wrong or ''): how many parts values have that are taken apart, where the expression itself tells"""
    ok = reachable(cfg_of(f).entry)

    def parts(e, d=0):
        """(least, most) number of parts of e, or None"""
        if isinstance(e, (ast.Tuple, ast.List)) and not any(isinstance(z, ast.Starred) for z in e.elts): return len(e.elts), len(e.elts)
        if isinstance(e, ast.Call):
            n = callname(e); r = p.resolve(e.func, f) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(r, tuple) and r[0] == 'ext' and r[1] in ('os.path.split', 'os.path.splitext', 'os.path.splitdrive', 'builtins.divmod'): return 2, 2
            if isinstance(e.func, ast.Attribute) and n in ('partition', 'rpartition') and len(e.args) == 1: return 3, 3
            if isinstance(e.func, ast.Attribute) and n in ('split', 'rsplit') and len(e.args) == 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, int) and e.args[1].value >= 0: return 1, e.args[1].value + 1
        return None

    def element(it, d=0):
        """(least, most) number of parts of what going through it gives"""
        if isinstance(it, ast.Call):
            n = callname(it)
            if isinstance(it.func, ast.Name) and not p.is_local(n, f):
                if n == 'enumerate': return 2, 2
                if n == 'zip' and not any(isinstance(z, ast.Starred) for z in it.args): return len(it.args), len(it.args)
                if n in ('sorted', 'reversed', 'list', 'set', 'tuple', 'iter') and it.args: return element(it.args[0], d+1)
            if isinstance(it.func, ast.Attribute) and n == 'items' and not it.args and not any(isinstance(c, Func) for c in p.callees(it, f, cha=False)): return 2, 2
            return None
        if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
            ps = [parts(z) for z in it.elts]
            if ps and all(q is not None for q in ps): return min(a for a, b in ps), max(b for a, b in ps), ps
            return None
        if isinstance(it, (ast.ListComp, ast.GeneratorExp, ast.SetComp)): return parts(it.elt)
        if isinstance(it, ast.Name) and d < 3 and it.id in p.locals_of(f) and it.id not in f.allparams:
            ps = []
            for x in own_nodes(f.node):
                if not (isinstance(x, ast.Name) and x.id == it.id): continue
                q = x._parent
                if isinstance(x.ctx, ast.Store):
                    if isinstance(q, ast.Assign) and len(q.targets) == 1 and q.targets[0] is x:
                        if isinstance(q.value, (ast.List, ast.Tuple, ast.Set)) and not q.value.elts: continue
                        v = element(q.value, d+1)
                    elif isinstance(q, ast.Assign) or not isinstance(q, (ast.Tuple,)): return None
                    else:
                        a = q._parent
                        if not (isinstance(a, ast.Assign) and isinstance(a.value, (ast.Tuple, ast.List)) and len(a.value.elts) == len(q.elts)): return None
                        v = a.value.elts[q.elts.index(x)]
                        if isinstance(v, (ast.List, ast.Tuple)) and not v.elts: continue
                        v = element(v, d+1)
                    if v is None: return None
                    ps.append(v[:2])
                elif isinstance(q, ast.Attribute) and isinstance(q._parent, ast.Call) and q._parent.func is q:
                    if q.attr in ('append', 'add'):
                        v = parts(q._parent.args[0]) if q._parent.args else None
                        if v is None: return None
                        ps.append(v)
                    elif q.attr not in ('sort', 'reverse', 'clear', 'pop', 'remove', 'index', 'count'): return None
                elif isinstance(q, (ast.For, ast.comprehension)) and q.iter is x: pass
                elif isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('len', 'sorted', 'reversed', 'enumerate', 'vPrint', 'dPrint', 'print', 'list', 'set', 'str', 'repr'): pass
                elif isinstance(q, (ast.Return, ast.If, ast.Compare, ast.UnaryOp, ast.BoolOp, ast.IfExp)): pass
                elif isinstance(q, ast.Subscript) and q.value is x and isinstance(q.ctx, ast.Load): pass
                else: return None
            for g in f.nested.values():
                if any(isinstance(y, ast.Name) and y.id == it.id for y in ast.walk(g.node)): return None
            return (min(a for a, b in ps), max(b for a, b in ps), ps) if ps else None
        return None

    def fits(t, q):
        """what is wrong with taking q apart into target t"""
        if q is None or not isinstance(t, (ast.Tuple, ast.List)): return None
        k = len(t.elts)
        if any(isinstance(z, ast.Starred) for z in t.elts): return '' if q[1] >= k - 1 else f'{q[1]} values for at least {k-1} names'
        for a, b, *_ in (q[2] if len(q) > 2 else [q]):
            if not a <= k <= b: return f'{a if a == b else f"at most {b}"} values for {k} names'
        return ''

    for n in cfg_of(f).nodes:
        if n not in ok: continue
        if n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Call):
            for t in n.ast.targets:
                m = fits(t, parts(n.ast.value))
                if m is not None: yield n.ast, m
        if n.kind == 'foriter' and isinstance(n.ast, ast.For) or n.kind == 'forhead':
            m = fits(n.ast.target, element(n.ast.iter))
            if m is not None: yield n.ast.iter, m
        for x in node_walk(n):
            if isinstance(x, ast.comprehension):
                m = fits(x.target, element(x.iter))
                if m is not None: yield x.iter, m
            # an index beyond a returned tuple
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int) and isinstance(x.value, ast.Call):
                q = parts(x.value)
                if q is None:
                    gs = [g for g in p.callees(x.value, f, cha=False) if isinstance(g, Func)]
                    rs = set().union(*(F.rets(g) for g in gs)) if gs else set()
                    if rs and all(isinstance(z, int) for z in rs) and not any(K.returns(g) != {tuple} for g in gs): q = (min(rs), max(rs))
                if q: yield x, '' if -q[1] <= x.slice.value < q[1] else f'takes part {x.slice.value} of {q[1]} in {ast.unparse(x)[:60]}'
        # the result of a function that never returns one
        if n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Call) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.ast.targets):
            k = K.of(n.ast.value, f)
            if k: yield n.ast, '' if any(hasattr(t, '__iter__') or isinstance(t, Cls) for t in k) else f'takes apart {ast.unparse(n.ast.value)[:60]}, which is always {k}'


def indirect(p, f, F):
    """calls through a local variable that can only be these functions, functools.partial, starred literal arguments"""
    ok = reachable(cfg_of(f).entry)
    for n in cfg_of(f).nodes:
        if n not in ok: continue
        for x in node_walk(n):
            if not isinstance(x, ast.Call): continue
            if len(x.args) == 1 and isinstance(x.args[0], ast.Starred) and isinstance(x.args[0].value, (ast.Tuple, ast.List)) and not any(isinstance(z, ast.Starred) for z in x.args[0].value.elts):
                y = ast.copy_location(ast.Call(x.func, x.args[0].value.elts, x.keywords), x); y._parent = x._parent
                m = F.misfit(y, f)
                if m is not None: yield x, m
            if isinstance(x.func, ast.Name) and x.func.id in p.locals_of(f) and x.func.id not in f.allparams and x.func.id not in f.nested and not any(isinstance(a, ast.Starred) for a in x.args) and not any(k.arg is None for k in x.keywords):
                ds = defs_of(f, x.func.id); st = [y for y in own_nodes(f.node) if isinstance(y, ast.Name) and y.id == x.func.id and isinstance(y.ctx, ast.Store)]
                if not ds or len(ds) != len(st) or not all(isinstance(y._parent, ast.Assign) and y in y._parent.targets for y in st): continue
                cs = []
                for d in ds: cs += [d.body, d.orelse] if isinstance(d, ast.IfExp) else [d]
                ms = []
                for d in cs:
                    if not isinstance(d, (ast.Name, ast.Attribute)) or not isinstance(p.resolve(d, f), (Func, Cls)) and not (isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == F.me(f)): ms = None; break
                    y = ast.copy_location(ast.Call(d, x.args, x.keywords), x); y._parent = x._parent
                    ms.append(F.misfit(y, f))
                if ms and all(m is not None for m in ms): yield x, '; '.join(sorted({m for m in ms if m}))
            r = p.resolve(x.func, f) if isinstance(x.func, (ast.Name, ast.Attribute)) else None
            if r == ('ext', 'functools.partial') and x.args and isinstance(x.args[0], (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in x.args):
                g = p.resolve(x.args[0], f)
                if isinstance(g, Func) and g.cls is None and not g.node.decorator_list:
                    ps, req, kwreq, kwo, va, kw = F.sig(g, False)
                    bad = len(x.args) - 1 > len(ps) and not va or not kw and {k.arg for k in x.keywords if k.arg} - set(ps) - kwo
                    yield x, f'{g.qual} does not take what partial gives it' if bad else ''


def decide(p, r):
    N = Names(p); F = Fit(p); uni, third = F.universe(); O = Outside(p); M = Misuse(p, F.guarded, F.attrs)
    for m, x, okk in bodies(p):
        r.count('names read')
        if not okk: r.find(f'name:{m.rel}::{x.id}', f'{m.rel}:{x.lineno}', f'{m.name} reads {x.id}, which is not defined anywhere')
    for f in p.functions():
        r.count('functions')
        for x, bad in N.undefined(f):
            r.count('names read')
            if bad: r.find(f'name:{f.module.rel}:{f.short}:{x.id}', f.where(x), f'{f.short} reads {x.id}, which is not defined anywhere')
        for x in N.unassigned(f):
            r.find(f'unassigned:{f.module.rel}:{f.short}:{x.id}', f.where(x), f'{f.short} reads {x.id}, which no assignment can have set by then')
        for x, c, ok in F.reads(f):
            r.count('attributes read')
            if not ok: r.find(f'attribute:{f.module.rel}:{f.short}:{ast.unparse(x)}', f.where(x), f'{f.short} reads {ast.unparse(x)}, which {c} never has')
        for nm, d, ok in F.imports(f, p.local_imports(f)):
            r.count('imports')
            if not ok: r.find(f'import:{f.module.rel}:{f.short}:{d}', f.where(), f'{f.short} imports {d}, which does not exist')
        for x, m in F.calls(f):
            r.count('calls')
            if m: r.find(f'call:{f.module.rel}:{f.short}:{ast.unparse(x.func)}', f.where(x), f'{f.short}: {m}')
        for x, k, m in F.duck(f, uni, third):
            r.count('uses of objects of unknown class')
            if m: r.find(f'unknown:{f.module.rel}:{f.short}:{k}', f.where(x), f'{f.short}: {m}')
        for x, k, m in O.uses(f, F):
            r.count("uses of Python's own library")
            if m: r.find(f'{k}:{f.module.rel}:{f.short}:{ast.unparse(x.func if isinstance(x, ast.Call) else x)[:60]}', f.where(x), f'{f.short}: {m}')
        for x, m in M.uses(f):
            r.count('uses of values of known kind')
            if m: r.find(f'kind:{f.module.rel}:{f.short}:{ast.unparse(x)[:60]}', f.where(x), f'{f.short} {m}')
        for x, m in lengths(p, f, F, M.K):
            r.count('unpackings')
            if m: r.find(f'unpack:{f.module.rel}:{f.short}:{ast.unparse(x)[:50]}', f.where(x), f'{f.short}: {m}')
        for x, m in indirect(p, f, F):
            r.count('calls')
            if m: r.find(f'call:{f.module.rel}:{f.short}:{ast.unparse(x.func)}', f.where(x), f'{f.short}: {m}')
        for x, g, m in F.unpacks(f):
            r.count('unpackings')
            if m: r.find(f'unpack:{f.module.rel}:{f.short}:{g}', f.where(x), f'{f.short}: {g} {m}')
    for m in p.modules.values():
        for nm, d in m.imports.items():
            if d.split('.')[0] != 'BibleOrgSys': continue
            r.count('imports')
            if p.resolve_dotted(d) is None: r.find(f'import:{m.rel}::{d}', f'{m.rel}:1', f'{m.rel} imports {d}, which does not exist')


def run(p, r, tier):
    decide(p, r)
    r.floor('functions', 1200); r.floor('names read', 60000); r.floor('attributes read', 12000); r.floor('calls', 5000); r.floor('unpackings', 150); r.floor('imports', 500)


class _R:
    def __init__(s): s.k = {}; s.counts = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, n, k=1): s.counts[n] = s.counts.get(n, 0)+k


def _st(src, want):
    def t():
        p = Project.from_sources({'BibleOrgSys/x.py': src}); r = _R(); decide(p, r)
        got = {k.split(':')[0] for k in r.k}
        return got == set(want)
    return t


SELFTESTS = [
    ('clean', _st("import os\nA=1\nclass K:\n  __slots__=('a',)\n  def __init__(self,a,*,b=2): self.a=a; self.__h()\n  def __h(self): return [x for x in os.listdir(self.a) if x]\ndef f(q):\n  k=K(q,b=3)\n  for i in (1,2): z=i\n  x,y=g()\n  return k.a,z,A,x,y\ndef g():\n  if A: return 1,2\n  return None\ndef h():\n  if A:\n    NEVER_HAPPENS\n", [])),
    ('module body', _st("A = BB\ndef f(a: Xx = Yy): pass\n", ['name'])),
    ('class body', _st("class K:\n  A = 1\n  B = A + 1\n  C = D\n", ['name'])),
    ('attribute of os', _st("import os\ndef f(a): return os.pathX.join(a)\n", ['attribute'])),
    ('arguments of os', _st("import os\ndef f(a): return os.path.isdir(a, 1), os.path.join(a, 'b', 'c')\n", ['call'])),
    ('arguments of logging', _st("import logging\ndef f(a): logging.error('x', end='')\n", ['call'])),
    ('arguments of a builtin', _st("def f(a): return isinstance(a)\n", ['call'])),
    ('arguments of a method', _st("def f(a): a.b.append(1, 2)\n", ['call'])),
    ('method that the library has too', _st("class K:\n  def append(self, a, b): pass\ndef f(a): a.b.append(1, 2)\n", [])),
    ('methods', _st("def f(a): return a.b.split(',', 1), a.split(), a.strip('x'), a.join(a), a.replace('a','b',1), sorted(a, key=len), open(a, 'rt', encoding='u'), int(a, 16), a.encode(), a.sort(key=len), a.items(), a.pop(), a.get(1, 2), max(a, key=len), print(a, end='')\n", [])),
    ('list used as a set', _st("class K:\n  def __init__(self): self.a = []\n  def f(self, x): self.a.add(x)\n", ['kind'])),
    ('kind by the assignment that reaches', _st("def f(a):\n  b = [1]\n  b = b + (1,)\n  return b\n", ['kind'])),
    ('kinds that may fit', _st("class K:\n  def __init__(self): self.a = None\n  def g(self, x): self.a = x\n  def f(self, x):\n    b = None\n    for y in x: b = [y]\n    b.append(1); self.a.foo()\n    if isinstance(b, str): b.strip()\n    return 'a' + str(1), 'a' * 3, 1 + 2.0, [1] + [2], '%s' % 1\n", [])),
    ('property called', _st("class K:\n  @property\n  def a(self): return 'x'\n  def f(self): return self.a()\n", ['kind'])),
    ('parts', _st("def f(a):\n  b, c = a.partition('x')\n", ['unpack'])),
    ('parts of a loop', _st("def f(a):\n  for b, c, d in enumerate(a): print(b)\n  for b, c in zip(a, a): print(b)\n  x, y = a.split(':', 1)\n", ['unpack'])),
    ('through a variable', _st("def g(a, b): pass\ndef h(a): pass\ndef f(a):\n  q = g\n  q(a)\n  r = h if a else g\n", ['call'])),
    ('except name afterwards', _st("def f(a):\n  try: a += 1\n  except TypeError as e: pass\n  return e\n", ['unassigned'])),
    ('counter of the module', _st("N = 0\ndef f(a):\n  N += 1\n", ['unassigned'])),
    ('undefined name', _st("def f(a):\n  if a: return aa\n", ['name'])),
    ('unassigned', _st("def f(a):\n  if a: print(b)\n  b=1\n", ['unassigned'])),
    ('attribute', _st("class K:\n  def __init__(self): self.a=1\n  def f(self): return self.b\n", ['attribute'])),
    ('attribute of a base', _st("class B:\n  def g(self): self.b=1\nclass K(B):\n  def f(self): return self.b\n", [])),
    ('mangled', _st("class B:\n  def g(self): self.__b=1\nclass K(B):\n  def f(self): return self.__b\n", ['attribute'])),
    ('typed local', _st("class K:\n  def __init__(self): self.a=1\ndef f():\n  k=K()\n  return k.b\n", ['attribute', 'kind'])),
    ('optional', _st("class K:\n  def g(self):\n    try: self.b\n    except AttributeError: return\n  def f(self): return self.b\n", [])),
    ('arity', _st("def g(a,b=1): pass\ndef f():\n  g(1,2,3)\n", ['call'])),
    ('keyword', _st("class K:\n  def __init__(self,a): pass\ndef f():\n  return K(b=3)\n", ['call'])),
    ('missing', _st("class K:\n  def g(self,a): pass\n  def f(self): self.g()\n", ['call'])),
    ('unpack', _st("def g(a):\n  if a: return 1,2,3\n  return 1,2\ndef f(a):\n  x,y=g(a)\n", ['unpack'])),
    ('duck arity', _st("class K:\n  def getIt(self): return 1\ndef f(k):\n  return k.getIt(2)\n", ['unknown'])),
    ('duck arity ok', _st("class K:\n  def getIt(self): return 1\nclass L:\n  def getIt(self,a): return 1\ndef f(k):\n  return k.getIt(2), k.append(3)\n", [])),
    ('duck attribute', _st("def f(k):\n  return k.getNothingOfTheKind\n", ['unknown'])),
    ('duck guarded', _st("def f(k):\n  try: return k.getNothingOfTheKind\n  except AttributeError: pass\n", [])),
    ('duck third party', _st("import nonesuch\ndef f():\n  k=nonesuch.open()\n  return k.getNothingOfTheKind\n", [])),
    ('import', _st("def f():\n  from BibleOrgSys.x import nix\n  return nix\n", ['import'])),
    ('rebound', _st("class K:\n  def l(self,a): return self\nK=K()\ndef f():\n  return K.l(1)\n", [])),
]
