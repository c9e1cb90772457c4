"""C13: nothing done with one Bible, module or system changes what all the others share.

Shared: lists, dictionaries and sets made at module level or in a class body, default values of parameters, module globals, class
attributes, attributes of modules, the process (working folder, signal handlers, environment, locale ...).
Rule: outside the configuration functions no function
 - changes a shared container in place, under whatever name (variables, attributes, returned references, parameters are followed);
 - gives a module global a value that depends on its arguments, its object or its local data (filling in a constant late is allowed);
 - sets an attribute of a class or of a module, other than the switch for multiprocessing, which is off again on every normal path;
 - changes the process without restoring it on every path, exceptions included;
 - keeps results of a method in functools.cache / lru_cache.
Configuration functions assign module globals from their arguments; they are only called by programs or by each other, and a shared
container that they fill is emptied first, so that calling them again gives the same."""
from common import *
from alias import *

RULE = __doc__
ASSUMPTIONS = ['what is run under the main guard or in a demonstration is a program, not the library']
CONT = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'bytearray'}
PROCESS = {'os.putenv', 'locale.setlocale', 'sys.setrecursionlimit', 'os.umask', 'random.seed', 'socket.setdefaulttimeout', 'os.environ.update',
           'sys.path.append', 'sys.path.insert', 'csv.field_size_limit', 'multiprocessing.set_start_method', 'logging.disable', 'decimal.setcontext',
           'os.nice', 'faulthandler.enable', 'gc.disable', 'sys.setswitchinterval', 'signal.setitimer'}
# shared on purpose: (module, name) -> why
SHARED_ON_PURPOSE = {
    ('BibleOrgSys.Formats.SwordModules', 'SwordSearchFolders'): 'documented: search folders are saved between object instances',
    ('BibleOrgSys.Internals.InternalBible', 'InternalBibleProperties'): 'record for diagnosis, never read by an operation',
}
SWITCHES = {'alreadyMultiprocessing'}


def container(v): return (isinstance(v, ast.Tuple) and any(container(x) for x in v.elts)) or isinstance(v, CONT) or (isinstance(v, ast.Call) and callname(v) in MAKERS | {'copy', 'deepcopy'})


def selfname(f):
    g = f
    while g is not None and g.cls is None: g = g.parent
    return g.params[0] if g is not None and g.params and not g.is_static else None


def owner(f):
    while f is not None and f.cls is None: f = f.parent
    return f.cls if f is not None else None


class Shared:
    def __init__(s, p):
        s.p = p
        s.mods, s.cls = set(), set()
        for m in p.modules.values():
            for n, vs in m.globals.items():
                if any(v is not None and container(v) for v in vs): s.mods.add((m.name, n))
            for c in m.classes.values():
                for st in c.node.body:
                    if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and container(st.value):
                        for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                            if isinstance(t, ast.Name) and t.id != '__slots__': s.cls.add((c.qual, t.id))
        s.names = {n for _, n in s.mods | s.cls}

    def denotes(s, e, f):
        """('module', name) or ('class', name) of the shared container that the expression denotes by itself"""
        p = s.p
        if isinstance(e, ast.Name):
            if e.id in s.names and not local(p, e.id, f):
                r = p.resolve(e, f)
                if isinstance(r, tuple) and r[0] == 'global' and (r[1].name, r[2]) in s.mods: return (r[1].name, r[2])
        elif isinstance(e, ast.Attribute) and e.attr in s.names:
            if isinstance(e.value, ast.Name) and e.value.id in (selfname(f), 'cls'):
                c = owner(f)
                if c is not None:
                    for k in ([c] if e.attr.startswith('__') else p.mro(c)):
                        if (k.qual, e.attr) in s.cls:
                            # an instance attribute of the same name made in the constructor hides it
                            if e.value.id != 'cls' and any(isinstance(n, ast.Attribute) and n.attr == e.attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self'
                                                          for q in p.mro(c) for mm in [q.methods.get('__init__')] if mm is not None for n in own_nodes(mm.node)): return None
                            return (k.qual, e.attr)
                return None
            c = p.resolve(e.value, f) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
            if isinstance(e.value, ast.Attribute) and e.value.attr == '__class__' or (isinstance(e.value, ast.Call) and callname(e.value) == 'type'): c = owner(f)
            if isinstance(c, Cls):
                for k in p.mro(c):
                    if (k.qual, e.attr) in s.cls: return (k.qual, e.attr)
                return None
            r = p.resolve(e, f)
            if isinstance(r, tuple) and r[0] == 'global' and (r[1].name, r[2]) in s.mods: return (r[1].name, r[2])
        return None


def local(p, name, f):
    g = f
    while g is not None:
        if name in p.locals_of(g): return True
        g = g.parent
    return False


def globals_of(f): return {x for n in own_nodes(f.node) if isinstance(n, ast.Global) for x in n.names}


def depends(p, e, f, seen=None):
    """the first name in the expression that comes from the arguments, the object or local data"""
    seen = seen or set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id in globals_of(f): continue
            if n.id in f.allparams: return n.id
            if n.id in p.locals_of(f):
                if any(isinstance(q, ast.comprehension) for q in ancestors(n)) or any(isinstance(q, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for q in ancestors(n)): continue
                if n.id in seen: continue
                seen.add(n.id)
                ds = defs_of(f, n.id)
                imported = any(isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == n.id for a in x.names) for x in own_nodes(f.node))
                if not ds and not imported: return n.id
                for d in ds:
                    r = depends(p, d, f, seen)
                    if r: return r
            elif f.parent is not None and local(p, n.id, f.parent): return n.id
    return None


def name_stores(f, names):
    """(node, value expr or None) of each assignment to one of the names"""
    for n in own_nodes(f.node):
        if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Store):
            q = n._parent
            if isinstance(q, ast.Assign) and n in q.targets: yield n, q.value, q
            elif isinstance(q, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)): yield n, q.value, q
            else:
                while q is not None and not isinstance(q, (ast.Assign, ast.For, ast.withitem)): q = getattr(q, '_parent', None)
                yield n, (q.value if isinstance(q, ast.Assign) else None), q


def decide(p):
    out, counts = [], {'functions': 0, 'shared containers': 0, 'late constants': 0, 'configuration functions': 0, 'switch settings': 0, 'changes of shared containers in configuration': 0}
    S = Shared(p)
    counts['shared containers'] = len(S.mods) + len(S.cls)
    lib = list(p.functions(demo=False))
    counts['functions'] = len(lib)

    # configuration functions
    config = set()
    for f in lib:
        gl = globals_of(f)
        if not gl or f.cls is not None or f.parent is not None: continue
        if any(v is not None and (depends(p, v, f) or control(p, q, f)) for n, v, q in name_stores(f, gl)) or \
           any(isinstance(n, ast.Name) and n.id in gl and isinstance(n.ctx, ast.Load) and S.denotes(n, f) for n in own_nodes(f.node)): config.add(f)
    counts['configuration functions'] = len(config)

    # in-place changes
    def root(e, f): return 0 if S.denotes(e, f) else None
    A = Alias(p, root)
    A.solve(lib, S.names)
    for f in lib:
        if not A.concerned(f, S.names): continue
        hits = {}
        def found(e, g, w): hits[id(e)] = (e, w)
        A.scan(f, found)
        for n in own_nodes(f.node):
            if isinstance(n, ast.AugAssign) and S.denotes_store(n.target, f): hits[id(n)] = (n, 'extended in place')
        for e, w in hits.values():
            t = target_of(e)
            who = S.denotes(base_of(t), f) if t is not None else None
            if who is None and t is not None:
                whos = {S.denotes(base_of(x), g) for x, g in feeds(p, base_of(t), f) if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and g is not None} - {None}
                if whos and whos <= set(SHARED_ON_PURPOSE): who = next(iter(whos))
            if who in SHARED_ON_PURPOSE: continue
            if f in config and who is not None:
                counts['changes of shared containers in configuration'] += 1
                if not emptied(f, t, e): out.append((f'again:{f.short}:{who[1]}', f.where(e), f'{f.qual} adds to the shared {who[1]} without emptying it first: doing it again gives something else'))
                continue
            out.append((f'container:{f.short}:{ast.unparse(e)[:70]}', f.where(e), f'{f.qual} changes a container that all objects share: {ast.unparse(e)[:90]} ({w[:150]})'))

    # default values of parameters
    for f in lib:
        a = f.node.args
        pos = a.posonlyargs + a.args
        ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in ds:
            if container(d):
                counts['mutable defaults'] = counts.get('mutable defaults', 0) + 1
                m = A.param(f, x.arg, 0)
                if m['mut']: out.append((f'default:{f.short}:{x.arg}', f.where(d), f'{f.qual} changes the default value of its parameter {x.arg} in place ({m["mut"][:120]}): the next call starts with it'))
                elif m['ret'] == 0: out.append((f'default:{f.short}:{x.arg}', f.where(d), f'{f.qual} gives out the default value of its parameter {x.arg}, which all calls share'))
                elif kept(f, x.arg): out.append((f'default:{f.short}:{x.arg}', f.where(d), f'{f.qual} keeps the default value of its parameter {x.arg} in its object: all objects share it'))

    # globals, attributes of classes and modules
    for f in lib:
        if f not in config:
            gl = globals_of(f)
            for n, v, q in name_stores(f, gl):
                d = depends(p, v, f) if v is not None else '?'
                if d or isinstance(q, ast.AugAssign): out.append((f'global:{f.short}:{n.id}', f.where(n), f'{f.qual} gives the module global {n.id} a value that depends on {d or "what it was"}: every other object sees it'))
                else: counts['late constants'] += 1
        sw = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id == selfname(f): continue
                r = None
                if isinstance(n.value, ast.Name) and n.value.id == 'cls' and owner(f) is not None and f.params[:1] == ['cls']: r = owner(f)
                elif isinstance(n.value, ast.Attribute) and n.value.attr == '__class__': r = owner(f)
                elif isinstance(n.value, ast.Call) and callname(n.value) == 'type' and len(n.value.args) == 1: r = owner(f)
                elif isinstance(n.value, (ast.Name, ast.Attribute)) and not (isinstance(n.value, ast.Name) and local(p, n.value.id, f) and not imported_here(n.value.id, f)): r = p.resolve(n.value, f)
                if isinstance(r, Module) and n.attr in SWITCHES: sw.setdefault(n.attr, []).append(n); continue
                if isinstance(r, Func) and isinstance(n.value, ast.Name) and r.parent is not None: continue     # a function made anew by each call
                if isinstance(r, (Module, Cls, Func)) or (isinstance(r, tuple) and r[0] == 'ext'):
                    what = r.qual if isinstance(r, (Cls, Func)) else r.name if isinstance(r, Module) else r[1]
                    out.append((f'attribute:{f.short}:{n.attr}', f.where(n), f'{f.qual} sets {n.attr} of {what}, which everything shares'))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args:
                r = p.resolve(n.args[0], f) if isinstance(n.args[0], (ast.Name, ast.Attribute)) else None
                if isinstance(r, (Module, Cls)): out.append((f'attribute:{f.short}:setattr', f.where(n), f'{f.qual} sets an attribute of something that everything shares'))
        for a, ns in sw.items():
            counts['switch settings'] += len(ns)
            if left_on(f, a): out.append((f'switch:{f.short}:{a}', f.where(ns[0]), f'{f.qual} sets {a} and leaves it on along a normal path'))

    # the process
    for f in lib:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                r = p.resolve(n.func, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                x = r[1] if isinstance(r, tuple) and r[0] == 'ext' else None
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'setdefault', 'pop', 'clear', '__setitem__') and namespace(p, n.func.value, f):
                    out.append((f'attribute:{f.short}:{n.func.attr}', f.where(n), f'{f.qual} changes the names of a module: {ast.unparse(n)[:60]}'))
                if isinstance(n.func, ast.Attribute) and n.func.attr in LOGGERS and is_logger(p, n.func.value, f) and not f.module.name.endswith('BibleOrgSysGlobals'):
                    out.append((f'process:{f.short}:{n.func.attr}', f.where(n), f'{f.qual} changes the logging of the whole process: {ast.unparse(n)[:60]}'))
                if x in PROCESS: out.append((f'process:{f.short}:{x}', f.where(n), f'{f.qual} changes the whole process with {x}'))
                if x in ('os.chdir', 'signal.signal', 'os.fchdir') and not unreachable(f, n):
                    counts['process changes'] = counts.get('process changes', 0) + 1
                    if not restored(p, f, n, x): out.append((f'process:{f.short}:{x}', f.where(n), f'{f.qual} changes the whole process with {ast.unparse(n)[:60]} and does not restore it on every path, exceptions included'))
                if x == 'logging.basicConfig' and f not in config and f.name != 'setupLoggingToFile' and not f.module.name.endswith('BibleOrgSysGlobals'):
                    out.append((f'process:{f.short}:{x}', f.where(n), f'{f.qual} configures logging for the whole process'))
            if isinstance(n, (ast.Subscript, ast.Delete)) and isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = p.resolve(n.value, f) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                g = namespace(p, n.value, f)
                if g: out.append((f'attribute:{f.short}:{g}', f.where(n), f'{f.qual} sets a name of a module through {g}: {ast.unparse(n)[:60]}'))
                if r in (('ext', 'os.environ'), ('ext', 'sys.modules'), ('ext', 'sys.path')): out.append((f'process:{f.short}:{r[1]}', f.where(n), f'{f.qual} changes {r[1]} of the whole process'))
        for d in f.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            r = p.resolve(e, f.parent or f) if isinstance(e, (ast.Name, ast.Attribute)) else None
            nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ''
            if nm in ('lru_cache', 'cache') and (f.cls is not None and not f.is_static or reads_state(p, f)):
                out.append((f'cache:{f.short}', f.where(d), f'{f.qual} keeps its results for the whole process though they depend on more than its arguments'))

    out += unprepared(p, lib, config, counts)

    # configuration functions are called by programs only
    for f in lib:
        if '.Apps.' in f.module.name: continue      # programs
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for c in p.callees(n, f, cha=False):
                    if c in config and f not in config and takes(c):
                        out.append((f'configures:{f.short}:{c.name}', f.where(n), f'{f.qual} calls {c.name}, which sets module globals for everything in the process'))
    return out, counts


def unprepared(p, lib, config, counts):
    """module globals that are None (or False) until a function fills them: read only after that on every path"""
    out = []
    lazy = {}   # (module, name) -> functions that fill it
    for f in lib:
        if f in config: continue
        for n, v, q in name_stores(f, globals_of(f)):
            vs = f.module.globals.get(n.id, [])
            if v is None or (isinstance(v, ast.Constant) and v.value is None): continue
            if any(isinstance(x, ast.Constant) and x.value is None for x in vs) or not vs: lazy.setdefault((f.module.name, n.id), set()).add(f)
    counts['late shared helpers'] = len(lazy)
    if not lazy: return out

    def which(e, f):
        if isinstance(e, ast.Name) and (e.id not in p.locals_of(f) or e.id in globals_of(f)):
            r = p.resolve(e, f) if e.id not in globals_of(f) else ('global', f.module, e.id)
            if isinstance(r, tuple) and r[0] == 'global' and (r[1].name, r[2]) in lazy: return (r[1].name, r[2])
        return None

    def fills(n, f, k):
        for x in node_walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and which(x, f) == k and x.id in globals_of(f): return True
            if isinstance(x, ast.Call) and any(c in always[k] for c in p.callees(x, f, cha=False) if isinstance(c, Func)): return True
            if isinstance(x, ast.Call):
                r = p.resolve(x.func, f) if isinstance(x.func, (ast.Name, ast.Attribute)) else None
                if isinstance(r, Cls) and p.find_method(r, '__init__') in always[k]: return True
        return False

    def state(f, k):
        """for every node: can it be reached with the global still None"""
        def tr(n, s): return [False if s and fills(n, f, k) else s]
        def br(n, l, s):
            if not s or n.kind != 'test': return s
            t, l = n.ast, (True if l is True else False if l is False else None)
            if l is None: return s
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t, l = t.operand, not l
            if which(t, f) == k: return None if l else s
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and which(t.left, f) == k and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                isnone = isinstance(t.ops[0], (ast.Is, ast.Eq))
                return None if isnone != l else s
            return s
        return flow(cfg_of(f), [True], tr, br)

    by = {}
    for f in lib:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name):
                k = which(n, f)
                if k: by.setdefault(k, set()).add(f)
    callers = {}
    for f in lib:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for c in p.callees(n, f, cha=False):
                    if isinstance(c, Func): callers.setdefault(c, set()).add(f)
    always = {k: set() for k in lazy}
    for k in lazy:
        done = False
        todo = set(by.get(k, ())) | set(lazy[k])
        while todo:
            f = todo.pop()
            if f in always[k]: continue
            ins = state(f, k)
            if True not in ins.get(cfg_of(f).exit, set()) and ins.get(cfg_of(f).exit):
                always[k].add(f); todo |= callers.get(f, set())
        # needs: functions that read it before it is filled
        needs = {}
        def ready(f):
            c = owner(f)
            while f is not None and f.cls is None: f = f.parent
            if c is None: return False
            i = p.find_method(c, '__init__')
            return f.name not in ('__init__', '__new__') and i is not None and i in always[k]
        def first(f):
            if ready(f): return None
            ins = state(f, k)
            for n in cfg_of(f).nodes:
                if True not in ins.get(n, set()) or fills_only(n): continue
                for x in node_walk(n):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.value, ast.Name) and isinstance(x.value.ctx, ast.Load) and which(x.value, f) == k and not guarded(x, f): return x
                    if isinstance(x, ast.comprehension) and which(x.iter, f) == k and not guarded(x.iter, f): return x.iter
                    if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) and which(y, f) == k for o, y in zip(x.ops, x.comparators)) and not guarded(x, f): return x
                    if isinstance(x, ast.Call) and not fills(n, f, k) and any(c in needs and c is not f for c in p.callees(x, f, cha=False) if isinstance(c, Func)): return x
                if n.kind == 'foriter' and which(n.ast.iter if isinstance(n.ast, ast.For) else n.ast, f) == k: return n.ast.iter if isinstance(n.ast, ast.For) else n.ast
            # nested functions that read it are run after this point or later; they count where they are called
            return None
        def fills_only(n): return False
        def guarded(x, f):
            """within the same expression: G and G.x, G.x if G else y"""
            c = x
            for q in ancestors(x):
                if not isinstance(q, ast.expr): break
                if isinstance(q, ast.BoolOp) and isinstance(q.op, ast.And) and any(which(v, f) == k for v in q.values[:q.values.index(c)] if c in q.values): return True
                if isinstance(q, ast.IfExp) and c is q.body and any(which(v, f) == k for v in ast.walk(q.test)): return True
                c = q
            return False
        todo = set(by.get(k, ()))
        while todo:
            f = todo.pop()
            if f in needs: continue
            x = first(f)
            if x is not None:
                needs[f] = x; todo |= callers.get(f, set())
        counts['readers of late shared helpers'] = counts.get('readers of late shared helpers', 0) + len(by.get(k, ()))
        for f, x in needs.items():
            # reported where the program comes in: not called from inside, or public
            if f.name.startswith('_') and not f.name.endswith('__') and callers.get(f) or f.parent is not None: continue
            out.append((f'unprepared:{f.short}:{k[1]}', f.where(x), f'{f.qual} uses the shared {k[1]} at {ast.unparse(x)[:70]}, which is still None unless some other operation came before'))
    return out


LOGGERS = {'addHandler', 'removeHandler', 'setLevel', 'addFilter'}


def is_logger(p, e, f):
    for x in ([e] if not isinstance(e, ast.Name) else [d for d in defs_of(f, e.id)] + [v for v in f.module.globals.get(e.id, []) if v is not None]):
        if isinstance(x, ast.Call) and callname(x) == 'getLogger': return True
    return False


def namespace(p, e, f):
    """globals(), vars(module), module.__dict__, vars(Class), Class.__dict__"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'globals': return 'globals()'
    x = None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'vars' and e.args: x = e.args[0]
    elif isinstance(e, ast.Attribute) and e.attr == '__dict__': x = e.value
    if isinstance(x, (ast.Name, ast.Attribute)):
        r = p.resolve(x, f)
        if isinstance(r, (Module, Cls)): return ast.unparse(e)
    return None


def takes(c): return bool([q for q in c.allparams if q not in ('self', 'cls')])


def control(p, stmt, f):
    """the assignment is under a test of an argument"""
    for q in ancestors(stmt):
        if q is f.node: break
        if isinstance(q, (ast.If, ast.While)) and any(isinstance(n, ast.Name) and n.id in f.allparams for n in ast.walk(q.test)): return True
    return False


def reads_state(p, f):
    return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and isinstance(p.resolve(n, f), tuple) and p.resolve(n, f)[0] == 'global' and not n.id.isupper() and not local(p, n.id, f) for n in own_nodes(f.node))


def imported_here(name, f):
    return any(isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == name for a in x.names) for x in own_nodes(f.node))


def kept(f, q):
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == q and any(isinstance(t, ast.Attribute) for t in n.targets): return True
    return False


def target_of(e):
    """what is changed: the container expression of an in-place change"""
    if isinstance(e, ast.Call): return e.func.value if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS else None
    if isinstance(e, ast.AugAssign): return e.target.value if isinstance(e.target, ast.Subscript) else e.target
    if isinstance(e, (ast.Assign, ast.AnnAssign, ast.Delete)):
        for t in (e.targets if not isinstance(e, ast.AnnAssign) else [e.target]):
            if isinstance(t, ast.Subscript): return t.value
    return None


def base_of(t):
    while isinstance(t, ast.Subscript) or (isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute)): t = t.value if isinstance(t, ast.Subscript) else t.func.value
    return t


def denotes_store(s, t, f):
    if isinstance(t, ast.Name):
        return t.id in globals_of(f) and (f.module.name, t.id) in s.mods
    return isinstance(t, ast.Attribute) and s.denotes(t, f) is not None
Shared.denotes_store = denotes_store


def emptied(f, t, e):
    """every path to the change has emptied (or newly made) the container, or the change removes or orders only"""
    t = base_of(t)
    if isinstance(e, ast.Call) and e.func.attr in ('sort', 'reverse', 'clear'): return True
    text = ast.unparse(t)
    cfg = cfg_of(f)
    def reset(n):
        a = n.ast
        if n.kind != 'stmt': return False
        if isinstance(a, ast.Assign): return any(ast.unparse(x) == text or (isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and x.slice.lower is None and x.slice.upper is None and ast.unparse(x.value) == text) for x in a.targets)
        if isinstance(a, ast.Delete): return any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and x.slice.lower is None and x.slice.upper is None and ast.unparse(x.value) == text for x in a.targets)
        if isinstance(a, ast.AnnAssign): return a.value is not None and ast.unparse(a.target) == text
        if isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute): return a.value.func.attr == 'clear' and ast.unparse(a.value.func.value) == text
        return False
    if isinstance(e, ast.Assign) and any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and x.slice.lower is None and x.slice.upper is None for x in e.targets): return True
    seen, st = {cfg.entry}, [cfg.entry]
    while st:
        n = st.pop()
        if reset(n): continue
        if n.ast is e or (isinstance(e, ast.Call) and any(x is e for x in node_walk(n))): return False
        for x, l in n.succ:
            if x not in seen: seen.add(x); st.append(x)
    return True


def sets_switch(n, attr):
    """True / False / None"""
    a = n.ast
    if n.kind == 'stmt' and isinstance(a, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in a.targets):
        return not (isinstance(a.value, ast.Constant) and a.value.value is False)
    return None


def left_on(f, attr):
    def tr(n, s):
        v = sets_switch(n, attr)
        return [s if v is None else v]
    cfg = cfg_of(f)
    def br(n, l, s): return None if l == 'exc' else s
    ins = flow(cfg, [False], tr, br)
    return True in ins.get(cfg.exit, set())


def unreachable(f, call):
    cfg = cfg_of(f)
    r = reachable(cfg.entry)
    return not any(call in list(node_walk(n)) for n in r)


def restored(p, f, call, x):
    """another call of the same function follows on every path from here, exceptional ones included"""
    cfg = cfg_of(f)
    def same(c): return isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and p.resolve(c.func, f) == ('ext', x)
    def saved(c):
        """a restoring call: its last argument is a value that was read before (os.getcwd(), signal.getsignal(), the result of signal.signal)"""
        if not c.args: return False
        for v, g in feeds(p, c.args[-1], f):
            if isinstance(v, ast.Call):
                r = p.resolve(v.func, g) if isinstance(v.func, (ast.Name, ast.Attribute)) else None
                if r in (('ext', 'os.getcwd'), ('ext', 'signal.getsignal'), ('ext', 'signal.signal'), ('ext', 'pathlib.Path.cwd'), ('ext', 'os.path.abspath')): return True
        return x == 'signal.signal' and ast.unparse(c.args[-1]) in ('signal.SIG_DFL', 'signal.SIG_IGN')
    if saved(call): return True
    starts = [n for n in cfg.nodes if any(c is call for c in node_walk(n))]
    outerr = {cfg.exit, cfg.excexit}
    for s0 in starts:
        seen, st = {s0}, [s0]
        while st:
            n = st.pop()
            if n in outerr: return False
            if n is not s0 and any(same(c) and saved(c) for c in node_walk(n) if isinstance(c, ast.Call)): continue
            # a statement outside every try that can raise leaves the function
            if n is not s0 and not any(l == 'exc' for _, l in n.succ) and n.kind in ('stmt', 'test', 'foriter', 'with_enter', 'return') and any(isinstance(c, (ast.Call, ast.Subscript)) for c in node_walk(n)) \
                    and not harmless(n): return False
            for y, l in n.succ:
                if l == 'exc' and n is s0: continue
                if y not in seen: seen.add(y); st.append(y)
    return True


def harmless(n): return all(callname(c) in ('vPrint', 'dPrint', 'fnPrint') for c in node_walk(n) if isinstance(c, ast.Call)) and not any(isinstance(c, ast.Subscript) for c in node_walk(n))


def run(p, r, tier):
    out, counts = decide(p)
    for k, n in counts.items(): r.count(k, n)
    for k, w, m in out: r.find(k, w, m)
    r.floor('shared containers', 30); r.floor('functions', 1200); r.floor('late constants', 6); r.floor('configuration functions', 5); r.floor('switch settings', 20)


def _st(src, bad, more=None):
    def thunk():
        p = Project.from_sources({'BibleOrgSys/__init__.py': '', 'BibleOrgSys/BibleOrgSysGlobals.py': 'alreadyMultiprocessing = False\ncommandLineArguments = None\ndef basicConfigure(a):\n    global commandLineArguments\n    commandLineArguments = a\n',
                                  'BibleOrgSys/a.py': src, **(more or {})})
        got = {k.split(':')[0] for k, _, _ in decide(p)[0]}
        return got == ({bad} if bad else set())
    return thunk


_G = 'from BibleOrgSys import BibleOrgSysGlobals\nimport os, signal, subprocess, functools\n'
SELFTESTS = [
    ('module container changed', _st('T = {}\nclass B:\n    def __init__(self): self.d = {}\n    def f(self, x): T[x] = 1\n', 'container')),
    ('own container changed', _st('T = {}\nclass B:\n    def __init__(self): self.d = {}\n    def f(self, x): self.d[x] = T.get(x)\n', None)),
    ('module container held in an attribute', _st('T = [1]\nclass B:\n    def __init__(self): self.d = T\n    def f(self, x): self.d.append(x)\n', 'container')),
    ('copy of a module container held in an attribute', _st('T = [1]\nclass B:\n    def __init__(self): self.d = T[:]\n    def f(self, x): self.d.append(x)\n', None)),
    ('container of the class', _st('class B:\n    d = {}\n    def f(self, x): self.d[x] = 1\n', 'container')),
    ('container of the class through a helper', _st('def put(d, x): d[x] = 1\nclass B:\n    d = {}\n    def f(self, x): put(self.d, x)\n', 'container')),
    ('container of the base class', _st('class A:\n    d = []\nclass B(A):\n    def f(self, x): self.d += [x]\n', 'container')),
    ('hidden by one of the object', _st('class B:\n    d = {}\n    def __init__(self): self.d = {}\n    def f(self, x): self.d[x] = 1\n', None)),
    ('default changed', _st('def f(x, seen=[]):\n    seen.append(x)\n    return len(seen)\n', 'default')),
    ('default given out', _st('def f(x, seen={}):\n    return seen\n', 'default')),
    ('default kept', _st('class B:\n    def __init__(self, seen={}): self.seen = seen\n', 'default')),
    ('default read', _st('def f(x, seen={}):\n    for y in seen: x += y\n    return x\n', None)),
    ('default replaced', _st('def f(x, seen=None):\n    if seen is None: seen = []\n    seen.append(x)\n    return seen\n', None)),
    ('global from an argument', _st('last = None\nclass B:\n    def f(self, x):\n        global last\n        y = x + 1\n        last = y\n', 'global')),
    ('constant made late', _st('T = None\nclass B:\n    def f(self, x):\n        global T\n        if T is None: T = dict(a=1)\n        return T[x]\n', None)),
    ('global counted', _st('n = 0\nclass B:\n    def f(self):\n        global n\n        n += 1\n', 'global')),
    ('class attribute set', _st('class B:\n    last = None\n    def f(self, x): B.last = x\n', 'attribute')),
    ('class attribute set through the object\'s class', _st('class B:\n    last = None\n    def f(self, x): self.__class__.last = x\n', 'attribute')),
    ('object attribute set', _st('class B:\n    last = None\n    def f(self, x): self.last = x\n', None)),
    ('module attribute set', _st(_G + 'class B:\n    def f(self, x): BibleOrgSysGlobals.strict = x\n', 'attribute')),
    ('switch left on when leaving early', _st(_G + 'def f(x):\n    BibleOrgSysGlobals.alreadyMultiprocessing = True\n    if not x: return 0\n    BibleOrgSysGlobals.alreadyMultiprocessing = False\n    return 1\n', 'switch')),
    ('switch off again', _st(_G + 'def f(x):\n    if x:\n        BibleOrgSysGlobals.alreadyMultiprocessing = True\n        print(x)\n        BibleOrgSysGlobals.alreadyMultiprocessing = False\n    return 1\n', None)),
    ('working folder not restored on error', _st(_G + 'def f(x):\n    old = os.getcwd()\n    os.chdir(x)\n    subprocess.run(["a"])\n    os.chdir(old)\n', 'process')),
    ('working folder restored', _st(_G + 'def f(x):\n    old = os.getcwd()\n    os.chdir(x)\n    try: subprocess.run(["a"])\n    finally: os.chdir(old)\n', None)),
    ('working folder of the child', _st(_G + 'def f(x):\n    subprocess.run(["a"], cwd=x)\n', None)),
    ('environment changed', _st(_G + 'def f(x):\n    os.environ["A"] = x\n', 'process')),
    ('cached method', _st(_G + 'class B:\n    @functools.lru_cache()\n    def f(self, x): return x\n', 'cache')),
    ('configuration called by the library', _st(_G + 'def f(x):\n    BibleOrgSysGlobals.basicConfigure(x)\n', 'configures')),
    ('configuration adds to what is there', _st('T = []\ndef conf(a):\n    global mode\n    mode = a\n    T.append(1)\nmode = 1\n', 'again')),
    ('configuration adds to what is there, declared', _st('T = []\ndef conf(a):\n    global T\n    T.append(1)\n', 'again')),
    ('configuration starts anew', _st('T = []\ndef conf(a):\n    global T\n    T = []\n    T.append(1)\n', None)),
]
_L = 'T = None\nclass S:\n    def __init__(self): self.x = 1\n    def get(self, k): return k\n'
SELFTESTS += [
    ('helper used before it is made', _st(_L + 'class B:\n    def load(self, k):\n        global T\n        if T is None: T = S()\n        return self._one(k)\n    def _one(self, k): return T.get(k)\n    def loadAll(self, k): return self._one(k)\n', 'unprepared')),
    ('helper made on one path only', _st(_L + 'class B:\n    def load(self, k):\n        global T\n        if k and T is None: T = S()\n        return T.get(k)\n', 'unprepared')),
    ('helper made by a function', _st(_L + 'def ready():\n    global T\n    if T is None: T = S()\nclass B:\n    def load(self, k):\n        ready()\n        return self._one(k)\n    def _one(self, k): return T.get(k)\n', None)),
    ('helper made by the constructor', _st(_L + 'class B:\n    def __init__(self):\n        global T\n        if T is None: T = S()\n    def one(self, k): return T.get(k)\n', None)),
]
