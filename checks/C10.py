"""C10: a reference table loaded from its derived file is the table that the XML source gives.

For every loader (a method that fills the tables of its object from a pickle or JSON file of derived data) all paths are evaluated
symbolically. Rule, on each path that loads a derived file P of a table for which an XML converter C exists:
 - fresh: the path has established that both the modification and the status-change time of P itself are newer than those of the XML
   source X, or that X does not exist; X is the file that C reads by default, P one that C writes; and the caller gave no source;
 - same: the objects loaded, in order, are those that C dumped into that file, and each attribute receives the same table as on the
   path that imports the XML; keys that C made numbers are made numbers again after loading JSON;
 - filled: every normal path fills the tables or has found them filled;
 - source: the XML source that the times are compared with exists.
Converters: what importDataToPython returns first and later is the same; nothing is dumped before it was imported."""
from common import *
from symex import *

RULE = __doc__
SymEx.notnone = staticmethod(lambda name: isinstance(name, str) and name.endswith('.importDataToPython'))
ASSUMPTIONS = ['derived files on disk were written by the converters of this tree', 'file times are those of the operating system']
MUTATE = {'pop', 'popitem', 'clear', 'remove', 'update', 'setdefault', 'sort', 'reverse', 'append', 'extend', 'insert', 'add', 'discard'}
SKIP = {'vPrint', 'dPrint', 'fnPrint'}


def selfattr(e):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' else None


class Conv:
    """what a converter class imports, dumps and reads"""
    def __init__(s, p, cls):
        s.p, s.cls = p, cls
        s.ret = []            # values returned by importDataToPython
        s.dumps = {}          # (kind, file name) -> [attr, ...]
        s.sources = set()     # default XML names (file or folder/)
        s.intkeys = set()
        s.changed = []        # where a function that dumps changes, or dumps a changed copy of, a table
        s.consts = {}
        for k in p.mro(cls):
            for f in k.methods.values():
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                        for t in n.targets:
                            if selfattr(t): s.consts.setdefault(t.attr, set()).add(n.value.value)
        f = p.find_method(cls, 'importDataToPython')
        if f is not None:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None: s.ret.append((n, s.canon(n.value, f)))
            s.ints(f)
        for k in p.mro(cls):
            for g in k.methods.values(): s.scan(g)

    def canon(s, e, f, d=0):
        a = selfattr(e)
        if a: return ('cattr', a)
        if isinstance(e, ast.Tuple): return ('tuple', tuple(s.canon(x, f, d) for x in e.elts))
        if isinstance(e, ast.Name) and d < 3:
            # a local that holds the same object as an attribute
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    if isinstance(n.value, ast.Name) and n.value.id == e.id:
                        for t in n.targets:
                            if selfattr(t): return ('cattr', t.attr)
                    if any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        for t in n.targets:
                            if selfattr(t): return ('cattr', t.attr)
                        if selfattr(n.value): return ('cattr', n.value.attr)
        return ('?', ast.unparse(e)[:60])

    def ints(s, f):
        numbers = {t.id for n in own_nodes(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and callname(n.value) == 'int' for t in n.targets if isinstance(t, ast.Name)}
        keyed = {t.value.id for n in own_nodes(f.node) if isinstance(n, ast.Assign) for t in n.targets
                 if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Name) and t.slice.id in numbers}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Name) and v.id in keyed: s.intkeys.add(k.value)

    def fold(s, e, f, d=0):
        """set of texts e can be (the last part of a path)"""
        if d > 5: return set()
        if isinstance(e, ast.Constant) and isinstance(e.value, str): return {e.value}
        if selfattr(e): return s.consts.get(e.attr, set())
        if isinstance(e, ast.JoinedStr):
            acc = {''}
            for x in e.values:
                q = s.fold(x.value if isinstance(x, ast.FormattedValue) else x, f, d+1)
                acc = {a+b for a in acc for b in q}
            return acc
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return {a+b for a in s.fold(e.left, f, d+1) for b in s.fold(e.right, f, d+1)}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div): return s.fold(e.right, f, d+1)
        if isinstance(e, ast.Call):
            if callname(e) in ('join', 'joinpath') and e.args: return s.fold(e.args[-1], f, d+1)
            if callname(e) in ('open_text', 'open_binary') and len(e.args) > 1: return s.fold(e.args[1], f, d+1)
            if callname(e) in ('Path', 'str', 'PurePath') and e.args: return s.fold(e.args[0], f, d+1)
            cs = [c for c in s.p.callees(e, f, cha=False) if isinstance(c, Func)]
            return {x for c in cs for n in own_nodes(c.node) if isinstance(n, ast.Return) and n.value is not None for x in s.fold(n.value, c, d+1)}
        if isinstance(e, ast.Name):
            out = set()
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets): out |= s.fold(n.value, f, d+1)
                if isinstance(n, ast.NamedExpr) and n.target.id == e.id: out |= s.fold(n.value, f, d+1)
            if e.id in f.allparams:
                # a helper: what its callers in this class give
                for k in s.p.mro(s.cls):
                    for g in k.methods.values():
                        for n in own_nodes(g.node):
                            if isinstance(n, ast.Call) and f in s.p.callees(n, g, cha=False):
                                a = arg_map(n, f).get(e.id)
                                if a is not None: out |= s.fold(a, g, d+1)
            return out
        if isinstance(e, ast.IfExp): return s.fold(e.body, f, d+1) | s.fold(e.orelse, f, d+1)
        if isinstance(e, ast.BoolOp): return set().union(*(s.fold(v, f, d+1) for v in e.values))
        return set()

    def scan(s, g):
        handles = {}
        for n in own_nodes(g.node):
            if isinstance(n, ast.With):
                for it in n.items:
                    if isinstance(it.context_expr, ast.Call) and callname(it.context_expr) == 'open' and isinstance(it.optional_vars, ast.Name):
                        c = it.context_expr
                        handles[it.optional_vars.id] = s.fold(c.args[0] if isinstance(c.func, ast.Name) and c.args else c.func.value if isinstance(c.func, ast.Attribute) else c, g)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and callname(n.value) == 'open' and isinstance(n.targets[0], ast.Name) and n.value.args:
                handles[n.targets[0].id] = s.fold(n.value.args[0], g)
        ds = sorted((n for n in own_nodes(g.node) if isinstance(n, ast.Call) and len(n.args) > 1 and s.p.resolve(n.func, g) in (('ext', 'pickle.dump'), ('ext', 'json.dump'))), key=lambda n: (n.lineno, n.col_offset))
        for n in ds:
            kind = s.p.resolve(n.func, g)[1].split('.')[0]
            e = n.args[0]
            if isinstance(e, ast.Name):
                ds2 = [x.value for x in own_nodes(g.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
                if len(ds2) == 1: e = ds2[0]
            attrs = {x.attr for x in ast.walk(e) if selfattr(x)}
            if attrs and isinstance(e, (ast.DictComp, ast.ListComp, ast.SetComp, ast.Subscript)) or isinstance(e, ast.Call) and attrs and callname(e) in ('sorted', 'reversed', 'filter', 'set', 'map', 'zip'):
                s.changed.append((g, n, f'dumps {ast.unparse(e)[:60]}, not the table itself'))
            for x in own_nodes(g.node):
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                        while isinstance(t, ast.Subscript): t = t.value
                        if selfattr(t) in attrs and not (isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and callname(x.value) == 'importDataToPython'): s.changed.append((g, x, f'changes {t.attr} while it dumps it'))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATE:
                    t = x.func.value
                    while isinstance(t, ast.Subscript): t = t.value
                    if selfattr(t) in attrs: s.changed.append((g, x, f'changes {t.attr} while it dumps it'))
            for name in handles.get(n.args[1].id, ()) if isinstance(n.args[1], ast.Name) else ():
                if name.endswith(('.pickle', '.json')): s.dumps.setdefault((kind, name), []).append(s.canon(n.args[0], g))
        for n in own_nodes(g.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and ('XML' in n.targets[0].id or 'folder' in n.targets[0].id.lower()):
                s.sources |= {x for x in s.fold(n.value, g) if x.endswith(('.xml', '/'))}


def last(path):
    return path[2][1] if path[0] == 'path' and path[2][0] == 'const' else path[1] if path[0] == 'const' and isinstance(path[1], str) else None


def folder(path):
    b = path[1] if path[0] == 'path' else None
    while b is not None and b[0] == 'path': b = b[1]
    return b[1].rsplit('.', 1)[-1] if b is not None and b[0] == 'glob' else None


def newer_facts(atoms):
    """{(field, newer path, older path)} strictly"""
    out = set()
    for v, b in atoms:
        if v[0] != 'cmp' or v[1] not in ('>', '<', '>=', '<='): continue
        a, c = v[2], v[3]
        if not (a[0] == 'attr' and c[0] == 'attr' and a[1][0] == 'stat' and c[1][0] == 'stat' and norm(a[2]) == norm(c[2])): continue
        op = v[1]
        if not b: op = {'>': '<=', '<': '>=', '>=': '<', '<=': '>'}[op]
        if op == '>': out.add((norm(a[2]), a[1][1], c[1][1]))
        if op == '<': out.add((norm(a[2]), c[1][1], a[1][1]))
    return out


def norm(field): return field[:-3] if field.endswith('_ns') else field


def missing_facts(atoms):
    """paths known not to exist"""
    out = set()
    for v, b in atoms:
        if v[0] == 'cmp' and v[1] == 'in' and b and v[2][0] == 'const' and isinstance(v[2][1], str) and 'xml' in v[2][1].lower():
            q = v[3]
            while q[0] == 'call' and q[2]: q = q[2][0]
            if q[0] == 'attr': q = q[1]
            if q[0] == 'exc' and set(q[1]) <= {'FileNotFoundError'}: out |= {x for x in q[2] if (last(x) or '').endswith('.xml')}
        if v[0] == 'cmp' and v[1] == '==' and b:
            for a, c in ((v[2], v[3]), (v[3], v[2])):
                if a[0] == 'call' and a[1] in ('str', 'Path', 'pathlib.Path') and a[2]: a = a[2][0]
                if a[0] == 'attr' and a[1][0] == 'exc' and a[2] == 'filename':
                    out.add(c[2][0] if c[0] == 'call' and c[2] else c)
        if not b and v[0] == 'call' and v[1] in ('.exists', '.is_file', 'os.path.exists', 'os.path.isfile', 'os.access') and v[2]: out.add(v[2][0])
    return out


def decide(p, r):
    sx = SymEx(p, opaque=lambda g: '/Converters/' in g.module.rel or g.name in SKIP)
    loaders = []
    convs = {}
    loadish = {g for g in p.functions() if any(isinstance(n, ast.Call) and p.resolve(n.func, g) in (('ext', 'pickle.load'), ('ext', 'json.load'), ('ext', 'pickle.loads'), ('ext', 'json.loads')) for n in own_nodes(g.node))}
    table = lambda g: any(isinstance(n, ast.Constant) and isinstance(n.value, str) and '_Table' in n.value for n in own_nodes(g.node))
    near = set(loadish)
    for _ in range(2):
        near |= {g for g in p.functions() if any(isinstance(n, ast.Call) and set(c for c in p.callees(n, g, cha=False) if isinstance(c, Func)) & near for n in own_nodes(g.node))}
    for f in p.functions():
        if f.cls is None or f.name.startswith('__') and f.name.endswith('__') or f not in near: continue
        if '/Converters/' in f.module.rel or not ('/Reference/' in f.module.rel or '/OriginalLanguages/' in f.module.rel or f.module.rel.startswith('t/')): continue
        if not table(f) and not any(table(c) for n in own_nodes(f.node) if isinstance(n, ast.Call) for c in p.callees(n, f, cha=False) if isinstance(c, Func)): continue
        if f in loadish and not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in own_nodes(f.node)) and f.name.startswith('_'): continue
        paths = [q for q in sx.run(f) if q[0] == 'return']
        if any(e[0] == 'load' and '_Table' in (last(e[2][2]) or '') for _, t, _ in paths for e in t.events): loaders.append((f, paths))
    own = {f for f, _ in loaders if table(f)}
    loaders = [(f, q) for f, q in loaders if table(f) or not any(set(p.callees(n, f, cha=False)) & own for n in own_nodes(f.node) if isinstance(n, ast.Call))]
    for f, paths in loaders:
        r.count('loaders'); r.count('paths', len(paths))
        name = f.cls.name
        # the converter of the XML path
        cc = {v[1].rsplit('.', 1)[0] for _, t, _ in paths for e in t.events if e[0] in ('call', 'store', 'attrstore') for v in ([e] if e[0] == 'call' else imports(e[-1])) if v[1].endswith('.importDataToPython')}
        loaded = {}     # attr -> value on load paths
        filled = set()
        for _, t, _ in paths:
            for e in t.events:
                if e[0] == 'store' and (contains(e[2], 'load') or imports(e[2])): filled.add(e[1])
        cs = []
        for q in cc:
            c = next((x for m in p.modules.values() for x in m.classes.values() if x.qual == q), None)
            if c is not None: cs.append(convs.setdefault(q, Conv(p, c)))
        for C in cs:
            if len({v for _, v in C.ret}) > 1:
                r.find(f'same:{C.cls.name}:returns', C.cls.methods['importDataToPython'].where(), f'{C.cls.name}.importDataToPython returns different tables on different calls: {sorted(map(str, {v for _, v in C.ret}))}')
        for C in cs:
            for g, n, why in C.changed: r.find(f'same:{C.cls.name}.{g.name}:changed', g.where(n), f'{C.cls.name}.{g.name} {why}')
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE: t = n.func.value
            elif isinstance(n, ast.Delete): t = n.targets[0]
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance((n.targets[0] if isinstance(n, ast.Assign) else n.target), ast.Subscript):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                v = n.value
                if isinstance(v, ast.DictComp) or isinstance(v, ast.Call) and callname(v) == 'dict': continue      # see rekeyed()
            else: continue
            while isinstance(t, ast.Subscript): t = t.value
            if selfattr(t) in filled: r.find(f'same:{name}.{t.attr}:changed', f.where(n), f'{name}.{f.name} changes the table {t.attr} after loading it: {ast.unparse(n)[:60]}')
        ref = {}    # attr -> canonical converter table
        for _, t, _ in paths:
            for e in t.events:
                if e[0] == 'store' and imports(e[2]):
                    v = canon_import(e[2], convs)
                    if e[1] in ref and ref[e[1]] != v: r.find(f'same:{name}.{e[1]}:imports', f.where(), f'{name}.{f.name} imports different tables into {e[1]}: {ref[e[1]]} and {v}')
                    ref[e[1]] = v
        xmlparam = [a for a in f.params[1:] ]
        for _, t, _ in paths:
            loads = [e for e in t.events if e[0] == 'load']
            for e in loads:
                v = e[2]; P = v[2]; pn = last(P)
                r.count('loads')
                if pn is None: r.find(f'fresh:{name}:path', f.where(), f'{f.qual} loads a derived file whose name is not constant'); continue
                if not cs: continue
                C = next((c for c in cs if (v[1], pn) in c.dumps), None)
                if C is None and folder(P) != 'BOS_DERIVED_DATAFILES_FOLDERPATH': continue    # the lexicons: see hebrew()
                if C is None: r.find(f'same:{name}:file:{pn}', f.where(), f'{name}.{f.name} loads {pn}, which {", ".join(c.cls.name for c in cs)} never writes'); continue
                if folder(P) == 'BOS_DERIVED_DATAFILES_FOLDERPATH':
                    nf = newer_facts(e[3]); mf = missing_facts(e[3])
                    older = {x for fld, a, x in nf if a == P}
                    ok = next((x for x in older | mf if x in mf or {('st_mtime', P, x), ('st_ctime', P, x)} <= nf), None)
                    if ok is None: r.find(f'fresh:{name}:{v[1]}', f.where(), f'{name}.{f.name} loads {pn} on a path that has not established that both times of that file are newer than those of its XML source')
                    else:
                        xn = last(ok)
                        if xn not in C.sources: r.find(f'source:{name}:{xn}', f.where(), f'{name}.{f.name} compares {pn} with {xn}, but {C.cls.name} reads {sorted(C.sources)}')
                        elif folder(ok) != 'BOS_DATAFILES_FOLDERPATH': r.find(f'source:{name}:folder', f.where(), f'{name}.{f.name} compares {pn} with {xn} in another folder than the one with the sources')
                    for a in xmlparam:
                        if (('cmp', 'is', ('param', a), ('const', None)), True) not in e[3] and (('param', a), False) not in e[3]:
                            r.find(f'given:{name}:{v[1]}', f.where(), f'{name}.{f.name} loads {pn} also when the caller gave the source {a}')
            if loads and cs:
                stored = {e[1]: e[2] for e in t.events if e[0] == 'store' and contains(e[2], 'load')}
                for a, v in stored.items():
                    w = canon_load(v, convs, cs)
                    if isinstance(w, str): r.find(f'same:{name}.{a}:{kind(v)}', f.where(), f'{name}.{f.name}: {w}')
                    elif w[0] == '?' and len(w) > 1 and v[0] != 'dictcomp' and ref.get(a, ('?',))[0] != '?': r.find(f'same:{name}.{a}:{kind(v)}', f.where(), f'{name}.{f.name} fills {a} with something made from the derived file ({w[1][:60]}), but with {show(ref[a])} from the XML')
                    elif a in ref and ref[a] != w and w[0] != '?': r.find(f'same:{name}.{a}:{kind(v)}', f.where(), f'{name}.{f.name} fills {a} with {show(w)} from the derived file but with {show(ref[a])} from the XML')
                    r.count('table agreements')
                for v in {e[2] for e in loads if e[2][1] == 'json'}:
                    for C in cs:
                        for K in C.intkeys:
                            if (v[1], last(v[2])) not in C.dumps: continue
                            ok = any(e[0] == 'substore' and e[2] == ('const', K) and rekeyed(e[3], K) and contains(e[1], 'load') for e in t.events)
                            if not ok: r.find(f'same:{name}:json:{K}', f.where(), f'{name}.{f.name} leaves the keys of {K} as texts after loading {last(v[2])}; {C.cls.name} makes them numbers')
            # a given source is read
            if imports_any(t) and cs:
                for a in xmlparam:
                    if (('cmp', 'is', ('param', a), ('const', None)), True) in t.atoms or (('param', a), False) in t.atoms: continue
                    if any(e[0] == 'call' and str(e[1]).endswith('.loadAndValidate') for e in t.events) and not any(e[0] == 'call' and '.loadAndValidate' in str(e[1]) and mentions(e, ('param', a)) for e in t.events):
                        r.find(f'given:{name}:read', f.where(), f'{name}.{f.name} does not read the source {a} that the caller gave')
            # filled
            if filled:
                got = {e[1] for e in t.events if e[0] == 'store' and (contains(e[2], 'load') or imports(e[2]))}
                had = {v[1] for v, b in t.atoms if b and v[0] == 'self'} | {v[2][1] for v, b in t.atoms if not b and v[0] == 'cmp' and v[1] == 'is' and v[2][0] == 'self' and v[3] == ('const', None)}
                if not got and not (had & filled): r.find(f'filled:{name}', f.where(), f'{name}.{f.name} can return without having loaded any table')
                elif got:
                    need = set(ref) if imports_any(t) else None
                    if need and not need <= got: r.find(f'filled:{name}:import', f.where(), f'{name}.{f.name} does not take over {sorted(need-got)} from the XML on every path')


def kind(v):
    if v[0] == 'load': return v[1]
    return next((kind(x) for x in v if isinstance(x, tuple) and x and contains(x, 'load')), '?')


def contains(v, tag):
    if not isinstance(v, tuple) or not v: return False
    return v[0] == tag or any(contains(x, tag) for x in v if isinstance(x, tuple))


def mentions(v, q):
    return v == q or isinstance(v, tuple) and any(mentions(x, q) for x in v)


def imports(v):
    if not isinstance(v, tuple) or not v: return []
    if v[0] == 'call' and isinstance(v[1], str) and v[1].endswith('.importDataToPython'): return [v]
    return [y for x in v if isinstance(x, tuple) for y in imports(x)]


def imports_any(t): return any(e[0] == 'store' and imports(e[2]) for e in t.events)


def canon_import(v, convs):
    if v[0] == 'call' and v[1].endswith('.importDataToPython'):
        C = convs.get(v[1].rsplit('.', 1)[0])
        return C.ret[-1][1] if C is not None and C.ret else ('?',)
    if v[0] == 'elem':
        b = canon_import(v[1], convs)
        return b[1][v[2]] if b[0] == 'tuple' and v[2] < len(b[1]) else ('elem', b, v[2])
    if v[0] == 'item' and v[2][0] == 'const':
        b = canon_import(v[1], convs)
        return b[1][v[2][1]] if b[0] == 'tuple' and isinstance(v[2][1], int) and v[2][1] < len(b[1]) else ('elem', b, v[2][1])
    return ('?', str(v)[:80])


def canon_load(v, convs, cs):
    if v[0] == 'load':
        for C in cs:
            d = C.dumps.get((v[1], last(v[2])))
            if d is not None:
                if v[3] >= len(d): return f'object number {v[3]+1} is loaded from {last(v[2])}, into which {C.cls.name} dumps only {len(d)}'
                return d[v[3]]
        return ('?',)
    if v[0] == 'elem':
        b = canon_load(v[1], convs, cs)
        if isinstance(b, str): return b
        return b[1][v[2]] if b[0] == 'tuple' and v[2] < len(b[1]) else ('elem', b, v[2])
    if v[0] == 'item' and v[2][0] == 'const':
        b = canon_load(v[1], convs, cs)
        if isinstance(b, str): return b
        return b[1][v[2][1]] if b[0] == 'tuple' and isinstance(v[2][1], int) and v[2][1] < len(b[1]) else ('elem', b, v[2][1])
    return ('?', str(v)[:80])


def show(v):
    return v[1] if v[0] == 'cattr' else f'part {v[2]+1} of {show(v[1])}' if v[0] == 'elem' and isinstance(v[2], int) else str(v)


def rekeyed(v, K):
    """{int(k): v for k, v in <same table>.items()}"""
    if v[0] != 'dictcomp':
        return v[0] == 'call' and v[1] == 'dict' and 'int' in str(v)
    e = ast.parse(v[1], mode='eval').body
    g = e.generators
    if len(g) != 1 or g[0].ifs: return False
    t = g[0].target
    if not (isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts)): return False
    if not (isinstance(g[0].iter, ast.Call) and callname(g[0].iter) == 'items' and repr(K) in ast.unparse(g[0].iter)): return False
    k = e.key
    return isinstance(k, ast.Call) and callname(k) == 'int' and len(k.args) == 1 and isinstance(k.args[0], ast.Name) and k.args[0].id == t.elts[0].id and isinstance(e.value, ast.Name) and e.value.id == t.elts[1].id


def lexicon(p, r):
    """several objects pickled by a demo of the converter into one file and loaded by a class: same order (by attribute name)"""
    writers = {}
    for f in p.functions(demo=True):
        ds = sorted((n for n in own_nodes(f.node) if isinstance(n, ast.Call) and len(n.args) > 1 and p.resolve(n.func, f) == ('ext', 'pickle.dump')), key=lambda n: n.lineno)
        if len(ds) < 3: continue
        names = {c.value for n in own_nodes(f.node) for c in [n] if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith('.pickle')}
        seq = []
        for n in ds:
            e = n.args[0]
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                ctor = next((m.value for m in own_nodes(f.node) if isinstance(m, ast.Assign) and isinstance(m.value, ast.Call) and any(isinstance(t, ast.Name) and t.id == e.value.id for t in m.targets)), None)
                seq.append((callname(ctor) if ctor is not None else e.value.id, e.attr))
        for x in names: writers[x] = seq
    return writers


def hebrew(p, r):
    W = lexicon(p, r)
    sx = SymEx(p, opaque=lambda g: '/Converters/' in g.module.rel or g.name in SKIP)
    for f in p.functions():
        if 'Lexicon' not in f.module.rel or f.name != 'load': continue
        if '/Converters/' in f.module.rel: continue
        for _, t, _ in [q for q in sx.run(f) if q[0] == 'return']:
            got = [(e[1] if e[0] == 'store' else e[2], e[-1]) for e in t.events if e[0] in ('store', 'attrstore') and e[-1][0] == 'load']
            names = {last(v[2]) for _, v in got}
            for nm in names & set(W):
                seq = W[nm]; r.count('lexicon tables', len(seq))
                if len({v for _, v in got}) != len(seq): r.find(f'same:{f.cls.name}:{nm}', f.where(), f'{f.qual} loads {len(got)} objects from {nm}, into which {len(seq)} are dumped')
                for a, v in got:
                    if v[3] >= len(seq): continue
                    conv, attr = seq[v[3]]
                    want = WANT.get((conv, attr))
                    if want is not None and a != want: r.find(f'same:{f.cls.name}.{a}', f.where(), f'{f.qual} loads object {v[3]+1} of {nm}, which is {conv}.{attr}, into {a}')


# which table of the lexicon a converter's table becomes (as on the XML paths of HebrewLexiconIndex.load and HebrewLexiconSimple.load)
def wanted(p):
    sx = SymEx(p, opaque=lambda g: '/Converters/' in g.module.rel or g.name in SKIP)
    convs = {}
    out = {}
    for f in p.functions():
        if 'Lexicon' not in f.module.rel or f.name != 'load' or '/Converters/' in f.module.rel: continue
        for _, t, _ in [q for q in sx.run(f) if q[0] == 'return']:
            for e in t.events:
                if e[0] in ('store', 'attrstore') and imports(e[-1]):
                    q = imports(e[-1])[0][1].rsplit('.', 1)[0]
                    c = next((x for m in p.modules.values() for x in m.classes.values() if x.qual == q), None)
                    if c is None: continue
                    convs.setdefault(q, Conv(p, c))
                    v = canon_import(e[-1], convs)
                    if v[0] == 'cattr': out[(c.name, v[1])] = e[1] if e[0] == 'store' else e[2]
    return out


WANT = {}


def run(p, r, tier):
    decide(p, r)
    WANT.clear(); WANT.update(wanted(p))
    hebrew(p, r)
    r.floor('loaders', 8); r.floor('table agreements', 15); r.floor('lexicon tables', 3)


def _st(loader, keys, conv=None):
    C = conv or """
import os, pickle, json
from BibleOrgSys import BibleOrgSysGlobals
class AConverter:
    def __init__( self ): self._filenameBase = 'A'; self.__D = {}; self.__L = []
    def loadAndValidate( self, XMLFile=None ):
        if XMLFile is None: XMLFile = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( f'{self._filenameBase}.xml' )
    def importDataToPython( self ):
        return self.__D, self.__L
    def pickle( self, filepath=None ):
        if not filepath: filepath = os.path.join( 'f', self._filenameBase + '_Tables.pickle' )
        with open( filepath, 'wb' ) as h:
            pickle.dump( self.__D, h )
            pickle.dump( self.__L, h )
    def exportDataToJSON( self, filepath=None ):
        if not filepath: filepath = os.path.join( 'f', self._filenameBase + '_Tables.json' )
        with open( filepath, 'wt', encoding='utf-8' ) as h: json.dump( self.__D, h )
"""
    def t():
        from framework import Report
        p = Project.from_sources({'BibleOrgSys/__init__.py': '', 'BibleOrgSys/BibleOrgSysGlobals.py': "from pathlib import Path\nBOS_DATAFILES_FOLDERPATH = Path('a')\nBOS_DERIVED_DATAFILES_FOLDERPATH = Path('b')\n",
            'BibleOrgSys/Reference/__init__.py': '', 'BibleOrgSys/Reference/Converters/__init__.py': '', 'BibleOrgSys/Reference/Converters/AConverter.py': C,
            'BibleOrgSys/Reference/A.py': "import os, pickle, json\nfrom BibleOrgSys import BibleOrgSysGlobals\nfrom BibleOrgSys.Reference.Converters.AConverter import AConverter\nclass A:\n" + loader})
        r = Report('C10'); decide(p, r)
        ok = sorted({k.split(':')[0] for k in r.findings}) == sorted(keys)
        if not ok: print(r.findings)
        return ok and r.counts.get('loaders', 0) >= 1
    return t


GOOD = """
    def loadData( self, XMLFile=None ):
        if not self.__D:
            if XMLFile is None:
                X = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'A.xml' )
                P = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'A_Tables.pickle' )
                try: newer = os.stat(P).st_mtime > os.stat(X).st_mtime and os.stat(P).st_ctime > os.stat(X).st_ctime
                except FileNotFoundError as e: newer = 'xml' in str(e)
                if newer:
                    with open( P, 'rb' ) as h:
                        self.__D = pickle.load( h )
                        self.__L = pickle.load( h )
                    return self
            c = AConverter()
            c.loadAndValidate( XMLFile )
            self.__D, self.__L = c.importDataToPython()
        return self
"""
HELPER = """
    def _newer( self, P, X ):
        try:
            a, b = P.stat(), X.stat()
        except FileNotFoundError as e:
            return 'xml' in str(e)
        if a.st_mtime <= b.st_mtime: return False
        return b.st_ctime < a.st_ctime
    def loadData( self, XMLFile=None ):
        if self.__D: return self
        X = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH / 'A.xml'
        P = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH / 'A_Tables.pickle'
        if XMLFile is None and self._newer( P, X ):
            with open( P, 'rb' ) as h: self.__D, self.__L = pickle.load( h ), pickle.load( h )
            return self
        c = AConverter()
        c.loadAndValidate( XMLFile )
        self.__D, self.__L = c.importDataToPython()
        return self
"""
SELFTESTS = [
    ('good', _st(GOOD, [])),
    ('helper', _st(HELPER, [])),
    ('older', _st(GOOD.replace('os.stat(P).st_mtime > os', 'os.stat(P).st_mtime < os'), ['fresh'])),
    ('or', _st(GOOD.replace('mtime and os', 'mtime or os'), ['fresh'])),
    ('stem', _st(GOOD.replace("'A.xml'", "'B.xml'"), ['source'])),
    ('other file', _st(GOOD.replace("'A_Tables.pickle'", "'B_Tables.pickle'"), ['same'])),
    ('swapped', _st(GOOD.replace('self.__D = pickle', 'self.__T = pickle').replace('self.__L = pickle', 'self.__D = pickle').replace('self.__T = pickle', 'self.__L = pickle'), ['same'])),
    ('given', _st(GOOD.replace('if XMLFile is None:', 'if True:'), ['given'])),
    ('not filled', _st(GOOD.replace("            c = AConverter()\n            c.loadAndValidate( XMLFile )\n            self.__D, self.__L = c.importDataToPython()", "            if XMLFile:\n                self.__D, self.__L = AConverter().importDataToPython()"), ['filled'])),
    ('handler', _st(GOOD.replace("newer = 'xml' in str(e)", 'newer = True'), ['fresh'])),
    ('json twice', _st(GOOD.replace('.pickle', '.json').replace('pickle.load', 'json.load'), ['same'])),
    ('given but not read', _st(GOOD.replace('c.loadAndValidate( XMLFile )', 'c.loadAndValidate()'), ['given'])),
    ('another object', _st(GOOD.replace('self.__L = pickle.load( h )', 'self.__L = sorted( pickle.load( h ) )'), ['same'])),
    ('changed afterwards', _st(GOOD.replace('self.__L = pickle.load( h )', "self.__L = pickle.load( h )\n                        self.__D.pop( 'x' )"), ['same'])),
    ('any error', _st(GOOD.replace('except FileNotFoundError as e', 'except OSError as e'), ['fresh'])),
]
