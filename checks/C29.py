"""C29: reading changes no file, and what is written goes where it was asked to go.

Write effects: a file opened for writing, appending or updating; removed, renamed, moved, copied to, truncated; a folder made or removed;
a ZIP file opened for writing; an archive unpacked. For each the *root* of its path is found by following the expression backwards
(joins, Path operations, formatted strings, local variables, attributes, parameters through the calls that pass them).
rules: 1. no path written to is rooted in what a Bible or a reader was made from (self.sourceFolder, self.sourceFilepath and whatever else
a constructor of a Bible class is given), nor in the folders that were searched for files; 2. none is relative to whatever the current folder is
(a constant, or a bare file name); 3. no function that only looks or loads (file checks, constructors, load…, preload…, search…, get…, check… and so on)
reaches a write effect, except into a temporary folder or the library's own cache and log folders."""
import re
from common import *

RULE = __doc__
ASSUMPTIONS = ['callees are resolved by type; a path that comes from outside the library (a parameter of a public function) is what the caller asked for']
OS1 = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.mkdir', 'os.makedirs', 'os.truncate', 'os.chmod', 'shutil.rmtree', 'os.utime', 'os.chown', 'os.mkfifo'}
OS2 = {'os.rename': (0, 1), 'os.replace': (0, 1), 'os.renames': (0, 1), 'shutil.move': (0, 1), 'shutil.copy': (1,), 'shutil.copy2': (1,), 'shutil.copyfile': (1,),
       'shutil.copytree': (1,), 'os.symlink': (1,), 'os.link': (1,), 'shutil.unpack_archive': (1,), 'shutil.make_archive': (0,)}
SQLW = re.compile(r'\s*(INSERT|UPDATE|DELETE|CREATE|DROP|ALTER|VACUUM|REPLACE|ATTACH)\b', re.I)
METHODS = {'write_text', 'write_bytes', 'touch', 'unlink', 'rmdir', 'mkdir', 'symlink_to', 'hardlink_to', 'chmod'}
OPENERS = {'builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.open', 'os.fdopen', 'zipfile.ZipFile', 'tarfile.open', 'tarfile.TarFile', 'shelve.open', 'gzip.GzipFile'}
PASS = {'str', 'Path', 'pathlib.Path', 'os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.path.dirname', 'os.path.expanduser', 'os.fspath', 'os.path.expandvars',
        'pathlib.PurePath', 'builtins.str', 'os.path.splitext', 'os.path.split', 'os.path.join'}
BARE = {'os.path.basename'}
TEMP = {'tempfile.mkdtemp', 'tempfile.mkstemp', 'tempfile.gettempdir', 'tempfile.TemporaryDirectory', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile'}
STRM = {'joinpath', 'with_suffix', 'with_name', 'with_stem', 'resolve', 'absolute', 'expanduser', 'replace', 'rstrip', 'strip', 'lstrip', 'format', 'lower', 'upper', 'removesuffix', 'as_posix', 'relative_to', '__truediv__'}
PROPS = {'parent', 'parents'}
BAREP = {'name', 'stem'}
READERS = re.compile(r'^_*(load|preload|search|get|is[A-Z_]|has[A-Z]|discover|find[A-Z]|lookFor|lookup|peek|process|import|contains|expand|parse|validate[A-Z]|handle|decode|split|match|does|count|check(?!BookOrderSystem|PunctuationSystem|VersificationSystem))|FileCheck$|^__(len|getitem|str|contains|iter|eq|repr|hash)__$')


class Paths:
    def __init__(s, p):
        s.p = p; s.sql = {}; s.mods = list(p.modules.values()) if isinstance(p.modules, dict) else list(p.modules); s.memo = {}; s.busy = set(); s.sinks = []; s.callers = {}
        for f in p.functions(demo=False):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for g in p.callees(n, f, cha=False):
                        if isinstance(g, Cls): g = p.find_method(g, '__init__')
                        if isinstance(g, Func): s.callers.setdefault(g, []).append((n, f))
                    for e in s.effect(n, f): s.sinks.append((n, e, f))
        s.bibles = s.bible_classes(); s.pathattrs = s.path_attrs()

    def bible_classes(s):
        out = set()
        for m in s.mods:
            for c in m.classes.values():
                if any(b.name in ('InternalBible', 'InternalBibleBook', 'Bible') for b in s.p.mro(c)): out.add(c)
        return out

    def path_attrs(s):
        """attributes of Bibles that hold whole paths: opened, listed, or the first part of a join"""
        out = set()
        for f in s.p.functions(demo=False):
            for n in own_nodes(f.node):
                if not isinstance(n, ast.Call): continue
                x = s.ext(n.func, f); es = []
                if x in OPENERS or x in ('os.listdir', 'os.walk', 'os.path.join', 'os.access', 'os.path.exists', 'os.path.isdir', 'os.path.isfile', 'pathlib.Path', 'os.stat', 'sqlite3.connect', 'xml.etree.ElementTree.parse'): es = n.args[:1]
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ('joinpath', 'iterdir', 'exists', 'is_dir', 'is_file'): es = [n.func.value]
                out |= {e.attr for e in es if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name)}
        return out

    def ext(s, fn, f):
        r = s.p.resolve(fn, f)
        if isinstance(r, tuple) and r[0] == 'ext': return r[1]
        if isinstance(r, (Func, Cls)): return None
        d = dotted(fn)
        if d and d.split('.')[0] in ('os', 'shutil', 'zipfile', 'tempfile', 'pathlib') : return d
        return None

    def mode(s, call, f, pos):
        e = next((k.value for k in call.keywords if k.arg in ('mode', 'flags', 'flag')), None)
        if e is None and len(call.args) > pos: e = call.args[pos]
        return s.modes(e, f) if e is not None else {'r'}

    def modes(s, e, f, depth=0):
        if isinstance(e, ast.Constant): return {e.value} if isinstance(e.value, str) else {'r'}
        if isinstance(e, ast.IfExp): return s.modes(e.body, f, depth) | s.modes(e.orelse, f, depth)
        if isinstance(e, ast.BinOp): return {''.join(x for a in (e.left, e.right) for x in sorted(s.modes(a, f, depth)))}
        if isinstance(e, ast.Name) and depth < 3:
            return set().union(*[s.modes(d, f, depth+1) for d in defs_of(f, e.id)] or [{'r'}])
        if isinstance(e, ast.Attribute) and dotted(e) and dotted(e).startswith('os.O_'): return {'w'} if 'RDONLY' not in dotted(e) else {'r'}
        return {'r'}

    def effect(s, call, f):
        """path expressions that this call writes to"""
        x = s.ext(call.func, f); a = call.args
        def kw(*ns): return [k.value for k in call.keywords if k.arg in ns]
        if x in OS1: return a[:1] or kw('path', 'name')
        if x in OS2: return [a[i] for i in OS2[x] if i < len(a)] + kw('dst')
        if x in ('shelve.open', 'dbm.open', 'dbm.dumb.open', 'logging.FileHandler', 'logging.handlers.RotatingFileHandler', 'logging.handlers.TimedRotatingFileHandler'): return a[:1] or kw('filename', 'file')
        if x and x.startswith('tempfile.'): return kw('dir')
        if x in OPENERS:
            ms = s.mode(call, f, 1)
            return (a[:1] or kw('file', 'name', 'filename')) if any(set(m) & set('wax+') for m in ms if m) else []
        if x is None and isinstance(call.func, ast.Attribute) and call.func.attr in ('execute', 'executemany', 'executescript') and a and s.changes(a[0], f) and not s.connects(f): return [call.func.value]
        if x == 'sqlite3.connect' and s.sqlwrite(f): return a[:1] or kw('database')
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'write' and a and s.tree(call.func.value, f): return a[:1]
        if isinstance(call.func, ast.Attribute) and x is None and not isinstance(s.p.resolve(call.func, f), (Func, Cls)):
            if any(isinstance(g, Func) for g in s.p.callees(call, f, cha=False)): return []
            at = call.func.attr
            if at in METHODS: return [call.func.value]
            if at in ('extractall',): return (a[:1] or kw('path')) or [ast.Constant('')]
            if at == 'extract' and s.archive(call.func.value, f): return (a[1:2] or kw('path')) or [ast.Constant('')]
            if at == 'open' and s.pathlike(call.func.value, f):
                ms = s.mode(call, f, 0)
                return [call.func.value] if any(set(m) & set('wax+') for m in ms if m) else []
            if at in ('rename', 'replace') and len(a) == 1: return [call.func.value, a[0]] if at == 'rename' or s.pathlike(call.func.value, f) else []
        return []

    def connects(s, f):
        while f is not None:
            if any(isinstance(n, ast.Call) and s.ext(n.func, f) == 'sqlite3.connect' for n in own_nodes(f.node)): return True
            f = f.parent
        return False

    def sqlwrite(s, f):
        if f not in s.sql:
            s.sql[f] = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr in ('execute', 'executemany', 'executescript') and n.args and s.changes(n.args[0], f)
                           or n.func.attr == 'commit' and not n.args) for n in own_nodes(f.node)) or any(s.sqlwrite(g) for g in f.nested.values())
        return s.sql[f]

    def changes(s, e, f, depth=0):
        if isinstance(e, ast.Constant) and isinstance(e.value, str): return bool(SQLW.match(e.value))
        if isinstance(e, ast.JoinedStr): return bool(e.values) and s.changes(e.values[0], f, depth)
        if isinstance(e, ast.BinOp): return s.changes(e.left, f, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute): return s.changes(e.func.value, f, depth)
        if isinstance(e, ast.Name) and depth < 3: return any(s.changes(d, f, depth+1) for d in defs_of(f, e.id))
        return False

    def tree(s, e, f):
        """is e an XML tree object that is written with .write(path)"""
        ds = defs_of(f, e.id) if isinstance(e, ast.Name) else [e]
        return any(isinstance(d, ast.Call) and (dotted(d.func) or '').split('.')[-1] in ('ElementTree', 'parse') and (dotted(d.func) or '').split('.')[0] not in ('self', 'json') for d in ds)

    def archive(s, e, f):
        return any(isinstance(d, ast.Call) and s.ext(d.func, f) in ('zipfile.ZipFile', 'tarfile.open') for d in (defs_of(f, e.id) if isinstance(e, ast.Name) else [e]))

    def pathlike(s, e, f, depth=0):
        if isinstance(e, ast.Call): return s.ext(e.func, f) in ('pathlib.Path',) or isinstance(e.func, ast.Attribute) and e.func.attr in ('joinpath', 'with_suffix', 'with_name')
        if isinstance(e, ast.BinOp): return isinstance(e.op, ast.Div) and s.pathlike(e.left, f, depth)
        if isinstance(e, ast.Name) and depth < 3: return any(s.pathlike(d, f, depth+1) for d in defs_of(f, e.id))
        return False

    # --- roots
    def roots(s, e, f):
        """set of ('const',v) ('bare',) ('source',text) ('param',Func,name) ('temp',) ('lib',name) ('?',text)"""
        k = (id(e), f)
        if k in s.memo: return s.memo[k]
        if k in s.busy: return set()
        s.busy.add(k)
        r = s.roots0(e, f)
        s.busy.discard(k); s.memo[k] = r
        return r

    def join(s, parts, f):
        """the root is that of the first part, and of a later part that is a whole path itself"""
        if not parts: return set()
        r = set(s.roots(parts[0], f))
        for q in parts[1:]:
            for t in s.roots(q, f):
                if t[0] in ('source', 'temp') or t[0] == 'const' and t[1].startswith(('/', '~', '..')): r.add(t)
        return r

    def roots0(s, e, f):
        if isinstance(e, ast.Constant): return {('const', e.value)} if isinstance(e.value, str) else set()
        if isinstance(e, ast.JoinedStr):
            if not e.values: return {('const', '')}
            v = e.values[0]
            if isinstance(v, ast.Constant): return {('const', v.value)}
            return s.roots(v.value, f)
        if isinstance(e, ast.NamedExpr): return s.roots(e.value, f)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Div): return s.join([e.left, e.right], f)
            return s.roots(e.left, f)
        if isinstance(e, ast.IfExp): return s.roots(e.body, f) | s.roots(e.orelse, f)
        if isinstance(e, ast.BoolOp): return set().union(*[s.roots(x, f) for x in e.values])
        if isinstance(e, (ast.Starred,)): return s.roots(e.value, f)
        if isinstance(e, (ast.Tuple, ast.List)): return set().union(set(), *[s.roots(x, f) for x in e.elts])
        if isinstance(e, ast.Subscript): return s.roots(e.value, f)
        if isinstance(e, ast.Call): return s.call(e, f)
        if isinstance(e, ast.Name): return s.name(e, f)
        if isinstance(e, ast.Attribute): return s.attr(e, f)
        return {('?', ast.unparse(e))}

    def call(s, e, f):
        x = s.ext(e.func, f)
        if x in TEMP:
            d = next((k.value for k in e.keywords if k.arg == 'dir'), e.args[2] if len(e.args) > 2 else None)
            return (s.roots(d, f) if d is not None else set()) or {('temp',)}
        if x in BARE: return {('bare', ast.unparse(e))}
        if x in ('os.getcwd', 'pathlib.Path.cwd'): return {('const', '')}
        if x in ('os.listdir',): return {('bare', ast.unparse(e))}
        if x in ('os.walk', 'os.scandir', 'glob.glob'): return s.roots(e.args[0], f) if e.args else set()
        if x in PASS or isinstance(e.func, ast.Name) and e.func.id in PASS and not s.p.is_local(e.func.id, f): return s.join(e.args, f) if e.args else {('const', '')}
        gs = [g for g in s.p.callees(e, f, cha=False) if isinstance(g, Func)]
        if gs:
            r = set()
            for g in gs:
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        for t in s.roots(n.value, g):
                            if t[0] == 'param' and t[1] is g:
                                m = arg_map(e, g)
                                if m and t[2] in m: r |= s.roots(m[t[2]], f)
                            else: r.add(t)
            return r or {('?', ast.unparse(e)[:60])}
        if isinstance(e.func, ast.Attribute):
            if e.func.attr == 'joinpath': return s.join([e.func.value] + e.args, f)
            if e.func.attr in ('iterdir', 'glob', 'rglob'): return s.roots(e.func.value, f)
            if e.func.attr == 'format' and isinstance(e.func.value, ast.Constant) and str(e.func.value.value).startswith('{'):
                return s.roots(e.args[0], f) if e.args else {('?', 'format')}
            if e.func.attr in STRM: return s.roots(e.func.value, f)
            if e.func.attr == 'join' and e.args: return s.roots(e.args[0], f)
        return {('?', ast.unparse(e)[:60])}

    def name(s, e, f):
        if e.id == '__file__': return {('libfile', '__file__')}
        g = f
        while g is not None:
            if e.id in g.allparams:
                r = {('param', g, e.id)}
                for d in defs_of(g, e.id): r |= s.roots(d, g)
                return r
            ds = defs_of(g, e.id)
            if ds: return set().union(*[s.roots(d, g) for d in ds])
            g = g.parent
        r = s.p.resolve(e, f)
        return s.globalref(r, e, f)

    def globalref(s, r, e, f):
        if isinstance(r, tuple) and r[0] == 'global': return s.module(r[1], r[2])
        return {('?', ast.unparse(e)[:60])}

    def module(s, m, name):
        if 'WRITEABLE' in name: return {('lib', name)}
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                v = n.value
                if isinstance(v, ast.Constant) and isinstance(v.value, str): return {('const', v.value)}
                for y in ast.walk(v):
                    if isinstance(y, ast.Attribute) and 'WRITEABLE' in y.attr or isinstance(y, ast.Name) and 'WRITEABLE' in y.id: return {('lib', name)}
                for y in ast.walk(v):
                    if isinstance(y, ast.Name) and (y.id == '__file__' or y.id != name and y.id.isupper() and y.id in m.globals and any(t[0] == 'libfile' for t in s.module(m, y.id))): return {('libfile', name)}
                    if isinstance(y, ast.Attribute) and y.attr.isupper() and y.attr.endswith(('FOLDER', 'FOLDERPATH')) and isinstance(y.value, ast.Name):
                        g = next((x for x in s.mods if x.name.split('.')[-1] == y.value.id), None)
                        if g is not None and g is not m and any(t[0] == 'libfile' for t in s.module(g, y.attr)): return {('libfile', name)}
                return {('?', name)}
        return {('?', name)}

    def attr(s, e, f):
        if e.attr in PROPS: return s.roots(e.value, f)
        r = s.p.resolve(e, f)
        if isinstance(r, tuple) and r[0] == 'global': return s.module(r[1], r[2])
        d = dotted(e)
        if d and 'WRITEABLE' in e.attr: return {('lib', e.attr)}
        if e.attr in BAREP and not isinstance(e.value, ast.Name): return {('bare', d or e.attr)}
        c = f.cls; g = f
        while c is None and g is not None: c = g.cls; g = g.parent
        if isinstance(e.value, ast.Name) and c is not None and e.value.id == 'self': return s.stored(c, e.attr)
        if isinstance(e.value, ast.Name) and e.attr in s.pathattrs and any(s.source_attr(c, e.attr) for c in s.bibles): return {('source', d)}
        return {('?', d or e.attr)}

    def source_attr(s, c, a):
        k = ('src', c, a)
        if k not in s.memo: s.memo[k] = any(r[0] == 'source' for r in s.stored(c, a))
        return s.memo[k]

    def stored(s, c, a):
        k = (c, a)
        if k in s.memo: return s.memo[k]
        s.memo[k] = set(); out = set(); bible = c in s.bibles
        cs = set(s.p.mro(c)) | set(s.p.subclasses(c)) if bible else set(s.p.mro(c))
        for x in cs:
            for m in x.methods.values():
                for n in own_nodes(m.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in targets(n):
                            for u, v in pairs(t, n.value):
                                if isinstance(u, ast.Attribute) and u.attr == a and isinstance(u.value, ast.Name) and u.value.id == 'self':
                                    for r in s.roots(v, m):
                                        if bible and r[0] == 'param' and r[1].cls in s.bibles and r[1].name in ('__init__', 'load', 'preload', '_loadMetadata', 'loadBook'): r = ('source', 'self.'+a) if a in s.pathattrs else ('?', 'self.'+a)
                                        out.add(r)
        s.memo[k] = out
        return out


def targets(a): return a.targets if isinstance(a, ast.Assign) else [a.target]


def pairs(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts): return [x for a, b in zip(t.elts, v.elts) for x in pairs(a, b)]
        return [(x, v) for x in t.elts]
    return [(t, v)]


# functions whose purpose is to change files that the program names or that belong to the online cache
PURPOSE = {'findReplaceText': 'replaces text in the files of a Bible, on request, after a backup', 'saveAnyChangedGlosses': 'keeps the glosses that the user entered'}


def effects(p, A):
    """(sink, Func, root, call where it enters, Func of that call, are there folders besides) - parameters followed to the calls that give them"""
    for call, e, f in A.sinks:
        todo = [(e, f, call, False)]; seen = set()
        while todo:
            e1, f1, c1, folder = todo.pop(); rs = A.roots(e1, f1)
            ps = [r for r in rs if r[0] == 'param']; lib = any(r[0] in ('lib', 'temp') for r in rs)
            for r in rs:
                if r[0] == 'param':
                    if (r[1], r[2]) in seen: continue
                    seen.add((r[1], r[2]))
                    for cc, cf in A.callers.get(r[1], []):
                        m = arg_map(cc, r[1])
                        if not m or r[2] not in m: continue
                        others = [q[2] for q in ps if q[1] is r[1] and q[2] != r[2]]
                        # a name that goes into a folder: the folder is given here, or is the library's own
                        into = any(o in m and not (isinstance(m[o], ast.Constant) and not m[o].value) for o in others) or lib and not any(o in m for o in others)
                        todo.append((m[r[2]], cf, cc, folder or into))
                else: yield call, f, r, c1, f1, folder


def what(call): return ast.unparse(call.func).split('.')[-1]


def decide(p, r):
    A = Paths(p); r.count('write effects', len(A.sinks))
    own = {}                       # function -> kinds of roots of its own effects
    n = 0
    for call, f, root, c1, f1, folder in effects(p, A):
        n += 1
        if '/Online/' in f1.module.rel: continue      # fetches into its own folders
        if f.name in PURPOSE or f1.name in PURPOSE: continue
        if root[0] == 'source':
            r.find(f'source:{f1.short}:{what(c1)}:{root[1]}', f1.where(c1), f'{f1.short} writes to a path rooted in {root[1]} ({ast.unparse(c1)[:80]}): what a Bible was loaded from')
        elif root[0] == 'libfile':
            r.find(f'library:{f1.short}:{root[1]}', f1.where(c1), f'{f1.short} writes into the folder of the library itself ({root[1]}: {ast.unparse(c1)[:80]})')
        elif folder: pass
        elif root[0] == 'const':
            r.find(f'cwd:{f1.short}:{root[1]}', f1.where(c1), f'{f1.short} writes to {root[1]!r}, relative to whatever the current folder is ({ast.unparse(c1)[:80]})')
        elif root[0] == 'bare':
            r.find(f'bare:{f1.short}:{what(c1)}', f1.where(c1), f'{f1.short} writes to the bare name {root[1]}, relative to whatever the current folder is')
    r.count('roots of written paths', n)
    # rule 3
    direct = {}
    for call, e, f in A.sinks:
        rs = A.roots(e, f)
        if rs and all(x[0] == 'temp' or x[0] == 'lib' and ('CACHE' in x[1] or 'LOG' in x[1]) for x in rs): continue
        if '/Online/' in f.module.rel: continue
        if f.name in PURPOSE: continue
        direct.setdefault(f, (call, e))
    graph = {}
    fs = list(p.functions(demo=False))
    for f in fs:
        for n_ in own_nodes(f.node):
            if isinstance(n_, ast.Call):
                for g in p.callees(n_, f, cha=False):
                    if isinstance(g, Cls): g = p.find_method(g, '__init__')
                    if isinstance(g, Func): graph.setdefault(f, []).append((g, n_))
    k = 0
    for f in fs:
        if not reader(f, A): continue
        k += 1
        seen = {f}; todo = [(f, (f,), None)]
        while todo:
            g, chain, args = todo.pop()
            if g in direct:
                c, e = direct[g]
                r.find(f'reader:{f.short}:{g.short}:{what(c)}', g.where(c), f'{f.short}, which only reads, reaches {ast.unparse(c)[:70]} in {g.short} (' + ' -> '.join(x.short for x in chain) + ')')
                break
            for h, n_ in graph.get(g, ()):
                if h not in seen and not permitted(h): seen.add(h); todo.append((h, chain + (h,), n_))
    r.count('functions that only read', k)


def permitted(h):
    return h.name in PURPOSE or h.name in LOGS


LOGS = {'setupLoggingToFile', 'addLogfile', 'removeLogfile', 'pickleObject', 'setup'}


WRITERS = re.compile(r'_*(to[A-Z_]|(do|create|make|write|export|save|pickle|install|download|unzip|unpack|setup)([A-Z_]|$))')


def reader(f, A):
    if f.parent is not None or f.name in PURPOSE: return False
    rel = f.module.rel
    if '/Online/' in rel: return False
    if f.name == '__init__': return f.cls in A.bibles
    if not READERS.search(f.name): return False
    by = {g for _, g in A.callers.get(f, []) if g is not f}
    return not by or any(not WRITERS.match(g.name) for g in by) # a helper of functions that write may write


def run(p, r, tier):
    decide(p, r)
    r.floor('write effects', 100)
    r.floor('functions that only read', 200)


class _R:
    def __init__(s): s.k = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, *a): pass


IB = 'from pathlib import Path\nimport os, shutil, zipfile, tempfile, sqlite3\nOUT_WRITEABLE = Path("/home/x")\ndef back(fp):\n    if os.access(fp, os.F_OK): os.rename(fp, str(fp)+".bak")\nclass InternalBible:\n    def __init__(self): self.books = {}\n'
B = IB + 'class VBible(InternalBible):\n    def __init__(self, sourceFolder, name):\n        self.sourceFolder, self.name = sourceFolder, name\n        self.sourceFilepath = os.path.join(self.sourceFolder, self.name)\n        os.access(self.sourceFilepath, os.R_OK)\n'


def _st(body, want, key=None):
    def t():
        p = Project.from_sources({'BibleOrgSys/a.py': B + body}); r = _R(); decide(p, r)
        ok = bool(r.k) if want else not r.k
        if ok and key: ok = any(k.startswith(key) for k in r.k)
        return ok or list(r.k)
    return t


SELFTESTS = [
    ('nothing', _st('', False)),
    ('export to given', _st('    def toX(self, out=None):\n        if not out: out = OUT_WRITEABLE.joinpath("X/")\n        os.makedirs(out)\n        with open(os.path.join(out, self.name+".txt"), "wt") as f: f.write("x")\n', False)),
    ('export to source', _st('    def toX(self, out=None):\n        with open(os.path.join(self.sourceFolder, "x.txt"), "wt") as f: f.write("x")\n', True, 'source:')),
    ('default is source', _st('    def toX(self, out=None):\n        if not out: out = Path(self.sourceFolder).joinpath("X")\n        fp = out / (self.name + ".x")\n        fp.write_text("x")\n', True, 'source:')),
    ('export to cwd', _st('    def toX(self, out=None):\n        with open(self.name and "x.txt", "wt") as f: f.write("x")\n', True, 'cwd:')),
    ('bare name', _st('    def toX(self, out):\n        for fn in os.listdir(out):\n            os.remove(fn)\n', True, 'bare:')),
    ('joined name', _st('    def toX(self, out):\n        for fn in os.listdir(out):\n            os.remove(os.path.join(out, fn))\n', False)),
    ('through helper', _st('    def toX(self, out):\n        self.put(self.sourceFilepath, "x")\n    def put(self, where, t):\n        with open(where, mode="w") as f: f.write(t)\n', True, 'source:')),
    ('helper given output', _st('    def toX(self, out):\n        self.put(os.path.join(out, "x"), "x")\n    def put(self, where, t):\n        with open(where, mode="w") as f: f.write(t)\n', False)),
    ('name and folder', _st('    def toX(self, out):\n        put("x.xml", out)\ndef put(name, folder=None):\n    fp = name\n    if folder: fp = os.path.join(folder, name)\n    open(fp, "w").close()\n', False)),
    ('name without folder', _st('    def toX(self, out):\n        put("x.xml")\ndef put(name, folder=None):\n    fp = name\n    if folder: fp = os.path.join(folder, name)\n    open(fp, "w").close()\n', True, 'cwd:')),
    ('loader renames', _st('    def load(self):\n        back(self.sourceFilepath)\n        return open(self.sourceFilepath)\n', True)),
    ('loader update mode', _st('    def load(self):\n        with open(self.sourceFilepath, "r+") as f: return f.read()\n', True, 'source:')),
    ('loader reads', _st('    def load(self):\n        with open(self.sourceFilepath, "rt") as f: return f.read()\n', False)),
    ('loader deep', _st('    def load(self): return self.more(self.name)\n    def more(self, x): return clean(x)\ndef clean(x):\n    os.unlink(x)\n', True, 'reader:')),
    ('check removes', _st('def VBibleFileCheck(folder):\n    for fn in os.listdir(folder):\n        if fn.endswith("~"): os.remove(os.path.join(folder, fn))\n', True, 'reader:')),
    ('temp folder', _st('    def preload(self):\n        self.tmp = tempfile.mkdtemp()\n        with zipfile.ZipFile(self.sourceFilepath) as z: z.extractall(self.tmp)\n    def loadBooks(self):\n        shutil.rmtree(self.tmp)\n        self.tmp = None\n', False)),
    ('temp folder beside source', _st('    def preload(self):\n        self.tmp = tempfile.mkdtemp(dir=self.sourceFolder)\n        with zipfile.ZipFile(self.sourceFilepath) as z: z.extractall(self.tmp)\n', True, 'source:')),
    ('unpack beside source', _st('    def preload(self):\n        self.tmp = os.path.join(self.sourceFolder, "t")\n        with zipfile.ZipFile(self.sourceFilepath) as z: z.extractall(self.tmp)\n', True, 'source:')),
    ('unpack here', _st('    def preload(self):\n        with zipfile.ZipFile(self.sourceFilepath) as z: z.extractall()\n', True)),
    ('database read', _st('    def load(self):\n        c = sqlite3.connect(self.sourceFilepath); k = c.cursor(); k.execute("SELECT * FROM B")\n', False)),
    ('database changed', _st('    def load(self):\n        c = sqlite3.connect(self.sourceFilepath); k = c.cursor(); k.execute("CREATE INDEX i ON B(x)")\n', True)),
    ('database changed elsewhere', _st('    def preload(self):\n        c = sqlite3.connect(self.sourceFilepath); self.k = c.cursor()\n    def loadBook(self, b): self.k.execute("UPDATE B SET x=1")\n', True)),
    ('copy from source', _st('    def toX(self, out):\n        shutil.copy(self.sourceFilepath, out)\n', False)),
    ('copy to source', _st('    def toX(self, out):\n        shutil.copy(out, self.sourceFilepath)\n', True)),
    ('library folder', _st('HERE = Path(__file__).parent\nHEREFOLDER = HERE.joinpath("d")\ndef save():\n    HEREFOLDER.joinpath("x").write_text("x")\n', True)),
]
