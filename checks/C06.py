"""C06: reading a text, its metadata or an archive never executes anything in it, and unpacks only inside the folder meant for it.

Rule, over every function of the library and every module's top level:
 - eval, exec, compile, __import__, importlib.import_module, runpy and code.* are not used (even by another name) except on constants;
 - a shell command line (os.system, os.popen, subprocess with shell=True or with a string command) is built from constants only;
 - the program a subprocess starts is a constant;
 - an unpickled file lies in one of the library's own folders: its path begins, through assignments, attributes, parameters and their
   callers, at the library's source or at the folders it is configured to write to - PICKLE_FORMAT lists the format whose files are
   pickles;
 - the program is looked for behind wrappers (timeout, env ...), and an interpreter (sh, python ...) only gets constants;
 - no function is called that was looked up under a name that is not a constant (getattr, globals(), __dict__);
 - yaml is loaded with a safe loader;
 - a tar archive is unpacked with a filter that keeps members inside the target folder; zip members are unpacked with extract/extractall
   (which do so), or under a path that does not contain the member's own name."""
import re
from common import *

RULE = __doc__
ASSUMPTIONS = ['zipfile.extract and extractall drop absolute paths and ".." (documented)', 'pickle files in the library\'s own data and cache folders are trusted']
PICKLE_FORMAT = {'PickledBible': 'the Pickled Bible format is a pickle by definition; opening one is asking to unpickle it'}
EVALS = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__', 'importlib.import_module', 'importlib.__import__', 'runpy.run_path', 'runpy.run_module', 'code.interact', 'imp.load_source', 'imp.load_module'}
SHELLS = {'os.system', 'os.popen', 'commands.getoutput', 'subprocess.getoutput', 'subprocess.getstatusoutput', 'pty.spawn'}
PROCS = {'subprocess.Popen', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output'}
EXECV = re.compile(r'os\.(exec|spawn|posix_spawn)')
UNPICKLES = {'pickle.load', 'pickle.loads', 'pickle.Unpickler', '_pickle.load', '_pickle.loads', 'cPickle.load', 'cPickle.loads', 'dill.load', 'dill.loads', 'marshal.load', 'marshal.loads', 'shelve.open', 'jsonpickle.decode', 'joblib.load', 'pandas.read_pickle'}


def constant(p, e, f, depth=0):
    """does e only depend on constants of the program"""
    if depth > 10: return False
    if isinstance(e, ast.Constant): return True
    if isinstance(e, ast.JoinedStr): return all(constant(p, v.value if isinstance(v, ast.FormattedValue) else v, f, depth+1) for v in e.values)
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)): return all(constant(p, x.value if isinstance(x, ast.Starred) else x, f, depth+1) for x in e.elts)
    if isinstance(e, ast.BinOp): return constant(p, e.left, f, depth+1) and constant(p, e.right, f, depth+1)
    if isinstance(e, ast.IfExp): return constant(p, e.body, f, depth+1) and constant(p, e.orelse, f, depth+1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'join', 'strip', 'replace', 'lower', 'upper') or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr', 'int'):
        return (constant(p, e.func.value, f, depth+1) if isinstance(e.func, ast.Attribute) else True) and all(constant(p, a, f, depth+1) for a in e.args) and all(constant(p, k.value, f, depth+1) for k in e.keywords)
    if isinstance(e, (ast.Name, ast.Attribute)):
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in p.locals_of(g):
                    if e.id in g.allparams: return False
                    ds = defs_of(g, e.id)
                    if any(not constant(p, a, g, depth+1) for a in put_in(g, e.id)): return False
                    return bool(ds) and all(constant(p, v, g, depth+1) for v in ds)
                g = g.parent
        r = p.resolve(e, f)
        if isinstance(r, tuple) and r[0] == 'global':
            vs = r[1].globals.get(r[2], [])
            return bool(vs) and all(v is not None and constant(p, v, next(iter(r[1].allfuncs), f), depth+1) for v in vs)
    return False


def put_in(f, name):
    """what is put into the collection called name"""
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'add', 'update') and isinstance(n.func.value, ast.Name) and n.func.value.id == name: out += n.args
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name for t in n.targets): out.append(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name: out.append(n.value)
    return out


def first_element(p, e, f, depth=0):
    """the displays that a command list may start with; None = not a list we can see"""
    if depth > 6: return None
    if isinstance(e, (ast.List, ast.Tuple)): return [e] if e.elts else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add): return first_element(p, e.left, f, depth+1)
    if isinstance(e, ast.IfExp):
        a, b = first_element(p, e.body, f, depth+1), first_element(p, e.orelse, f, depth+1)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            if e.id in p.locals_of(g):
                if e.id in g.allparams: return None
                out = []
                for n in own_nodes(g.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                        r = first_element(p, n.value, g, depth+1)
                        if r is None: return None
                        out += r
                return out or None
            g = g.parent
        r = p.resolve(e, f)
        if isinstance(r, tuple) and r[0] == 'global':
            out = []
            for v in r[1].globals.get(r[2], []):
                x = first_element(p, v, f, depth+1) if v is not None else None
                if x is None: return None
                out += x
            return out or None
    return None


WRAPPERS = {'timeout': 1, 'env': 0, 'nohup': 0, 'nice': 0, 'sudo': 0, 'setsid': 0, 'time': 0, 'ionice': 0, 'stdbuf': 0, 'xvfb-run': 0, 'xargs': 0}
INTERPRETERS = re.compile(r'(?:ba|da|z|k|c|tc)?sh(?:\.exe)?|cmd(?:\.exe)?|powershell(?:\.exe)?|pwsh|python[\d.]*|perl|ruby|node|php|awk|sed')


def fixed_program(p, elts, f, whole):
    """the program that a command starts, behind any wrappers, is a constant, and it is not an interpreter that is handed anything else to run"""
    i = 0
    text = lambda e: e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None
    while i < len(elts):
        if not constant(p, elts[i], f): return False
        name = (text(elts[i]) or '').replace('\\', '/').split('/')[-1]
        if name in WRAPPERS:
            k = WRAPPERS[name]; i += 1
            while i < len(elts) and ((text(elts[i]) or '').startswith('-') or name == 'env' and '=' in (text(elts[i]) or '')): i += 1
            i += k
            continue
        return not INTERPRETERS.fullmatch(name) or constant(p, whole, f)
    return True


def regions(p):
    for m in p.modules.values():
        for f in m.allfuncs:
            if not f.demo: yield f, list(own_nodes(f.node))
        node = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[s for s in m.tree.body if not is_main_guard(s)], decorator_list=[], lineno=1)
        f = Func('<module>', node, m)
        f._locals = set(); f.nested = {}
        yield f, [n for s in node.body for n in ([s] if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else []) for n in ast.walk(n)] + [x for s in node.body if isinstance(s, ast.ClassDef) for b in s.body if not isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)) for x in ast.walk(b)]


def external(p, e, f):
    r = p.resolve(e, f)
    if isinstance(r, tuple) and r[0] == 'ext': return r[1]
    return None


def own(p, e, f, depth=0):
    """a path that begins in a folder of the library itself: its own source, or the folders it is configured to write to"""
    if depth > 14 or e is None: return False
    if isinstance(e, ast.Constant): return e.value is None or isinstance(e.value, str) and depth > 0 and not e.value.startswith('/')
    if isinstance(e, ast.IfExp): return own(p, e.body, f, depth+1) and own(p, e.orelse, f, depth+1)
    if isinstance(e, (ast.Tuple, ast.List)) and e.elts: return all(own(p, v, f, depth+1) for v in e.elts)
    if isinstance(e, ast.BoolOp): return all(own(p, v, f, depth+1) for v in e.values)
    if isinstance(e, ast.BinOp): return own(p, e.left, f, depth+1)
    if isinstance(e, ast.Subscript): return 'settingsData' in ast.unparse(e.value) or own(p, e.value, f, depth+1)
    if isinstance(e, ast.JoinedStr): return bool(e.values) and own(p, e.values[0].value if isinstance(e.values[0], ast.FormattedValue) else e.values[0], f, depth+1)
    if isinstance(e, ast.NamedExpr): return own(p, e.value, f, depth+1)
    if isinstance(e, ast.Call):
        nm = callname(e)
        gs = [g for g in p.callees(e, f, cha=False) if isinstance(g, Func) and g.name != '__init__']
        if gs: return all((rs := [n.value for n in own_nodes(g.node) if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None]) and all(own(p, v, g, depth+1) for v in rs) for g in gs)
        if nm in ('join', 'Path', 'PurePath', 'abspath', 'realpath', 'dirname', 'str', 'normpath', 'fspath', 'expanduser', 'open', 'BytesIO', 'BufferedReader') and e.args and not (nm == 'join' and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Constant)): return own(p, e.args[0], f, depth+1)
        if isinstance(e.func, ast.Attribute): return own(p, e.func.value, f, depth+1)
        return False
    if isinstance(e, ast.Name) and e.id == '__file__': return True
    if isinstance(e, ast.Attribute) and e.attr in ('parent', 'parents', 'buffer', 'name'): return own(p, e.value, f, depth+1)
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            if e.id in p.locals_of(g):
                ds = [v for v in defs_of(g, e.id) if v is not None]
                for n in own_nodes(g.node):
                    if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.iter not in ds: ds.append(n.iter)
                    if isinstance(n, (ast.With, ast.AsyncWith)): ds += [i_.context_expr for i_ in n.items if isinstance(i_.optional_vars, ast.Name) and i_.optional_vars.id == e.id]
                if e.id in g.allparams:
                    a = g.node.args
                    dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
                    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                    cs = calls_of(p, g)
                    if not cs and e.id not in dflt: return False
                    for h, c in cs:
                        v = arg_map(c, g).get(e.id, dflt.get(e.id))
                        if v is None or not own(p, v, h, depth+1): return False
                    if not all(own(p, d, g, depth+1) for k, d in dflt.items() if k == e.id): return False
                    return all(own(p, v, g, depth+1) for v in ds)
                return bool(ds) and all(own(p, v, g, depth+1) for v in ds)
            g = g.parent
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' and f is not None:
        g = f
        while g.parent is not None: g = g.parent
        if g.cls is None: return False
        ds = []
        for c in p.mro(g.cls):
            for m in c.methods.values():
                for n in own_nodes(m.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts): ps = list(zip(t.elts, n.value.elts))
                            else: ps = [(t, n.value)]
                            ds += [(v, m) for q, v in ps if isinstance(q, ast.Attribute) and q.attr == e.attr and isinstance(q.value, ast.Name) and q.value.id == 'self']
        return bool(ds) and all(own(p, v, m, depth+1) for v, m in ds)
    r = p.resolve(e, f)
    if isinstance(r, tuple) and r[0] == 'global':
        vs = r[1].globals.get(r[2], [])
        fake = next(iter(r[1].allfuncs), f)
        return bool(vs) and all(v is not None and own(p, v, fake, depth+1) for v in vs)
    return False


def calls_of(p, g):
    if not hasattr(p, '_c06_calls'):
        p._c06_calls = {}
        for f in p.functions():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for h in p.callees(n, f, cha=False):
                        if isinstance(h, Func): p._c06_calls.setdefault(h, []).append((f, n))
    return p._c06_calls.get(g, [])


def by_name(p, e, f, depth=0):
    """a function looked up under a name that is not a constant"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) > 1: return not constant(p, e.args[1], f)
    if isinstance(e, ast.Subscript) and (isinstance(e.value, ast.Call) and callname(e.value) in ('globals', 'locals', 'vars') or isinstance(e.value, ast.Attribute) and e.value.attr == '__dict__'): return not constant(p, e.slice, f)
    if isinstance(e, ast.Name) and e.id in p.locals_of(f) and e.id not in f.allparams and depth < 3: return any(by_name(p, v, f, depth+1) for v in defs_of(f, e.id) if v is not None)
    return False


def decide(p, r):
    for f, nodes in regions(p):
        called = {}
        for n in nodes:
            if isinstance(n, ast.Call): called[n.func] = n
        r.count('regions')
        for n in nodes:
            if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(getattr(n, 'ctx', None), ast.Load): continue
            if isinstance(n, ast.Name) and n.id in ('self', 'cls'): continue
            if isinstance(n, ast.Name) and n.id == '__builtins__': r.find(f'{f.short}/builtins', f.where(n), f'{f.short} takes a builtin by name')
            x = external(p, n, f)
            if x is None: continue
            call = called.get(n)
            where = f.where(n)
            if x in EVALS:
                r.count('evaluator_mentions')
                if x == 'builtins.compile' and call is None: pass
                if call is None or not call.args or not all(constant(p, a, f) for a in call.args[:1]):
                    r.find(f'{f.short}/{x}', where, f'{f.short} in {f.module.rel} evaluates something that is not a constant with {x}')
            elif x in SHELLS:
                r.count('shell_commands')
                if call is None or not call.args or not constant(p, call.args[0], f): r.find(f'{f.short}/{x}', where, f'{f.short} runs a shell command line ({x}) that is not built from constants only')
            elif x in PROCS or EXECV.match(x):
                r.count('subprocesses')
                if call is None: r.find(f'{f.short}/{x}', where, f'{f.short} hands {x} around'); continue
                arg = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == 'args'), None)
                shell = next((k.value for k in call.keywords if k.arg == 'shell'), None)
                if shell is not None and not (isinstance(shell, ast.Constant) and not shell.value):
                    if arg is None or not constant(p, arg, f): r.find(f'{f.short}/{x}/shell', where, f'{f.short} starts a shell on a command line that is not constant')
                    continue
                if arg is not None and constant(p, arg, f): continue
                first = first_element(p, arg, f) if arg is not None else None
                if first is None or not all(fixed_program(p, y.elts, f, arg) for y in first): r.find(f'{f.short}/{x}/program', where, f'{f.short} starts a program whose name is not a constant')
            elif x in UNPICKLES:
                r.count('unpicklings')
                g = f
                while g.parent is not None: g = g.parent
                if any(k in g.short or k in f.module.name for k in PICKLE_FORMAT): r.count('pickle_format'); continue
                if call is None or not call.args: r.find(f'{f.short}/{x}', where, f'{f.short} hands {x} around'); continue
                if not own(p, call.args[0], f):
                    r.find(f'{f.short}/{x}', where, f'{f.short} unpickles something that is not one of the library\'s own .pickle files')
            elif x in ('yaml.load', 'yaml.load_all', 'yaml.unsafe_load', 'yaml.full_load', 'ruamel.yaml.load'):
                ld = ' '.join(ast.unparse(k.value) for k in call.keywords) + ' '.join(ast.unparse(a) for a in call.args[1:]) if call else ''
                if 'Safe' not in ld and 'Base' not in ld: r.find(f'{f.short}/{x}', where, f'{f.short} loads YAML without a safe loader')
        for n in nodes:
            if isinstance(n, ast.Call) and by_name(p, n.func, f): r.find(f'{f.short}/by-name', f.where(n), f'{f.short} calls a function looked up under a name that is not a constant (`{ast.unparse(n)[:60]}`)')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and n.args and (isinstance(n.args[0], ast.Name) and n.args[0].id in ('builtins', '__builtins__') or isinstance(n.args[0], ast.Call) and callname(n.args[0]) in ('__import__', 'import_module')): r.find(f'{f.short}/builtins', f.where(n), f'{f.short} takes a builtin by name')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('extractall', 'extract', '_extract_member') and not p.callees(n, f, cha=False):
                src = [x for x, g in feeds(p, n.func.value, f) for x in ast.walk(x) if isinstance(x, ast.Call)]
                tar = any((external(p, x.func, f) or '').startswith('tarfile.') for x in src)
                if not tar and not any((external(p, x.func, f) or '').startswith('zipfile.') for x in src): continue
                r.count('archive_extractions')
                if tar:
                    flt = next((k.value for k in n.keywords if k.arg == 'filter'), None)
                    if flt is None or not (isinstance(flt, ast.Constant) and flt.value in ('data', 'tar') or external(p, flt, f) in ('tarfile.data_filter', 'tarfile.tar_filter')): r.find(f'{f.short}/tar-{n.func.attr}', f.where(n), f'{f.short} unpacks a tar archive without a filter: members may land outside the target folder')
                tgt = n.args[0] if n.args and n.func.attr == 'extractall' else n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'path'), None)
                if tgt is not None and listed(p, tgt, f): r.find(f'{f.short}/member-name', f.where(n), f'{f.short} unpacks an archive into a folder named in the archive')
            if isinstance(n, ast.Call) and external(p, n.func, f) == 'shutil.unpack_archive':
                r.count('archive_extractions')
                kw = {k.arg: k.value for k in n.keywords}
                flt, fmt = kw.get('filter'), kw.get('format', n.args[2] if len(n.args) > 2 else None)
                if not (isinstance(fmt, ast.Constant) and fmt.value == 'zip') and not (isinstance(flt, ast.Constant) and flt.value in ('data', 'tar')): r.find(f'{f.short}/unpack_archive', f.where(n), f'{f.short} unpacks an archive without a filter: members may land outside the target folder')
            # zip/tar members written by hand under their own name
            if isinstance(n, ast.Call):
                tgt = None
                mode = n.args[1] if isinstance(n.func, ast.Name) and len(n.args) > 1 else n.args[0] if isinstance(n.func, ast.Attribute) and n.args else None
                mode = mode or next((k.value for k in n.keywords if k.arg == 'mode'), None)
                writes = isinstance(mode, ast.Constant) and isinstance(mode.value, str) and re.search('[wax+]', mode.value)
                if isinstance(n.func, ast.Name) and n.func.id == 'open' and n.args and writes: tgt = n.args[0]
                elif isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and writes and len(mode.value) < 4: tgt = n.func.value
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ('write_bytes', 'write_text', 'touch'): tgt = n.func.value
                elif external(p, n.func, f) in ('shutil.copyfile', 'shutil.copy', 'shutil.copy2', 'shutil.move', 'os.rename', 'os.replace') and len(n.args) > 1: tgt = n.args[1]
                elif external(p, n.func, f) == 'os.open' and n.args: tgt = n.args[0]
                if tgt is not None and listed(p, tgt, f): r.find(f'{f.short}/member-name', f.where(n), f'{f.short} writes a file under a name taken from an archive')


def listed(p, e, f): return any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('namelist', 'infolist', 'getnames', 'getmembers') for x, g in feeds(p, e, f) for y in ast.walk(x))


def run(p, r, tier):
    decide(p, r)
    r.floor('regions', 1200); r.floor('subprocesses', 4); r.floor('unpicklings', 10); r.floor('archive_extractions', 2)


class R6:
    def __init__(self): self.findings = {}
    def find(self, k, w, m): self.findings[k] = m
    def count(self, *a): pass


def _st(src, want):
    def thunk():
        p = Project.from_sources({'BibleOrgSys/x.py': 'import os, subprocess, pickle, tarfile, zipfile, ast\n' + src}); r = R6(); decide(p, r)
        return bool(r.findings) == want
    return thunk


SELFTESTS = [
    ('eval of metadata', _st('def f(line): return eval(line)\n', True)),
    ('aliased eval', _st('ev = eval\ndef f(line): return ev(line)\n', True)),
    ('literal_eval', _st('def f(line): return ast.literal_eval(line)\n', False)),
    ('shell from constants', _st("PORT=2\ndef f(): os.system('x {} &'.format(PORT))\n", False)),
    ('shell from a file name', _st("def f(fn): os.system('x {} &'.format(fn))\n", True)),
    ('program constant', _st("def f(fn):\n p = ['/usr/bin/x', fn] if fn else ['/usr/bin/y']\n p.append(fn)\n subprocess.Popen(p)\n", False)),
    ('program from data', _st("def f(fn):\n p = [fn, 'x']\n subprocess.run(p)\n", True)),
    ('shell=True', _st("def f(fn): subprocess.run('cat ' + fn, shell=True)\n", True)),
    ('own pickle', _st("P='a/b.pickle'\ndef f():\n with open(P, 'rb') as q: return pickle.load(q)\n", False)),
    ('foreign pickle', _st("def f(fn):\n with open(fn, 'rb') as q: return pickle.load(q)\n", True)),
    ('pickle in the folder of the text', _st("class B:\n def __init__(self, folder): self.folder = folder\n def load(self):\n  with open(os.path.join(self.folder, 'cache.pickle'), 'rb') as q: return pickle.load(q)\n", True)),
    ('pickle helper, own folder', _st("HERE = os.path.dirname(__file__)\ndef un(name, folder=None):\n if folder is None: folder = HERE\n with open(os.path.join(folder, name), 'rb') as q: return pickle.load(q)\ndef g(n): return un(n + '.pickle')\n", False)),
    ('pickle helper, other folder', _st("HERE = os.path.dirname(__file__)\ndef un(name, folder=None):\n if folder is None: folder = HERE\n with open(os.path.join(folder, name), 'rb') as q: return pickle.load(q)\nclass B:\n def load(self): return un('x.pickle', self.sourceFolder)\n", True)),
    ('pickle path from a helper', _st("HERE = os.path.dirname(__file__)\nclass B:\n def name(self): return os.path.join(HERE, self.n + '.pickle')\n def load(self):\n  for x in (HERE + '/a', self.name()):\n   with open(x, 'rb') as q: return pickle.load(q)\n", False)),
    ('wrapped program', _st("def f(t, fn): subprocess.run(['timeout', t, '/usr/bin/x', fn])\n", False)),
    ('wrapped program from data', _st("def f(t, fn): subprocess.run(['timeout', '9', fn])\n", True)),
    ('shell given data', _st("def f(fn): subprocess.run(['/bin/sh', '-c', 'cat ' + fn])\n", True)),
    ('list with data joined for a shell', _st("def f(fn):\n p = ['cat']\n p.append(fn)\n os.system(' '.join(p))\n", True)),
    ('function by name', _st("def f(line): return globals()[line]()\n", True)),
    ('attribute by name, read', _st("def f(self, line): return getattr(self, line)\n", False)),
    ('zip into a folder it names', _st("def f(fn):\n with zipfile.ZipFile(fn) as z: z.extractall(z.namelist()[0])\n", True)),
    ('tar unfiltered', _st("def f(fn):\n t = tarfile.open(fn)\n t.extractall(path='x')\n", True)),
    ('tar filtered', _st("def f(fn):\n t = tarfile.open(fn)\n t.extractall(path='x', filter='data')\n", False)),
    ('zip by hand', _st("def f(fn):\n with zipfile.ZipFile(fn) as z:\n  for n in z.namelist():\n   with open('d/'+n, 'wb') as q: q.write(z.read(n))\n", True)),
]
