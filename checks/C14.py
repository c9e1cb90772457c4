"""C14: importing a module of the library only makes its names.

The statements that run when a module is imported (module and class bodies, default values and decorators, without `if __name__ == '__main__'`) and every library
function that they call, through the call graph, must not: write, rename or remove a file or folder; read a file named relative to the current folder;
ask for what not every process has (a terminal or login name: os.getlogin, os.ttyname, input; an environment variable without a default; command-line arguments);
end, fork or signal the process, start other programs, threads or network connections, sleep;
change the process or other modules (current folder, umask, environment, module search path, locale, recursion limit, warnings and logging set-up, random seed,
attributes of another module); or print. The only exception is the settings file of the library, which BibleOrgSysGlobals makes when it is missing."""
from common import *
import C29

RULE = __doc__
ASSUMPTIONS = ['callees are resolved by type', 'importing what is outside the library is not looked into']
BAD = {'os.getlogin': 'needs a login terminal', 'os.ttyname': 'needs a terminal', 'os.ctermid': 'needs a terminal', 'builtins.input': 'needs a terminal', 'getpass.getpass': 'needs a terminal',
       'os.get_terminal_size': 'needs a terminal', 'sys.exit': 'ends the program', 'os._exit': 'ends the program', 'os.abort': 'ends the program', 'builtins.exit': 'ends the program', 'builtins.quit': 'ends the program',
       'os.fork': 'forks', 'os.kill': 'signals', 'os.system': 'starts a program', 'os.popen': 'starts a program', 'os.chdir': 'changes the current folder', 'os.umask': 'changes the process',
       'os.putenv': 'changes the environment', 'os.unsetenv': 'changes the environment', 'os.nice': 'changes the process', 'os.setuid': 'changes the process', 'time.sleep': 'sleeps',
       'locale.setlocale': 'changes the locale', 'sys.setrecursionlimit': 'changes the process', 'logging.basicConfig': 'sets up logging', 'logging.disable': 'sets up logging', 'random.seed': 'changes the process',
       'warnings.filterwarnings': 'changes the process', 'warnings.simplefilter': 'changes the process', 'urllib.request.urlopen': 'uses the network', 'urllib.request.urlretrieve': 'uses the network',
       'socket.create_connection': 'uses the network', 'socket.socket': 'uses the network', 'socket.gethostbyname': 'uses the network', 'multiprocessing.set_start_method': 'changes the process',
       'multiprocessing.Pool': 'starts processes', 'multiprocessing.Process': 'starts processes', 'threading.Thread': 'starts threads', 'os.getpgrp': None, 'builtins.breakpoint': 'stops',
       'atexit.register': 'changes the process', 'faulthandler.enable': 'changes the process', 'gc.disable': 'changes the process', 'socket.setdefaulttimeout': 'changes the process'}
PREFIX = {'subprocess.': 'starts a program', 'signal.': 'changes the process', 'requests.': 'uses the network', 'http.client.': 'uses the network', 'ftplib.': 'uses the network'}
LISTS = {'sys.path': 'the module search path', 'os.environ': 'the environment', 'sys.modules': 'the loaded modules', 'sys.argv': 'the command line', 'logging.root.handlers': 'the logging set-up'}
CHANGE = {'append', 'insert', 'extend', 'remove', 'pop', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'popitem'}


def is_main(n):
    return isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(n.test)) and any(isinstance(x, ast.Constant) and x.value == '__main__' for x in ast.walk(n.test))


def import_body(body):
    """statements that run on import"""
    out = []
    for n in body:
        if is_main(n): out += import_body(n.orelse); continue
        if isinstance(n, (ast.Import, ast.ImportFrom)): continue
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            out += [ast.copy_location(ast.Expr(e), e) for e in n.decorator_list + a.defaults + [d for d in a.kw_defaults if d is not None]]; continue
        if isinstance(n, ast.ClassDef):
            out += [ast.copy_location(ast.Expr(e), e) for e in n.decorator_list + n.bases] + import_body(n.body); continue
        out.append(n)
    return out


def strip(body):
    """compound statements without the definitions and imports in them, in place on copies"""
    out = []
    for n in import_body(body):
        if isinstance(n, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            m = type(n)(**{k: getattr(n, k) for k in n._fields if hasattr(n, k)}); ast.copy_location(m, n)
            for k in ('body', 'orelse', 'finalbody'):
                if hasattr(n, k): setattr(m, k, strip(getattr(n, k)) or ([ast.copy_location(ast.Pass(), n)] if k == 'body' else []))
            if isinstance(n, ast.Try):
                hs = []
                for h in n.handlers:
                    g = ast.ExceptHandler(type=h.type, name=h.name, body=strip(h.body) or [ast.copy_location(ast.Pass(), h)]); ast.copy_location(g, h); hs.append(g)
                m.handlers = hs
            n = m
        out.append(n)
    return out


def bodies(p):
    for m in (p.modules.values() if isinstance(p.modules, dict) else p.modules):
        if m.rel.startswith('BibleOrgSys/') and not m.rel.endswith(('__main__.py',)):
            d = ast.FunctionDef(name='<import>', args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=strip(m.tree.body) or [ast.Pass()], decorator_list=[], returns=None)
            ast.copy_location(d, m.tree.body[0] if m.tree.body else ast.Pass(lineno=1, col_offset=0)); ast.fix_missing_locations(d)
            yield m, Func('<import>', d, m)


def module_of(e, f, p):
    """name of the module that e stands for, if it stands for one"""
    r = p.resolve(e, f)
    if r is not None and type(r).__name__ == 'Module': return r.name
    if isinstance(r, tuple) and r[0] == 'ext' and r[1] in ('os', 'sys', 'logging', 'multiprocessing', 'signal', 'locale', 'warnings', 'random', 'builtins', 'socket', 'json', 're', 'ssl'): return r[1]
    return None


def guarded(n):
    """is it in a try whose handlers catch its failure"""
    k = n
    for q in ancestors(n):
        if isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)): return False
        if isinstance(q, ast.Try) and any(k is x for x in q.body) and any(h.type is None or any(isinstance(z, ast.Name) and z.id in ('OSError', 'KeyError', 'Exception', 'BaseException', 'LookupError', 'EOFError', 'IOError', 'EnvironmentError') for z in ast.walk(h.type)) for h in q.handlers): return True
        k = q
    return False


LOGGER = {'addHandler', 'removeHandler', 'setLevel', 'addFilter', 'removeFilter'}


def root_logger(e, f, A, deep=0):
    """may e be the root logger"""
    if dotted(e) == 'logging.root': return True
    if isinstance(e, ast.Call): return A.ext(e.func, f) == 'logging.getLogger' and (not e.args and not e.keywords or bool(e.args) and isinstance(e.args[0], ast.Constant) and e.args[0].value in (None, '', 'root'))
    if isinstance(e, ast.Name) and deep < 3:
        return any(isinstance(n, (ast.Assign, ast.NamedExpr)) and any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target])) and root_logger(n.value, f, A, deep+1)
                   for b in (f.node, f.module.tree) for n in (own_nodes(b) if b is f.node else b.body))
    return False


def home(e, f, imp, deep=0):
    """is e in the folder of the settings"""
    for y in ast.walk(e):
        if isinstance(y, ast.Name):
            if 'HOME' in y.id or 'SETTINGS' in y.id or imp.endswith('BibleOrgSysGlobals') and y.id in f.params: return True
            if deep < 3:
                for n in own_nodes(f.node):
                    ts, v = (n.targets, n.value) if isinstance(n, ast.Assign) else ([n.target], n.iter) if isinstance(n, ast.For) else ([], None)
                    if any(isinstance(t, ast.Name) and t.id == y.id for t in ts) and home(v, f, imp, deep+1): return True
    return False


def bad(n, f, A, top, imp=''):
    """what is wrong with node n of function f, or None"""
    p = A.p
    if isinstance(n, ast.Call):
        x = A.ext(n.func, f)
        r = p.resolve(n.func, f)
        if isinstance(n.func, ast.Name) and n.func.id in ('input', 'exit', 'quit', 'breakpoint') and r is None and not p.is_local(n.func.id, f): x = 'builtins.' + n.func.id
        if x in BAD and BAD[x] and not (BAD[x].startswith('needs') and guarded(n)): return f'{x}() {BAD[x]}'
        for q, w in PREFIX.items():
            if x and x.startswith(q): return f'{x}() {w}'
        if top and (x == 'builtins.print' or isinstance(n.func, ast.Name) and n.func.id == 'print' and r is None): return 'print() writes to the output'
        if isinstance(n.func, ast.Attribute):
            d = dotted(n.func.value)
            if d in LISTS and n.func.attr in CHANGE: return f'{d}.{n.func.attr}() changes {LISTS[d]}'
            if n.func.attr in LOGGER and root_logger(n.func.value, f, A): return f'{n.func.attr}() of the root logger sets up logging'
            if n.func.attr == 'parse_args' and not n.args and not n.keywords: return 'parse_args() reads the command line'
        for e in A.effect(n, f):
            rs = A.roots(e, f)
            if f.module.name.endswith('BibleOrgSysGlobals') and home(e, f, imp): continue
            if rs and all(t[0] == 'lib' and ('LOG' in t[1] or 'CACHE' in t[1]) for t in rs): continue
            return f'{ast.unparse(n)[:60]} writes'
        if x in C29.OPENERS and n.args and not home(n.args[0], f, imp) and any(t[0] == 'const' and not t[1].startswith(('/', '~')) for t in A.roots(n.args[0], f)):
            return f'{ast.unparse(n)[:60]} reads a file relative to the current folder'
    if isinstance(n, ast.Subscript) and dotted(n.value) == 'os.environ' and not (isinstance(n.ctx, ast.Load) and guarded(n)):
        return f'{ast.unparse(n)} ' + ('needs the environment variable' if isinstance(n.ctx, ast.Load) else 'changes the environment')
    if isinstance(n, ast.Subscript) and dotted(n.value) == 'sys.argv' and not isinstance(n.slice, ast.Slice) and not (isinstance(n.slice, ast.Constant) and n.slice.value == 0): return f'{ast.unparse(n)} needs a command-line argument'
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
        for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]):
            for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(u, ast.Attribute):
                    m = module_of(u.value, f, p)
                    if m and m != f.module.name: return f'{ast.unparse(u)} of another module is changed'
    return None


def decide(p, r):
    A = C29.Paths(p); graph = {}; memo = {}
    def calls(f):
        if f not in graph:
            out = []
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for g in p.callees(n, f, cha=False):
                        if isinstance(g, Cls): g = p.find_method(g, '__init__')
                        if isinstance(g, Func): out.append(g)
            graph[f] = out
        return graph[f]
    def problem(f, imp):
        imp = imp if imp.endswith('BibleOrgSysGlobals') else ''
        if (f, imp) not in memo:
            memo[f, imp] = None
            for n in own_nodes(f.node):
                w = bad(n, f, A, False, imp)
                if w: memo[f, imp] = (n, w); break
        return memo[f, imp]
    ns = nf = 0
    for m, b in bodies(p):
        ns += len(b.node.body)
        for n in own_nodes(b.node):
            w = bad(n, b, A, True, m.name)
            if w: r.find(f'{m.name}:{w}', f'{m.rel}:{getattr(n, "lineno", 0)}', f'importing {m.name}: {w}')
        seen = set(); todo = [(g, (g,)) for g in calls(b)]
        while todo:
            g, chain = todo.pop()
            if g in seen: continue
            seen.add(g); nf += 1
            w = problem(g, m.name)
            if w: r.find(f'{m.name}:{g.short}:{w[1]}', g.where(w[0]), f'importing {m.name}: {w[1]} (through ' + ' -> '.join(x.short for x in chain) + ')'); continue
            todo += [(h, chain + (h,)) for h in calls(g)]
    r.count('statements run on import', ns); r.count('functions called on import', nf)


def run(p, r, tier):
    decide(p, r)
    r.floor('statements run on import', 300)


class _R:
    def __init__(s): s.k = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, *a): pass


def _st(body, want, other=''):
    def t():
        p = Project.from_sources({'BibleOrgSys/a.py': 'import os, sys, logging, subprocess\nfrom pathlib import Path\nfrom BibleOrgSys import b\n' + body, 'BibleOrgSys/b.py': 'flag = False\n' + other}); r = _R(); decide(p, r)
        return (bool(r.k) == want) or list(r.k)
    return t


SELFTESTS = [
    ('names', _st('A = 1\nB = os.path.join("a", "b")\nC = Path(__file__).parent\n', False)),
    ('login', _st('A = os.path.join("/home", os.getlogin())\n', True)),
    ('login in a class', _st('class K:\n    A = os.getlogin()\n', True)),
    ('login as a default', _st('def f(u=os.getlogin()): return u\n', True)),
    ('login in a function', _st('def f(): return os.getlogin()\n', False)),
    ('login in a called function', _st('def f(): return os.getlogin()\ndef g(): return f()\nU = g()\n', True)),
    ('login guarded', _st('try: U = os.getlogin()\nexcept OSError: U = ""\n', False)),
    ('main', _st('if __name__ == "__main__":\n    print(os.getlogin()); sys.exit(1)\n', False)),
    ('environment', _st('H = os.environ["HOME"]\n', True)),
    ('environment with default', _st('H = os.environ.get("HOME", "/")\n', False)),
    ('makes folder', _st('D = Path("/x/y")\nif not D.exists(): os.makedirs(D)\n', True)),
    ('makes folder in function', _st('def f(d):\n    os.makedirs(d)\n    return d\nD = f("/x")\n', True)),
    ('reads relative', _st('with open("data.txt") as f: T = f.read()\n', True)),
    ('reads beside itself', _st('with open(Path(__file__).parent / "data.txt") as f: T = f.read()\n', False)),
    ('other module', _st('b.flag = True\n', True)),
    ('path', _st('sys.path.append("..")\n', True)),
    ('program', _st('V = subprocess.run(["x"])\n', True)),
    ('print', _st('print("hello")\n', True)),
    ('other file', _st('X = b.mk()\n', True, 'import os\ndef mk():\n    os.chdir("/")\n')),
    ('root handler', _st('R = logging.getLogger()\nR.addHandler(logging.StreamHandler())\n', True)),
    ('root handler in a function', _st('def f():\n    r = logging.getLogger()\n    if not r.handlers: r.addHandler(logging.StreamHandler())\nf()\n', True)),
    ('own logger', _st('L = logging.getLogger(__name__)\nL.addHandler(logging.NullHandler())\n', False)),
    ('other module in a function', _st('def f(): b.flag = True\nf()\n', True)),
]
