"""C12: looking something up in the reference tables never changes them.

Tables: the attributes that the loading methods (constructor, load*, import* and methods called only from those) of the reference
classes fill. Rule: outside loading no statement of the library changes a table, or a container inside one, in place, neither directly
nor through a variable, a returned reference, an attribute that came to hold one, or a parameter of a function that changes what it is
given; and no other method gives a table attribute a new value."""
from common import *
from alias import *

RULE = __doc__
ASSUMPTIONS = ['callees are resolved by type or by method name', 'what a converter gives to its reference class is not kept by anyone else']
LOADERS = ('load', 'import')


def loading(p, cls):
    """methods of the class that only run while the tables are being filled"""
    ms = {}
    for k in p.mro(cls):
        for f in k.methods.values(): ms.setdefault(f.name, f)
    own = set(cls.methods.values())
    L = {f for f in own if f.name in ('__init__', '__new__') or f.name.lstrip('_').lower().startswith(LOADERS)}
    callers = {}
    for f in own:
        for g in [f] + nested(f):
            for n in own_nodes(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    if n.attr in ms and ms[n.attr] in own: callers.setdefault(ms[n.attr], set()).add(f)
    changed = True
    while changed:
        changed = False
        for f in own - L:
            if callers.get(f) and callers[f] <= L and f.name.startswith('_'): L.add(f); changed = True
    return L | {g for f in L for g in nested(f)}


def nested(f): return [g for g in f.module.allfuncs if g is not f and any(x is f for x in parents(g))]


def parents(g):
    while g.parent is not None: g = g.parent; yield g


def is_table_class(p, cls):
    m = cls.module.name
    if '.Converters' in m or not ('.Reference' in m or '.OriginalLanguages' in m or m.startswith('demo')): return False
    ms = {f.name for f in cls.methods.values()}
    return 'loadData' in ms or ('load' in ms and not any(k.name.startswith('InternalBible') or k.name == 'Bible' for k in p.mro(cls)))


def table_attrs(p, cls):
    L = loading(p, cls)
    out = set()
    for f in L:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self': out.add(n.attr)
    # only those that are filled by a loading method, not those that merely keep a constructor argument
    keep = set()
    for f in L:
        if f.name in ('__init__', '__new__'): continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in out: keep.add(n.attr) if stored(n) else None
    return keep, L


def stored(n):
    if isinstance(n.ctx, ast.Store): return True
    q = getattr(n, '_parent', None)
    while isinstance(q, (ast.Subscript, ast.Attribute)):
        if isinstance(q, ast.Attribute) and q.attr in MUTATORS: return True
        if isinstance(q.ctx, ast.Store): return True
        q = getattr(q, '_parent', None)
    return False


def decide(p):
    """-> findings [(key, where, msg)], counts"""
    out, counts = [], {'table classes': 0, 'table attributes': 0, 'functions': 0, 'functions that return a table by reference': 0}
    tables, loaders = {}, set()
    for m in p.modules.values():
        for cls in m.classes.values():
            if not is_table_class(p, cls): continue
            at, L = table_attrs(p, cls)
            if not at: continue
            tables[cls.qual] = at; loaders |= L
            counts['table classes'] += 1; counts['table attributes'] += len(at)
    rootnames = set().union(*tables.values()) if tables else set()

    def root(e, f):
        if isinstance(e, ast.Attribute) and e.attr in rootnames and isinstance(e.value, ast.Name) and e.value.id == 'self' and f not in loaders:
            c = owner(f)
            if c is not None:
                for k in ([c] if e.attr.startswith('__') else p.mro(c)):
                    if e.attr in tables.get(k.qual, ()): return 0
        return None
    A = Alias(p, root, skip=lambda f: f in loaders)
    funcs = [f for f in p.functions(demo=False) if f not in loaders]
    A.solve(funcs, rootnames)
    counts['functions'] = sum(A.concerned(f, rootnames) for f in funcs)
    counts['functions that return a table by reference'] = len(A.ret)
    counts['further attributes that hold a table'] = len(A.attrs)
    for f in funcs:
        if not A.concerned(f, rootnames): continue
        c = owner(f)
        def found(e, g, what, f=f):
            out.append((f'change:{f.qual.split(".",1)[-1]}:{ast.unparse(e)[:60]}', f.where(e), f'{f.qual} changes a loaded reference table: {ast.unparse(e)[:90]} ({what})'))
        o = A.scan(f, found)
        for t, lv in o['stores']:
            if isinstance(t.value, ast.Name) and t.value.id == 'self' and c is not None and f.name not in ('__init__', '__new__'):
                for k in ([c] if t.attr.startswith('__') else p.mro(c)):
                    if t.attr in tables.get(k.qual, ()) or (A.attrs.get((k.qual, t.attr)) == 0 and '.Reference.' in k.qual and constructed(c, t.attr, f)):
                        out.append((f'assign:{f.qual.split(".",1)[-1]}:{t.attr}', f.where(t), f'{f.qual} gives the table {t.attr} another value outside loading'))
    return out, counts


def constructed(cls, attr, f):
    """attribute is filled in the constructor, and f is not a part of the constructor"""
    init = cls.methods.get('__init__')
    if init is None or f is init or f in nested(init): return False
    if any(isinstance(n, ast.Attribute) and n.attr == f.name for n in own_nodes(init.node)): return False
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in own_nodes(init.node))


def owner(f):
    while f is not None and f.cls is None: f = f.parent
    return f.cls if f is not None else None


def run(p, r, tier):
    out, counts = decide(p)
    for k, n in counts.items(): r.count(k, n)
    for k, w, m in out: r.find(k, w, m)
    r.floor('table classes', 8)
    r.floor('functions', 100)
    r.floor('functions that return a table by reference', 10)


def _st(src, want):
    head = '''
class Tables:
    def __init__(self): self.__D = None
    def loadData(self):
        if self.__D is None:
            with open('x') as f: self.__D = json.load(f)
            self._fill()
        return self
    def _fill(self): self.__D['n'] = {}
    def names(self, which=None):
        if which is None: return self.__D['names']
        return [x for x in self.__D['names'] if x in which]
    def entry(self, k): return self.__D['d'][k]
    def name(self, k) -> str: return self.__D['d'][k]
    def pairs(self): return [(k, v) for k, v in self.__D['d'].items()]
'''
    def thunk():
        p = Project.from_sources({'BibleOrgSys/Reference/x.py': 'import json\n' + head + src, 'BibleOrgSys/y.py': 'from BibleOrgSys.Reference.x import Tables\nT = Tables().loadData()\n'})
        return bool(decide(p)[0]) == want
    return thunk


SELFTESTS = [
    ('lookups that only read', _st('''
    def has(self, k): return k in self.__D['d']
    def sorted(self):
        r = list(self.__D['names']); r.sort(); r.append('x'); return r
def use():
    t = Tables().loadData()
    n = t.names(['a','b']); n.append('c')
    for k, v in t.pairs(): print(k, v)
    q = t.pairs(); q.sort(); q.pop()
''', False)),
    ('a lookup that takes away', _st('''
    def has(self, k): return self.__D['d'][k].pop(0)
''', True)),
    ('a lookup that makes an entry', _st('''
    def has(self, k):
        d = self.__D['d']
        if k not in d: d[k] = ''
        return d[k]
''', True)),
    ('a lookup that gives the table another value', _st('''
    def has(self, k):
        self.__D = {}
''', True)),
    ('a returned list is changed', _st('''
def use():
    t = Tables().loadData()
    n = t.names(); n.append('c')
''', True)),
    ('a returned list is extended in place', _st('''
def use():
    n = Tables().loadData().names()
    n += ['c']
''', True)),
    ('an entry of a copied table is changed', _st('''
    def all(self):
        c = self.__D['d'].copy()
        for k, v in c.items(): v['seen'] = True
        return c
''', True)),
    ('a function that changes what it is given', _st('''
def tidy(lst, out):
    while lst: out.append(lst.pop())
def use(out):
    tidy(Tables().loadData().entry('x'), out)
''', True)),
    ('a function that only reads what it is given', _st('''
def tidy(lst, out):
    for x in lst: out.append(x)
def use(out):
    tidy(Tables().loadData().entry('x'), out)
''', False)),
    ('held in an attribute and changed there', _st('''
class One:
    def __init__(self):
        self.__t = Tables().loadData(); self.e = self.__t.entry('x')
    def get(self, k): return self.e.setdefault(k, 1)
''', True)),
    ('held in an attribute and copied', _st('''
class One:
    def __init__(self):
        self.__t = Tables().loadData(); self.e = dict(self.__t.entry('x'))
    def get(self, k): return self.e.setdefault(k, 1)
''', False)),
    ('held in an attribute that a lookup replaces', _st('''
class One:
    def __init__(self):
        self.__t = Tables().loadData(); self.__e = self.__t.entry('x')
    def get(self, k):
        self.__e = {}
        return 1
''', True)),
    ('tuple of tables unpacked', _st('''
    def both(self): return self.__D['a'], self.__D['b']
def use():
    a, b = Tables().loadData().both()
    del b['x']
''', True)),
    ('copied before the change on every path', _st('''
def use(flag):
    n = Tables().loadData().names()
    if flag: n = sorted(n)
    else: n = n[:]
    n.reverse()
''', False)),
    ('copied before the change on one path only', _st('''
def use(flag):
    n = Tables().loadData().names()
    if flag: n = sorted(n)
    n.reverse()
''', True)),
    ('given to a function of Python', _st('''
def use():
    random.shuffle( Tables().loadData().names() )
''', True)),
    ('bound method', _st('''
def use():
    put = Tables().loadData().names().append
    put( 'x' )
''', True)),
    ('nested function', _st('''
def use():
    n = Tables().loadData().names()
    def put( x ): n.append( x )
    put( 'y' )
''', True)),
    ('nested function with its own', _st('''
def use():
    n = Tables().loadData().names()
    def put( x ): n = []; n.append( x )
    put( 'y' )
    return n
''', False)),
]
