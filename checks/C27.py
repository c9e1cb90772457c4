"""C27: loading loses no book and no line, and ends with the post-load processing.

Books: a book object that a loader makes is, on every normal path, kept (stashed, stored in a container, returned, passed to a function that
keeps it) or its loss is reported, before its variable is given another book or the function ends. A book may be left out only where it is
tested to be empty or None.
Loads: every normal path through load() / loadBooks() of a Bible class runs doPostLoadProcessing, hands over to another load of the same
object, or reports that loading failed.
Lines: addLine keeps its line on every path; processLines works through all the raw lines, and every path of the processing of one line
appends an entry or reports."""
from common import *
from cfg import *
from project import *

RULE = __doc__
ASSUMPTIONS = ['exceptions are not silent: only normal paths are decided', 'a call of doPostLoadProcessing of the class or a base class does the post-load processing']
REPORT_LEVELS = {'warning', 'error', 'critical', 'exception', 'log', 'fatal'}


def family(p, base):
    return {c for m in p.modules.values() for c in m.classes.values() if any(k.name == base for k in p.mro(c))}


def name_of(e):
    """a variable that holds a book: a name or an attribute of the object"""
    if isinstance(e, ast.Name): return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name): return f'{e.value.id}.{e.attr}'
    return None


class Keep:
    def __init__(s, p):
        s.p = p; s.memo = {}
        s.rep = Reporter(p)

    def reports(s, n, f):
        """a log message that does not hide (warning or worse) or a priority error"""
        for x in node_walk(n):
            if isinstance(x, ast.Call):
                if is_log_call(x, f, s.p) and not (isinstance(x.func, ast.Attribute) and x.func.attr in ('debug', 'info')): return True
                if callname(x) in ('addPriorityError',) : return True
                if callname(x) == 'vPrint' and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == 'Quiet': return True
                for c in s.p.callees(x, f, cha=False):
                    if isinstance(c, Func) and s.rep.must_report(c): return True
        return False

    def kept_by(s, n, var, f):
        """the node stores, returns or hands on the book in the variable"""
        def is_var(e): return name_of(e) == var
        def holds(e):   # directly or in a tuple/list/dict display or conditional
            if is_var(e): return True
            if isinstance(e, (ast.Tuple, ast.List, ast.Set)): return any(holds(x) for x in e.elts)
            if isinstance(e, ast.Dict): return any(holds(x) for x in e.values if x is not None)
            if isinstance(e, ast.IfExp): return holds(e.body) or holds(e.orelse)
            if isinstance(e, (ast.Yield, ast.YieldFrom)) and e.value is not None: return holds(e.value)
            return False
        a = n.ast
        if n.kind == 'return' and isinstance(a, ast.Return) and a.value is not None and holds(a.value): return True
        if n.kind == 'stmt':
            if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None and holds(a.value):
                for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                    if isinstance(t, ast.Subscript) or (isinstance(t, ast.Attribute) and name_of(t) != var and not isinstance(a.value, ast.Attribute)): return True
            if isinstance(a, ast.Expr) and isinstance(a.value, (ast.Yield,)) and holds(a.value): return True
        for x in node_walk(n):
            if isinstance(x, ast.Call):
                if any(holds(y) for y in x.args) or any(holds(k.value) for k in x.keywords):
                    if isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add', 'insert', 'put', 'setdefault', '__setitem__'): return True
                    for c in s.p.callees(x, f):
                        if isinstance(c, Func):
                            try: m = arg_map(x, c, bound=c.cls is not None and not c.is_static and isinstance(x.func, ast.Attribute))
                            except Exception: continue
                            for q, v in m.items():
                                if isinstance(v, ast.AST) and holds(v) and s.keeps(c, q): return True
        return False

    def keeps(s, g, q):
        k = (g, q)
        if k in s.memo: return s.memo[k]
        s.memo[k] = False
        cfg = cfg_of(g)
        def tr(n, st): return [st or s.kept_by(n, q, g) or s.reports(n, g)]
        ins = flow(cfg, [False], tr, lambda n, l, st: None if l == 'exc' else st)
        ends = ins.get(cfg.exit, set())
        s.memo[k] = bool(ends) and False not in ends
        return s.memo[k]


def closure_users(f): return [g for g in f.module.allfuncs if g.parent is f]


def decide(p):
    out, counts = [], {'books made': 0, 'book classes': 0, 'Bible classes': 0, 'load methods': 0, 'functions that make books': 0, 'line functions': 0, 'rewriting loops': 0}
    books, bibles = family(p, 'InternalBibleBook'), family(p, 'InternalBible')
    counts['book classes'], counts['Bible classes'] = len(books), len(bibles)
    K = Keep(p)
    makers = {}

    def made(e, f):
        """the expression makes a new book"""
        if isinstance(e, ast.Call):
            r = p.resolve(e.func, f) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Cls): return r in books
            return any(isinstance(c, Func) and returns_new(c) for c in p.callees(e, f, cha=False))
        if isinstance(e, ast.IfExp): return made(e.body, f) or made(e.orelse, f)
        return False

    def returns_new(g):
        if g in makers: return makers[g]
        makers[g] = False
        for n in own_nodes(g.node):
            if isinstance(n, ast.Return) and n.value is not None:
                if made(n.value, g): makers[g] = True
                elif isinstance(n.value, ast.Name) and any(isinstance(d, ast.AST) and made(d, g) for d in defs_of(g, n.value.id)): makers[g] = True
        return makers[g]

    for f in p.functions(demo=False):
        vs = set()
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and made(n.value, f):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if name_of(t): vs.add(name_of(t)); counts['books made'] += 1
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and made(n.value, f):
                out.append((f'book:{f.short}:unused', f.where(n), f'{f.qual} makes or loads a book and drops it at once: {ast.unparse(n)[:80]}'))
        if vs: counts['functions that make books'] += 1
        for v in sorted(vs):
            for key, node, msg in book_paths(p, K, f, v, made): out.append((f'book:{f.short}:{v}:{key}', f.where(node), f'{f.qual}: the book in {v} {msg}'))

    # loads
    for c in sorted(bibles, key=lambda c: c.qual):
        for nm in ('load', 'loadBooks'):
            f = c.methods.get(nm)
            if f is None or c.name in ('InternalBible',) : continue
            counts['load methods'] += 1
            cfg = cfg_of(f)
            told_by = {}
            for x in own_nodes(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and is_self(x.func.value):
                    for d in p.callees(x, f, cha=False):
                        if isinstance(d, Func):
                            for a in sets_or_reports(K, d): told_by.setdefault(a, x)
            def br(n, l, st):
                if l == 'exc': return None
                if not st and n.kind == 'test' and l in (True, False):
                    t, lab = n.ast, l
                    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t, lab = t.operand, not lab
                    if lab is False and isinstance(t, ast.Attribute) and is_self(t.value) and t.attr in told_by and told_by[t.attr].lineno < n.ast.lineno: return True
                return st
            def tr(n, st):
                if st: return [True]
                for x in node_walk(n):
                    if isinstance(x, ast.Call):
                        for d in p.callees(x, f):
                            if isinstance(d, Func) and finishes(p, K, d, set()): return [True]
                        if isinstance(x.func, ast.Attribute) and x.func.attr in ('doPostLoadProcessing', 'load', 'loadBooks') and (is_self(x.func.value)): return [True]
                return [K.reports(n, f)]
            ins = flow(cfg, [False], tr, br)
            if False in ins.get(cfg.exit, set()):
                out.append((f'load:{c.name}.{nm}', f.where(), f'{f.qual} can return without the post-load processing and without reporting a failure'))

    # lines
    bb = next((c for c in books if c.name == 'InternalBibleBook'), None)
    if bb is not None:
        al = bb.methods.get('addLine')
        if al is not None:
            counts['line functions'] += 1
            if not always_appends(p, K, al, report_ok=False): out.append(('line:addLine', al.where(), f'{al.qual} can return without keeping the line'))
        pl = bb.methods.get('processLines')
        if pl is not None:
            for key, node, msg in lines(p, K, pl, counts): out.append((key, pl.where(node), msg))
    for c in sorted(books, key=lambda c: c.qual):
        for g in c.methods.values():
            for i, (lp, msg) in enumerate(rewrites(p, K, g)):
                counts['rewriting loops'] += 1
                if msg: out.append((f'rewrite:{g.short}:{i}', g.where(lp), f'{g.qual}: {msg}'))
    return out, counts


def sets_or_reports(K, g):
    """attributes of the object that g sets to True on every normal path on which it does not report"""
    cand = {t.attr for n in own_nodes(g.node) for t, v in assigns(n) if isinstance(t, ast.Attribute) and is_self(t.value) and v is not None and const(v) is True}
    res = set()
    for a in cand:
        cfg = cfg_of(g)
        def tr(n, st): return [st or K.reports(n, g) or (n.kind == 'stmt' and any(isinstance(t, ast.Attribute) and t.attr == a and const(v) is True for t, v in assigns(n.ast)))]
        ins = flow(cfg, [False], tr, lambda n, l, st: None if l == 'exc' else st)
        if ins.get(cfg.exit) and False not in ins[cfg.exit]: res.add(a)
    return res


def is_self(e): return isinstance(e, ast.Name) and e.id == 'self' or (isinstance(e, ast.Call) and callname(e) == 'super')


def finishes(p, K, g, seen):
    """every normal path of g runs the post-load processing"""
    if g.name == 'doPostLoadProcessing': return True
    if g in seen or g.cls is None and g.parent is None: return False
    if g.module.rel.find('Internals') >= 0: return False
    seen = seen | {g}
    cfg = cfg_of(g)
    if not any(isinstance(x, ast.Attribute) and x.attr in ('doPostLoadProcessing', 'load', 'loadBooks') for x in own_nodes(g.node)): return False
    def tr(n, st):
        if st: return [True]
        for x in node_walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and is_self(x.func.value):
                if x.func.attr in ('doPostLoadProcessing', 'load', 'loadBooks'): return [True]
        return [K.reports(n, g)]
    ins = flow(cfg, [False], tr, lambda n, l, st: None if l == 'exc' else st)
    return bool(ins.get(cfg.exit)) and False not in ins[cfg.exit]


def book_paths(p, K, f, v, made):
    """paths on which the book in variable v is lost"""
    cfg = cfg_of(f)
    lost = {}
    nested = {g.name for g in f.module.allfuncs if g.parent is f}
    free = {g.name for g in f.module.allfuncs if g.parent is f and any(isinstance(x, (ast.Nonlocal,)) and v in x.names for x in own_nodes(g.node))}
    def stores(n):
        for x in node_walk(n):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and name_of(x) == v: return x
        return None
    def value(n):
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AnnAssign)): return a.value
        for x in node_walk(n):
            if isinstance(x, ast.NamedExpr) and name_of(x.target) == v: return x.value
        return None
    facts = Facts(f, p)
    flags = empty_flags(f, v, made)
    counted = {n for n in cfg.nodes if n.kind == 'test' and is_count_check(n, K, f)}
    # state: 'no' no book; 'new' an empty book; 'has' an unsaved book with content; 'ok' saved; 'told' its loss was reported; second part: see Facts
    def tr(n, st):
        s = tr1(n, st[0])[0]
        return [(s, facts.after(n, st[1]))]
    def tr1(n, s):
        if s in ('new', 'has') and K.kept_by(n, v, f): s = 'ok'
        if s == 'new' and uses(n, v): s = 'has'
        # a nested function that keeps the variable of this one
        if s in ('new', 'has'):
            for x in node_walk(n):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in nested:
                    g = next(g for g in f.module.allfuncs if g.parent is f and g.name == x.func.id)
                    if v not in p.locals_of(g) and K.keeps(g, v): s = 'ok'
        if s == 'has' and K.reports(n, f): s = 'told'
        if s == 'has' and n.kind == 'stmt' and any(isinstance(t, ast.Attribute) and t.attr == 'books' for t, _ in assigns(n.ast)): s = 'told'      # all the books come from elsewhere
        x = stores(n)
        if x is not None:
            if s == 'has': lost.setdefault('overwritten', x)
            val = value(n)
            s = ('new' if isinstance(val, ast.Call) and isinstance(p.resolve(val.func, f), Cls) else 'has') if val is not None and made(val, f) else 'ok' if val is None or not (isinstance(val, ast.Constant) and val.value is None) else 'no'
        return [s]
    def br(n, l, st):
        if l == 'exc': return None
        if n.kind == 'forhead' and n.ast in facts.full:
            if l is True: return st[0], st[1] | {(('loop', n.ast.lineno), ('new',))}
            if (('loop', n.ast.lineno), ('new',)) not in st[1]: return None     # a list that is not empty
        if n.kind != 'test' or l not in (True, False): return st
        if facts.truth(n.ast, st[1]) is (not l): return None
        s = br1(n, l, st[0])
        if s is None: return None
        if s == 'has' and not l and any(isinstance(x, ast.Name) and x.id in flags and dict(st[1]).get(x.id) == ('c', False) for x in ast.walk(n.ast)): s = 'ok'
        if s == 'has' and l and isinstance(n.ast, ast.UnaryOp) and isinstance(n.ast.operand, ast.Name) and n.ast.operand.id in flags and dict(st[1]).get(n.ast.operand.id) == ('c', False): s = 'ok'
        return s, st[1]
    def br1(n, l, s):
        t, lab = n.ast, l
        if s == 'has' and n in counted: return 'told'
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t, lab = t.operand, not lab
        empty = about(t, v)
        if empty is None: return s
        cond_empty = empty if lab else ('full' if empty in ('empty', 'none') else 'empty?')
        if s in ('new', 'has', 'told', 'ok') and empty == 'none' and lab: return None      # it is not None
        if s in ('new', 'has', 'told', 'ok') and empty == 'some' and not lab: return 'no' if s in ('new', 'has') else s
        if s == 'no' and empty == 'none' and not lab: return None
        if s == 'no' and empty == 'some' and lab: return None
        if empty == 'empty' and lab and s == 'has': return 'ok'
        return s
    ins = flow(cfg, [('no' if '.' not in v else 'ok', frozenset())], tr, br)
    res = [(k, x, 'is given up for another one on some path without having been stashed or reported') for k, x in lost.items()]
    if any(x[0] == 'has' for x in ins.get(cfg.exit, set())):
        mk = next((n.ast for n in cfg.nodes if stores(n) is not None and value(n) is not None and made(value(n), f)), f.node)
        res.append(('end', mk, 'is neither stashed nor returned nor reported on some path to the end'))
    return res


def uses(n, v):
    """something is done with the book in v"""
    for x in node_walk(n):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and name_of(x.func.value) == v: return True
            if any(name_of(y) == v for y in x.args) or any(name_of(k.value) == v for k in x.keywords): return True
    return False


class Facts:
    """what is known of the marker variables of a function: the constants they were given, or that they were given a value that is not the initial one"""
    def __init__(s, f, p):
        consts, tested = {}, set()
        names = p.locals_of(f)
        for n in own_nodes(f.node):
            for t, val in assigns(n):
                if isinstance(t, ast.Name) and (k := const(val)) is not NOCONST: consts.setdefault(t.id, set()).add(k)
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                for x in ast.walk(n.test):
                    if isinstance(x, ast.Name): tested.add(x.id)
        s.consts = {k: v for k, v in consts.items() if k in tested and k in names}
        s.full = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Name):
                ds = defs_of(f, n.iter.id)
                if ds and all(isinstance(d, (ast.List, ast.Tuple)) and len(d.elts) > 1 and not any(isinstance(e, ast.Starred) for e in d.elts) for d in ds): s.full.add(n)

    def after(s, n, facts):
        d = None
        def put(k, v):
            nonlocal d
            if d is None: d = dict(facts)
            if v is None: d.pop(k, None)
            else: d[k] = v
        done = set()
        if n.kind == 'stmt' and isinstance(n.ast, (ast.Assign, ast.AnnAssign)):
            for t, val in assigns(n.ast):
                if isinstance(t, ast.Name) and t.id in s.consts:
                    done.add(t.id)
                    k = const(val)
                    if k is not NOCONST: put(t.id, ('c', k))
                    elif isinstance(val, ast.Name) and val.id in s.consts: put(t.id, dict(facts).get(val.id, ('new',)))
                    else: put(t.id, ('new',))
        for x in node_walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in s.consts and x.id not in done: put(x.id, ('new',))
        return facts if d is None else frozenset(d.items())

    def truth(s, t, facts):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = s.truth(t.operand, facts)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [s.truth(v, facts) for v in t.values]
            if isinstance(t.op, ast.And): return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        d = dict(facts)
        if isinstance(t, ast.Constant): return bool(t.value)
        if isinstance(t, ast.Name) and t.id in d:
            v = d[t.id]
            if v[0] == 'c': return bool(v[1])
            return True if s.consts[t.id] <= {None} else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, op = t.left, t.comparators[0], t.ops[0]
            if const(a) is not NOCONST: a, b = b, a
            k = const(b)
            if isinstance(a, ast.Name) and a.id in d and k is not NOCONST and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                v = d[a.id]
                if v[0] == 'c': same = v[1] is k or (v[1] == k and type(v[1]) is type(k))
                elif k in s.consts[a.id]: same = False
                else: return None
                return same if isinstance(op, (ast.Is, ast.Eq)) else not same
        return None


NOCONST = object()


def const(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (str, int, bool, type(None))): return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int): return -e.operand.value
    return NOCONST


def assigns(n):
    """(target, value) pairs of an assignment, tuple assignments taken apart"""
    if isinstance(n, ast.AnnAssign) and n.value is not None: yield n.target, n.value
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts): yield from zip(t.elts, n.value.elts)
                else:
                    for x in t.elts: yield x, None
            else: yield t, n.value


def is_count_check(n, K, f):
    """if COUNTED < EXPECTED: report"""
    t, st = n.ast, n.ast._parent
    if not (isinstance(t, ast.Compare) and isinstance(st, ast.If) and st.test is t): return False
    up = {x.target.id for x in own_nodes(f.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, ast.Add)}
    if not any(isinstance(x, ast.Name) and x.id in up for x in ast.walk(t)) or any(isinstance(x, ast.Constant) for x in ast.walk(t)): return False
    nodes = [m for m, l in n.succ if l is True]
    return any(K.reports(m, f) for m in nodes)


def empty_flags(f, v, made):
    """flags that tell if the book in v has any text: cleared where the book is made, set elsewhere, and nothing else"""
    vals, res = {}, set()
    for n in own_nodes(f.node):
        for t, val in assigns(n):
            if isinstance(t, ast.Name): vals.setdefault(t.id, []).append((const(val) if val is not None else NOCONST, n))
    makers = [n for n in own_nodes(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and made(n.value, f) and any(name_of(t) == v for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
    for k, ds in vals.items():
        if {c if c is NOCONST else (type(c), c) for c, _ in ds} != {(bool, True), (bool, False)}: continue
        off = [n for c, n in ds if c is False]; on = [n for c, n in ds if c is True]
        if makers and all(any(n._parent is m._parent for n in off) for m in makers) and all(any(isinstance(a, (ast.For, ast.While)) for a in ancestors(n)) for n in on): res.add(k)
    return res


def about(t, v):
    """'none': true if there is no book; 'some': true if there is a book (with content); 'empty': true if it has no content"""
    if name_of(t) == v: return 'some'
    if isinstance(t, ast.Attribute) and name_of(t.value) == v and t.attr in ('_rawLines', '_processedLines'): return 'some'
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len' and len(t.args) == 1: return about(t.args[0], v)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant):
        k = t.comparators[0].value
        if name_of(t.left) == v and k is None: return 'none' if isinstance(t.ops[0], (ast.Is, ast.Eq)) else 'some' if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) else None
        if k == 0 and about(t.left, v) == 'some': return 'empty' if isinstance(t.ops[0], (ast.Eq, ast.LtE)) else 'some' if isinstance(t.ops[0], (ast.Gt, ast.NotEq)) else None
    return None


def always_appends(p, K, g, report_ok=True, seen=()):
    """every normal path of g appends something to the lines of the book (or reports): an empty continuation line v~ has nothing that could be lost"""
    memo = K.__dict__.setdefault('appends', {})
    if (g, report_ok) in memo: return memo[g, report_ok]
    memo[g, report_ok] = False
    cfg = cfg_of(g)
    params = set(g.allparams)
    def tr(n, s): return [(True, s[1]) if s[0] or adds(p, K, n, g, seen + (g,)) or (report_ok and K.reports(n, g)) else s]
    def br(n, l, s):
        if l == 'exc': return None
        if n.kind == 'test' and l in (True, False) and not s[0]:
            if implies_empty(n.ast, l, None): s = (s[0], True)
            t = n.ast
            if s[1] and isinstance(t, ast.Compare) and len(t.ops) == 1 and const(t.comparators[0]) == 'v~' and isinstance(t.ops[0], ast.NotEq if l is False else ast.Eq): return True, True
        return s
    ins = flow(cfg, [(False, False)], tr, br)
    memo[g, report_ok] = bool(ins.get(cfg.exit)) and all(x[0] for x in ins[cfg.exit])
    return memo[g, report_ok]


def implies_empty(t, lab, names):
    """taking this branch means that a variable (one of names, if given) is empty"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return implies_empty(t.operand, not lab, names)
    if isinstance(t, ast.Name): return lab is False and (names is None or t.id in names)
    if isinstance(t, ast.BoolOp):
        vs = [v for v in t.values if not (names and is_none_test(v, names))]
        if isinstance(t.op, ast.And) is lab: return any(implies_empty(v, lab, names) for v in vs)      # all of them are so
        return bool(vs) and all(implies_empty(v, lab, names) for v in vs)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and (names is None or t.left.id in names) and const(t.comparators[0]) == '':
        return lab is isinstance(t.ops[0], ast.Eq)
    return False


def is_none_test(t, names):
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in names and const(t.comparators[0]) is None and isinstance(t.ops[0], (ast.IsNot, ast.NotEq))


LISTS = ('_rawLines', '_processedLines')


def adds(p, K, n, g, seen):
    """the node appends something to lines of the book"""
    for x in node_walk(n):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'insert', 'extend') and isinstance(x.func.value, ast.Attribute) and x.func.value.attr in LISTS: return True
            for c in p.callees(x, g, cha=False):
                if isinstance(c, Func) and c not in seen and (c.parent is not None or c.cls is g.cls) and len(seen) < 5 and always_appends(p, K, c, True, seen): return True
    return False


def body_paths(cfg, lp, start, step, end, branch=None):
    """follow each normal path through one turn of the loop; end(last node, state) at the way back or out"""
    inner = {id(x) for s in lp.body for x in ast.walk(s)}
    st, seen = [(m, start) for n in cfg.nodes if n.kind == 'forhead' and n.ast is lp for m, l in n.succ if l is True], set()
    n0 = len(st)
    while st:
        n, s = st.pop()
        if (n, s) in seen: continue
        seen.add((n, s))
        if n.ast is not None and id(n.ast) in inner: s = step(n, s)
        for m, l in n.succ:
            if l == 'exc': continue
            s1 = s
            if branch is not None and n.kind == 'test':
                s1 = branch(n, l, s)
                if s1 is None: continue
            if m is cfg.exit or (m.ast is not None and id(m.ast) not in inner): end(n, s1)
            else: st.append((m, s1))
    return n0


def lines(p, K, pl, counts):
    """the loop over the raw lines, and what is done with each"""
    res = []
    cfg = cfg_of(pl)
    loops = [n for n in own_nodes(pl.node) if isinstance(n, ast.For) and any(isinstance(x, ast.Attribute) and x.attr == '_rawLines' for x in ast.walk(n.iter))]
    found = False
    for lp in loops:
        if any(isinstance(x, (ast.Slice, ast.IfExp, ast.Lambda)) or (isinstance(x, ast.Call) and callname(x) in ('filter', 'islice', 'range')) or isinstance(x, ast.comprehension) and x.ifs for x in ast.walk(lp.iter)): continue
        bad = []
        def step(n, s): return s or adds(p, K, n, pl, (pl,)) or K.reports(n, pl)
        def end(n, s):
            if not s and not isinstance(n.ast, ast.Raise): bad.append(n.ast)
        if body_paths(cfg, lp, False, step, end):
            found = True
            counts['line functions'] += 1
            if bad: res.append((f'line:{pl.name}', lp, f'{pl.qual}: a raw line can be passed over without an entry and without a report'))
    if not found: res.append((f'line:{pl.name}:loop', pl.node, f'{pl.qual} does not work through all of the raw lines'))
    return res


def rewrites(p, K, f):
    """functions that replace the list of lines by a new one: every entry of the old one is carried over"""
    new = {}
    for n in own_nodes(f.node):
        for t, v in assigns(n):
            if isinstance(t, ast.Attribute) and t.attr in LISTS and isinstance(v, ast.Name): new.setdefault(v.id, t.attr)
    facts = Facts(f, p)
    cfg = cfg_of(f)
    for lp in [n for n in own_nodes(f.node) if isinstance(n, ast.For)]:
        it, tg = lp.iter, lp.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and it.args and isinstance(tg, ast.Tuple) and len(tg.elts) == 2: it, tg = it.args[0], tg.elts[1]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in LISTS: continue
        if not (isinstance(it, ast.Attribute) and it.attr in LISTS): continue
        names = [x.id for x in ast.walk(tg) if isinstance(x, ast.Name)]
        def mentions(e, ns): return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} >= set(ns)
        def puts(n, ns): return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'insert') and isinstance(x.func.value, ast.Name) and x.func.value.id in new and any(mentions(y, ns) for y in x.args) for x in node_walk(n))
        inner = [n for n in cfg.nodes if n.ast is not None and any(n.ast is y for s in lp.body for y in ast.walk(s))]
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'insert') and isinstance(x.func.value, ast.Name) and x.func.value.id in new for n in inner for x in node_walk(n)): continue
        # entries may be carried over to the next turn
        carried = None
        for n in inner:
            if n.kind == 'stmt' and isinstance(n.ast, ast.Assign):
                ps = [(t, v) for t, v in assigns(n.ast)]
                if len(ps) >= len(names) and all(isinstance(t, ast.Name) for t, v in ps) and {v.id for t, v in ps if isinstance(v, ast.Name)} >= set(names):
                    cs = [t.id for t, v in ps if isinstance(v, ast.Name) and v.id in names]
                    if any(puts(m, cs) for m in inner): carried = (n, cs)
        bad = []
        def step(n, s): return s or puts(n, names) or K.reports(n, f) or (carried is not None and n is carried[0])
        def end(n, s):
            if not s and not isinstance(n.ast, ast.Raise): bad.append(n)
        body_paths(cfg, lp, False, step, end, lambda n, l, s: None if facts.truth(n.ast, frozenset()) is (not l) else s)
        yield lp, 'an entry of the old list can be left out of the new one' if bad else None
        if carried:
            node, cs = carried
            lost = []
            def tr(n, s):
                if puts(n, cs): s = 'done'
                elif n is node:
                    if s == 'held': lost.append(n)
                    s = 'held'
                elif n.kind == 'stmt' and any(isinstance(t, ast.Name) and t.id in cs for t, v in assigns(n.ast)):
                    if s == 'held' : lost.append(n)
                    s = 'none'
                return [s]
            def br(n, l, s):
                if l == 'exc': return None
                if n.kind == 'test' and l in (True, False):
                    if s == 'held' and implies_empty(n.ast, l, cs): return 'blank'
                    if s == 'held' and is_none_test(n.ast, cs) and l is False: return None
                    if s == 'none' and l is True and (is_none_test(n.ast, cs) or (isinstance(n.ast, ast.BoolOp) and isinstance(n.ast.op, ast.And) and any(is_none_test(v, cs) for v in n.ast.values))): return None
                if n.kind == 'forhead' and n.ast is lp and l is True and s == 'start': return 'none'
                return s
            # only from this loop on
            ins = flow(cfg, ['start'], tr, br)
            if lost or 'held' in ins.get(cfg.exit, set()): yield lp, 'an entry that waits to be written can be dropped though it has text'


def run(p, r, tier):
    out, counts = decide(p)
    for k, n in counts.items(): r.count(k, n)
    for k, w, m in out: r.find(k, w, m)
    r.floor('books made', 35); r.floor('load methods', 40); r.floor('Bible classes', 25); r.floor('line functions', 2)
    r.floor('rewriting loops', 2)


_BASE = '''import logging
class InternalBibleBook:
  def __init__(self, b, BBB): self._rawLines=[]; self.BBB=BBB
  def addLine(self, m, t):
    if not m: logging.error('x')
    self._rawLines.append((m,t))
  def load(self, fn): self.addLine('id', fn)
  def processLines(self):
    self._processedLines=[]
    def one(m, t):
      if m=='v': self._processedLines.append((m,t)); return
      if not t:
        if m != 'v~': self._processedLines.append((m,t))
      else: self._processedLines.append((m,t))
    for m,t in self._rawLines: one(m,t)
class InternalBible:
  def __init__(self): self.books={}
  def stashBook(self, bk):
    if bk.BBB in self.books: logging.critical('again')
    self.books[bk.BBB]=bk
  def doPostLoadProcessing(self): self.loadedAllBooks=True
'''


def _st(src, want, base=_BASE):
    def t():
        p = Project.from_sources({'BibleOrgSys/I.py': base, 'BibleOrgSys/x.py': 'import logging\nfrom BibleOrgSys.I import InternalBible, InternalBibleBook\n' + src})
        got = sorted(k for k, _, _ in decide(p)[0])
        return (len(got) == len(want) and all(any(g.startswith(w) for g in got) for w in want)) or got
    return t


_SEQ = "class B(InternalBible):\n  def load(self, ls):\n    last=None\n    for BBB,t in ls:\n      if BBB!=last:\n        if last is not None%s: self.stashBook(bk)\n        bk=InternalBibleBook(self,BBB)\n        last=BBB\n      bk.addLine('v',t)\n    %s\n    self.doPostLoadProcessing()\n"
SELFTESTS = [
    ('sequence', _st(_SEQ % ('', 'if last is not None: self.stashBook(bk)'), [])),
    ('last book lost', _st(_SEQ % ('', 'pass'), ['book:B.load:bk:end'])),
    ('a book lost', _st(_SEQ % (' and len(ls)>9', 'if last is not None: self.stashBook(bk)'), ['book:B.load:bk:overwritten'])),
    ('one book', _st("class B(InternalBible):\n  def loadBook(self, BBB):\n    bk=InternalBibleBook(self,BBB)\n    bk.load('x')\n    if bk._rawLines: self.stashBook(bk)\n    else: logging.info('empty')\n", [])),
    ('one book lost', _st("class B(InternalBible):\n  def loadBook(self, BBB):\n    bk=InternalBibleBook(self,BBB)\n    bk.load('x')\n    if BBB!='GLS': self.stashBook(bk)\n", ['book:B.loadBook:bk:end'])),
    ('reported', _st("class B(InternalBible):\n  def loadBook(self, BBB):\n    bk=InternalBibleBook(self,BBB)\n    bk.load('x')\n    if BBB=='GLS': logging.error('no'); return\n    self.keep(bk)\n  def keep(self, b): self.stashBook(b)\n", [])),
    ('kept by nobody', _st("class B(InternalBible):\n  def loadBook(self, BBB):\n    bk=InternalBibleBook(self,BBB)\n    bk.load('x')\n    self.keep(bk)\n  def keep(self, b):\n    if b.BBB: self.stashBook(b)\n", ['book:B.loadBook:bk:end'])),
    ('text flag', _st("class B(InternalBible):\n  def loadBook(self, BBB):\n    bk=InternalBibleBook(self,BBB)\n    have=False\n    for t in self.ls:\n      if t: have=True\n      bk.addLine('v',t)\n    if have: self.stashBook(bk)\n", [])),
    ('other flag', _st("class B(InternalBible):\n  def loadBook(self, BBB, have):\n    bk=InternalBibleBook(self,BBB)\n    for t in self.ls: bk.addLine('v',t)\n    if have: self.stashBook(bk)\n", ['book:B.loadBook:bk:end'])),
    ('dropped', _st("class B(InternalBible):\n  def one(self, BBB):\n    bk=InternalBibleBook(self,BBB)\n    bk.load('x')\n    return bk\n  def loadBook(self,BBB):\n    self.one(BBB)\n", ['book:B.loadBook:unused'])),
    ('post-load', _st("class B(InternalBible):\n  def load(self):\n    if not self.files: logging.critical('none'); return\n    for f in self.files: self.loadBook(f)\n    self.doPostLoadProcessing()\n", [])),
    ('post-load delegated', _st("class B(InternalBible):\n  def load(self): self.loadBooks()\n  def loadBooks(self):\n    self.finish()\n  def finish(self): self.doPostLoadProcessing()\n", [])),
    ('post-load skipped', _st("class B(InternalBible):\n  def load(self):\n    if not self.files: return\n    self.doPostLoadProcessing()\n", ['load:B.load'])),
    ('preload failed', _st("class B(InternalBible):\n  def preload(self):\n    if not self.files:\n      logging.critical('none')\n      return\n    self.ready=True\n  def load(self):\n    if not self.ready: self.preload()\n    if not self.ready: return\n    self.doPostLoadProcessing()\n", [])),
    ('preload failed silently', _st("class B(InternalBible):\n  def preload(self):\n    if not self.files:\n      return\n    self.ready=True\n  def load(self):\n    if not self.ready: self.preload()\n    if not self.ready: return\n    self.doPostLoadProcessing()\n", ['load:B.load'])),
    ('addLine', _st('', ['line:addLine'], _BASE.replace("if not m: logging.error('x')", "if not t: return"))),
    ('processLines drops a line', _st('', ['line:processLines'], _BASE.replace("if m != 'v~'", "if m not in ('v~','b')"))),
    ('processLines skips a line', _st('', ['line:processLines'], _BASE.replace("for m,t in self._rawLines: one(m,t)", "for m,t in self._rawLines:\n      if m!='rem': one(m,t)"))),
    ('processLines skips the first', _st('', ['line:processLines:loop'], _BASE.replace("in self._rawLines: one", "in self._rawLines[1:]: one"))),
    ('rewrite', _st("class K(InternalBibleBook):\n  def f(self):\n    new=[]\n    for j,e in enumerate(self._processedLines):\n      if j: new.append(e)\n      else:\n        new.append(0)\n        new.append(e)\n    self._processedLines=new\n", [])),
    ('rewrite loses', _st("class K(InternalBibleBook):\n  def f(self):\n    new=[]\n    for j,e in enumerate(self._processedLines):\n      if j: new.append(e)\n    self._processedLines=new\n", ['rewrite:K.f'])),
    ('rewrite carried', _st("class K(InternalBibleBook):\n  def f(self):\n    new=[]\n    lm=lt=None\n    for m,t in self._rawLines:\n      if lm=='p' and not lt: lm=None\n      if lm is not None: new.append((lm,lt))\n      lm,lt=m,t\n    if lm is not None: new.append((lm,lt))\n    self._rawLines=new\n", [])),
    ('rewrite carried loses', _st("class K(InternalBibleBook):\n  def f(self):\n    new=[]\n    lm=lt=None\n    for m,t in self._rawLines:\n      if lm=='p': lm=None\n      if lm is not None: new.append((lm,lt))\n      lm,lt=m,t\n    if lm is not None: new.append((lm,lt))\n    self._rawLines=new\n", ['rewrite:K.f'])),
    ('rewrite carried loses the last', _st("class K(InternalBibleBook):\n  def f(self):\n    new=[]\n    lm=lt=None\n    for m,t in self._rawLines:\n      if lm is not None: new.append((lm,lt))\n      lm,lt=m,t\n    self._rawLines=new\n", ['rewrite:K.f'])),
]
