"""C21: a collection is not added to or removed from while it is being gone through.

For every for loop (and comprehension) of the library over a variable or attribute, or over its keys/values/items, enumerate/zip/reversed/iter/filter/map of it:
rule: no statement of the body after which the loop goes round again adds to or removes from that collection - by a method (append, remove,
pop, insert, extend, clear, add, discard, update, popitem, setdefault, sort, reverse), del, or storing under another key of a dictionary -
directly, through another name of the collection, or in a function or method of the library that the body calls. A loop over a copy (list(x), x.copy(),
x[:], sorted(x)) is free, and so is a change after which the loop is left or the name stands for another collection."""
from common import *
from kinds import Kinds

RULE = __doc__
ASSUMPTIONS = ['callees are resolved by type', 'two names hold the same collection if one was assigned to the other in the function']
SHRINK = {'append', 'pop', 'insert', 'remove', 'extend', 'add', 'discard', 'update', 'clear', 'sort', 'reverse', 'popitem', 'setdefault', 'popleft', 'appendleft', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'move_to_end'}
VIEWS = {'keys', 'values', 'items'}
LAZY = {'enumerate', 'zip', 'reversed', 'iter', 'filter', 'map'}


def gone_through(e, f, p):
    """[(collection expression, is it certainly a dictionary)] that a for loop goes through"""
    if isinstance(e, (ast.Name, ast.Attribute)): return [(e, False)] if dotted(e) else []
    if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice): return [(e, False)]
    if isinstance(e, ast.NamedExpr): return gone_through(e.value, f, p)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS and not e.args: return [(e.func.value, True)]
        if isinstance(e.func, ast.Name) and e.func.id in LAZY and not p.is_local(e.func.id, f):
            return [x for a in e.args for x in gone_through(a, f, p)]
    if isinstance(e, ast.IfExp): return gone_through(e.body, f, p) + gone_through(e.orelse, f, p)
    return []


def targets(a): return a.targets if isinstance(a, ast.Assign) else [a.target] if a.value is not None else []


def text(e):
    return ast.unparse(e)


class Change:
    def __init__(s, p): s.p = p; s.K = Kinds(p); s.memo = {}

    def aliases(s, f, t, head):
        """other names of the collection when the loop starts"""
        out = {t}; back = set(); st = [head]
        while st:
            n = st.pop()
            if n in back: continue
            back.add(n); st += [q for q, l in n.pred]
        before = set()
        for a in [n for n in back if isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, (ast.Name, ast.Attribute, ast.Subscript))]:
            ns = {text(t) for t in a.ast.targets} | {text(a.ast.value)}; seen = set(); st = [t for t, l in a.succ]
            while st:
                n = st.pop()
                if n is head: before.add(a.ast); break
                if n in seen or n not in back: continue
                seen.add(n)
                if isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and n.kind == 'stmt' and ns & {text(y) for t in targets(n.ast) for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts)}: continue
                st += [t for t, l in n.succ]
        for _ in range(3):
            for x in own_nodes(f.node):
                if x in before and isinstance(x.value, (ast.Name, ast.Attribute, ast.Subscript)):
                    for q in x.targets:
                        if isinstance(q, (ast.Name, ast.Attribute)):
                            a, b = text(x.value), text(q)
                            if a in out and isinstance(q, ast.Name) and s.single(f, q.id): out.add(b)
                            if b in out and isinstance(x.value, ast.Name) and isinstance(q, ast.Attribute): out.add(a)
                            if b in out and isinstance(q, ast.Name) and s.single(f, q.id): out.add(a)
        return out

    def single(s, f, nm): return sum(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in own_nodes(f.node)) == 1 and nm not in f.allparams

    def changes(s, n, f, names, isdict, key, depth=0):
        """the node changes the number of things in the collection: a description"""
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, ast.Delete):
            for t in a.targets:
                if isinstance(t, ast.Subscript) and text(t.value) in names: return f'{text(a)}'
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AugAssign)):
            for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(y, ast.Subscript) and text(y.value) in names:
                        if isinstance(y.slice, ast.Slice): return text(y) + ' = …'
                        if isdict and isinstance(a, ast.Assign) and text(y.slice) not in key and not s.present(n, f, y): return text(y) + ' = …'
                    if isinstance(a, ast.AugAssign) and text(y) in names and isinstance(a.op, ast.Add) and not isinstance(y, ast.Subscript):
                        k = set(s.K.of(y, f) or ())
                        if k == {'list'}: return text(y) + ' += …'
        for x in node_walk(n):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr in SHRINK and text(x.func.value) in names and x.func.attr not in ('update', 'setdefault'): return text(x.func) + '(…)'
                if isinstance(x.func, ast.Attribute) and x.func.attr in ('update', 'setdefault') and text(x.func.value) in names and not (x.args and text(x.args[0]) in key): return text(x.func) + '(…)'
                if depth < 3:
                    for g in s.p.callees(x, f, cha=False):
                        if not isinstance(g, Func): continue
                        w = s.inner(g, x, f, names, isdict, depth+1)
                        if w: return f'{text(x.func)}(…), in which {g.short} does {w}'
        return None

    def present(s, n, f, sub):
        """the store happens only where the key was found to be there"""
        for a in ancestors(n.ast):
            if isinstance(a, ast.If) and any(isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.In) and text(c.left) == text(sub.slice) and text(c.comparators[0]) == text(sub.value) for c in ast.walk(a.test)) and n.ast in list(ast.walk(ast.Module(a.body, []))): return True
        return False

    def inner(s, g, call, f, names, isdict, depth):
        """what the called function does to the collection: through its own object, a parameter or a variable it shares"""
        inside = set()
        am = arg_map(call, g)
        for k, v in am.items():
            if v is not None and text(v) in names: inside.add(k)
        if g.cls is not None and g.params and not g.is_static and isinstance(call.func, ast.Attribute):
            base = text(call.func.value)
            for t in names:
                if t.startswith(base + '.'): inside.add(g.params[0] + t[len(base):])
        if g.parent is not None:
            loc = s.p.locals_of(g)
            inside |= {t for t in names if t.split('.')[0].split('[')[0] not in loc}
        if not inside: return None
        k = (g, frozenset(inside), isdict)
        if k not in s.memo:
            s.memo[k] = None
            c = cfg_of(g); live = reachable(c.entry)
            rebound = set()
            for n in live:
                if n.kind in ('stmt', 'foriter', 'test', 'return', 'with_enter'):
                    if n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and any(text(t) in inside for t in n.ast.targets): rebound |= {text(t) for t in n.ast.targets}
            for n in sorted(live, key=lambda n: n.id):
                left = inside - rebound
                if not left: break
                w = s.changes(n, g, left, isdict, set(), depth)
                if w: s.memo[k] = w; break
        return s.memo[k]


def decide(p, r):
    C = Change(p)
    for f in p.functions(demo=False):
        loops = [x for x in own_nodes(f.node) if isinstance(x, (ast.For, ast.AsyncFor))]
        if not loops: continue
        c = cfg_of(f); live = reachable(c.entry)
        for h in c.nodes:
            if h.kind != 'forhead' or h not in live: continue
            L = h.ast; cols = gone_through(L.iter, f, p)
            if not cols: continue
            inside = {id(x) for b in L.body for x in ast.walk(b)}
            for col, isd in cols:
                r.count('loops over collections')
                names = C.aliases(f, text(col), h)
                k = set(C.K.of(col, f) or ())
                isdict = isd or k == {'dict'}
                keys = set()
                if isd and L.iter is not None:
                    t = L.target
                    if isinstance(L.iter, ast.Call) and isinstance(L.iter.func, ast.Attribute) and L.iter.func.attr == 'items' and isinstance(t, ast.Tuple): keys = {text(t.elts[0])}
                    elif isinstance(L.iter, ast.Call) and isinstance(L.iter.func, ast.Attribute) and L.iter.func.attr == 'keys': keys = {text(t)}
                else: keys = {text(L.target)}
                # nodes of the body, from the head; stop where the collection gets another value
                seen = set(); st = [t for t, l in h.succ if l is True]; hits = []
                while st:
                    n = st.pop()
                    if n in seen or n is h or n.ast is None or id(n.ast) not in inside: continue
                    seen.add(n)
                    if n.kind == 'stmt' and isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and any(text(y) in names for t in targets(n.ast) for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts)): continue
                    w = C.changes(n, f, names, isdict, keys)
                    if w: hits.append((n, w))
                    st += [t for t, l in n.succ]
                for n, w in hits:
                    back = set(); st = [t for t, l in n.succ if l != 'exc']; again = False
                    while st and not again:
                        q = st.pop()
                        if q is h: again = True; break
                        if q in back or q.ast is None or id(q.ast) not in inside: continue
                        back.add(q); st += [t for t, l in q.succ]
                    if again: r.find(f'{f.module.rel}:{f.short}:{text(col)[:50]}:{w[:60]}', f.where(n.ast), f'{f.short} goes on through {text(col)[:50]} after {w} (loop at line {L.lineno})')


def run(p, r, tier):
    decide(p, r)
    r.floor('loops over collections', 300)


class _R:
    def __init__(s): s.k = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, *a): pass


def _st(body, want):
    def t():
        p = Project.from_sources({'BibleOrgSys/a.py': body}); r = _R(); decide(p, r)
        return not r.k if not want else bool(r.k)
    return t


SELFTESTS = [
    ('remove', _st('def f(L):\n    for x in L:\n        if x: L.remove(x)\n', True)),
    ('remove and leave', _st('def f(L):\n    for x in L:\n        if x: L.remove(x); break\n', False)),
    ('copy', _st('def f(L):\n    for x in list(L):\n        if x: L.remove(x)\n', False)),
    ('sliced copy', _st('def f(L):\n    for x in L[:]:\n        if x: L.remove(x)\n', False)),
    ('del of a key', _st('def f(d):\n    for k in d:\n        if not k: del d[k]\n', True)),
    ('items', _st('def f(d):\n    for k,v in d.items():\n        if not v: d.pop(k)\n', True)),
    ('same key', _st('def f(d):\n    for k,v in d.items(): d[k] = v+1\n', False)),
    ('another key', _st('def f(d):\n    for k,v in d.items(): d[v] = k\n', True)),
    ('another key that is there', _st('def f(d):\n    for k,v in d.items():\n        if v in d: d[v] = k\n', False)),
    ('enumerate', _st('class B:\n    def f(self):\n        for i,x in enumerate(self.L):\n            if x: self.L.pop(i)\n', True)),
    ('in a method', _st('class B:\n    def f(self):\n        for x in self.L:\n            if x: self.g(x)\n    def g(self, x): self.L.append(x)\n', True)),
    ('in a method, another list', _st('class B:\n    def f(self):\n        for x in self.L:\n            if x: self.g(x)\n    def g(self, x): self.M.append(x)\n', False)),
    ('in a function', _st('def g(q): q.append(1)\ndef f(L):\n    for x in L: g(L)\n', True)),
    ('alias', _st('class B:\n    def f(self):\n        L = self.lines\n        for x in self.lines: L.append(x)\n', True)),
    ('alias made afterwards', _st('class B:\n    def f(self):\n        L = []\n        for x in self.lines: L.append(x)\n        self.lines = L\n', False)),
    ('alias of another list', _st('class B:\n    def f(self):\n        L:list = []\n        for x in self.lines: L.append(x)\n        self.lines = L\n        L:list = []\n        for x in self.lines: L.append(x)\n        self.lines = L\n', False)),
    ('other list', _st('def f(L):\n    M = []\n    for x in L: M.append(x)\n', False)),
    ('replaced', _st('def f(L):\n    for x in L:\n        L = sorted(L)\n        L.append(x)\n', False)),
]
