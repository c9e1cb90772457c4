"""Flow-sensitive ownership of containers: which expressions denote (part of) a protected object, and where one is changed in place.

Levels: 0 the expression may denote a protected container (or a container inside one); n a fresh container that has protected ones at
depth n; None neither.
Join over paths (may-analysis); summaries of callees on demand: what a function returns by itself, which of its parameters it returns
(as at which depth), which of its parameters it changes in place, and which it stores in attributes."""
from __future__ import annotations
import ast
from common import *

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
            'appendleft', 'popleft', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', 'move_to_end'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed', 'OrderedDict', 'filter', 'deque', 'defaultdict', 'Counter'}
ITERS = {'enumerate', 'zip', 'iter', 'map', 'chain'}
OUTSIDE = {'random.shuffle', 'shuffle', 'heapq.heapify', 'heapify', 'heapq.heappush', 'heappush', 'heapq.heappop', 'heappop', 'bisect.insort', 'insort', 'bisect.insort_left', 'bisect.insort_right',
           'operator.setitem', 'operator.delitem', 'operator.iadd', 'operator.ior', 'setitem', 'delitem'}


def outside_mutator(e):
    """a function of Python itself that changes its first argument in place"""
    t = ast.unparse(e)
    return t in OUTSIDE or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('list', 'dict', 'set', 'OrderedDict', 'Counter') and e.attr in MUTATORS | {'__setitem__', '__delitem__'}


IMMUTABLE_CALLS = {'len', 'str', 'int', 'float', 'bool', 'repr', 'sum', 'join', 'isinstance', 'any', 'all', 'range', 'type', 'id', 'hash', 'abs'}


DEEP = 3


def mx(*l):
    l = [x for x in l if x is not None]
    return min(l) if l else None


def held(*l):
    """level of a fresh container of things of these levels"""
    x = mx(*l)
    return None if x is None else min(x + 1, DEEP)


def elem(l): return None if l is None else max(l - 1, 0)


def fresh(l): return None if l is None else max(l, 1)


def join(a, b):
    """least upper bound of two environments; None = unreachable"""
    if a is None: return b
    return {k: mx(a.get(k), b.get(k)) for k in set(a) | set(b)}


STRINGY = {'keys', 'split', 'replace', 'strip', 'lower', 'upper', 'index', 'count', 'popitem', 'format', 'startswith', 'endswith', 'find'}


def immutable_annotation(a):
    """-> str, -> int|None ..."""
    if a is None: return False
    def plain(x):
        if isinstance(x, ast.Constant): return x.value is None
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr): return plain(x.left) and plain(x.right)
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == 'Optional': return plain(x.slice)
        return isinstance(x, ast.Name) and x.id in ('str', 'int', 'bool', 'float', 'bytes')
    return plain(a)


def is_none(e): return isinstance(e, ast.Constant) and e.value is None


def default_of(c, q):
    a = c.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d.get(q)


def tested_name(t):
    """(name, truth of 'the name is None' when the test is true)"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and is_none(t.comparators[0]):
        if isinstance(t.ops[0], (ast.Is, ast.Eq)): return t.left.id, True
        if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)): return t.left.id, False
    return None, None


def none_tested(c):
    if not hasattr(c, '_none_tested'):
        names = {tested_name(n)[0] for n in own_nodes(c.node) if isinstance(n, ast.Compare)} - {None}
        written = {n.id for n in own_nodes(c.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        c._none_tested = {q for q in c.allparams if q in names and q not in written}
    return c._none_tested


def contradicts(test, label, ctx):
    q, truth = tested_name(test)
    if q not in ctx: return False
    isnone = (truth == label)
    return isnone != (ctx[q] is None)


class Alias:
    def __init__(s, p, root, skip=lambda f: False, known=None):
        """root(expr, f) -> level if the expression by itself denotes a protected container (e.g. self.__table)"""
        s.p, s.root, s.skip = p, root, skip
        s.attrs = {}         # (cls qual, attr) -> level: further attributes that hold a protected container
        s.ret = {}           # func -> level returned whatever the arguments
        s.psum = {}          # (func, param) -> dict(ret, mut)
        s.cal = {}
        s.evaluated = 0

    def callees(s, e, f):
        k = id(e)
        if k not in s.cal:
            out = []
            for c in s.p.callees(e, f, cha=True):
                if isinstance(c, Cls): c = s.p.find_method(c, '__init__')
                if isinstance(c, Func) and not s.skip(c): out.append(c)
            s.cal[k] = out
        return s.cal[k]

    # ---- level of an expression
    def level(s, e, f, env):
        if e is None: return None
        if s.useroots:
            r = s.root(e, f)
            if r is not None: return r
        if isinstance(e, ast.Name): return env.get(e.id)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and f.cls is not None:
                if ('self.' + e.attr) in env: return env['self.' + e.attr]
                if s.useroots:
                    for k in s.p.mro(f.cls):
                        if (k.qual, e.attr) in s.attrs: return s.attrs[(k.qual, e.attr)]
            return None
        if isinstance(e, ast.Subscript):
            l = s.level(e.value, f, env)
            return fresh(l) if isinstance(e.slice, ast.Slice) else elem(l)
        if isinstance(e, ast.IfExp): return mx(s.level(e.body, f, env), s.level(e.orelse, f, env))
        if isinstance(e, ast.BoolOp): return mx(*(s.level(v, f, env) for v in e.values))
        if isinstance(e, (ast.NamedExpr, ast.Await, ast.Starred)): return s.level(e.value, f, env)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)): return held(*(s.level(x, f, env) if not isinstance(x, ast.Starred) else elem(s.level(x.value, f, env)) for x in e.elts))
        if isinstance(e, ast.Dict): return held(*(s.level(x, f, env) for x in e.values))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators: s.bind(g.target, s.inner(g.iter, f, env2), env2)
            return held(s.level(e.value if isinstance(e, ast.DictComp) else e.elt, f, env2))
        if isinstance(e, ast.BinOp):
            return None if isinstance(e.op, ast.Mod) else fresh(mx(s.level(e.left, f, env), s.level(e.right, f, env)))
        if isinstance(e, ast.Call):
            n = callname(e)
            if n == 'deepcopy' or n in IMMUTABLE_CALLS: return None
            if isinstance(e.func, ast.Attribute):
                b = s.level(e.func.value, f, env)
                if b is not None:
                    if n in ('get', 'setdefault', 'pop', '__getitem__'): return mx(elem(b), *(s.level(a, f, env) for a in e.args[1:]))
                    if n in ('values', 'copy', 'union', 'intersection', 'difference'): return fresh(b)
                    if n == 'items': return held(fresh(b))
                    if n in STRINGY: return None
                if n == 'copy' and e.args: return fresh(s.level(e.args[0], f, env))
            elif n in SHALLOW: return fresh(mx(*(s.level(a, f, env) for a in e.args)))
            elif n in ITERS - {'map', 'iter', 'chain'}: return held(fresh(mx(*(s.level(a, f, env) for a in e.args))))
            elif n in ('iter', 'chain'): return fresh(mx(*(s.level(a, f, env) for a in e.args)))
            elif n == 'next' or (n in ('min', 'max') and len(e.args) == 1): return elem(mx(*(s.level(a, f, env) for a in e.args[:1])))
            elif n in ('min', 'max'): return mx(*(s.level(a, f, env) for a in e.args))
            lv = None
            for c in s.callees(e, f):
                if s.useroots and s.ret.get(c) is not None: lv = mx(lv, s.given(e, c, f))
                for q, a in arg_map(e, c).items():
                    l = s.level(a, f, env)
                    if l is not None: lv = mx(lv, s.param(c, q, l)['ret'])
            return lv
        return None

    def inner(s, it, f, env):
        """level of the things that iterating over it gives"""
        return elem(s.level(it, f, env))

    def bind(s, t, lv, env):
        if isinstance(t, ast.Name): env[t.id] = lv
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: s.bind(x.value if isinstance(x, ast.Starred) else x, elem(lv), env)

    useroots = True

    # ---- one function: reports each in-place change of a protected object
    def scan(s, f, found, init=None, ctx=None):
        cfg = cfg_of(f)
        out = {'ret': None, 'stores': []}
        plain = immutable_annotation(getattr(f.node, "returns", None))
        s.evaluated += 1

        def visit(n, env, report):
            fnd = found if report else (lambda *a: None)
            for e in node_walk(n):
                if isinstance(e, ast.Call):
                    if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS and s.level(e.func.value, f, env) == 0: fnd(e, f, f'.{e.func.attr}()')
                    if e.args and outside_mutator(e.func) and s.level(e.args[0], f, env) == 0: fnd(e, f, f'given to {ast.unparse(e.func)}()')
                    if report:
                        for c in s.callees(e, f):
                            if c.parent is f or c.parent is not None and c.parent is f.parent:
                                for q, l in env.items():        # what a nested function does with what it sees of this one
                                    if l is not None and '.' not in q and q not in c.allparams and q not in s.p.locals_of(c):
                                        m = s.param(c, q, l)['mut']
                                        if m is not None: fnd(e, f, f'seen by {c.name}(), which changes it ({m})')
                            for q, a in arg_map(e, c).items():
                                l = s.level(a, f, env)
                                if l is not None:
                                    m = s.param(c, q, l)['mut']
                                    if m is not None: fnd(e, f, f'given to {c.name}(), which changes it ({m})')
                elif isinstance(e, ast.Attribute) and e.attr in MUTATORS and not (isinstance(getattr(e, '_parent', None), ast.Call) and e._parent.func is e) and isinstance(e.ctx, ast.Load) and s.level(e.value, f, env) == 0: fnd(e, f, f'.{e.attr} taken as a function')
                elif isinstance(e, ast.NamedExpr): s.bind(e.target, s.level(e.value, f, env), env)
            a = n.ast
            if n.kind == 'forhead':
                target(a.target, s.inner(a.iter, f, env), a, env, fnd, report)
            elif n.kind == 'return':
                out['ret'] = mx(out['ret'], s.level(a.value, f, env))
            elif n.kind != 'stmt': pass
            elif isinstance(a, ast.Assign):
                lv = s.level(a.value, f, env)
                for t in a.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(a.value, (ast.Tuple, ast.List)) and len(t.elts) == len(a.value.elts):
                        lvs = [s.level(v, f, env) for v in a.value.elts]
                        for x, l in zip(t.elts, lvs): target(x, l, a, env, fnd, report)
                    else: target(t, lv, a, env, fnd, report)
            elif isinstance(a, ast.AnnAssign):
                if a.value is not None: target(a.target, s.level(a.value, f, env), a, env, fnd, report)
            elif isinstance(a, ast.AugAssign):
                if isinstance(a.target, ast.Subscript):
                    if s.level(a.target.value, f, env) == 0: fnd(a, f, 'item changed')
                elif s.level(a.target, f, env) == 0:
                    if isinstance(a.value, (ast.List, ast.ListComp, ast.Set, ast.Dict, ast.SetComp, ast.DictComp)) or isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id in ('list', 'sorted', 'set', 'dict', 'reversed', 'filter', 'map', 'zip', 'enumerate') or s.level(a.value, f, env) is not None or isinstance(a.op, (ast.BitOr, ast.BitAnd)):
                        fnd(a, f, 'extended in place')
            elif isinstance(a, ast.Delete):
                for t in a.targets:
                    if isinstance(t, ast.Subscript) and s.level(t.value, f, env) == 0: fnd(a, f, 'item deleted')
                    elif isinstance(t, ast.Name): env[t.id] = None
            elif isinstance(a, ast.Expr) and isinstance(a.value, (ast.Yield, ast.YieldFrom)) and a.value.value is not None:
                l = s.level(a.value.value, f, env)
                out['ret'] = mx(out['ret'], held(l) if isinstance(a.value, ast.Yield) else fresh(l))
            # what is put into a local container
            if n.kind == 'stmt' and isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) \
                    and a.value.func.attr in ('append', 'add', 'extend', 'insert', 'update', 'setdefault') and isinstance(a.value.func.value, ast.Name):
                l = mx(*(s.level(x, f, env) for x in a.value.args))
                k = a.value.func.value.id
                env[k] = mx(env.get(k), fresh(l) if a.value.func.attr in ('extend', 'update') else held(l))

        def target(t, lv, a, env, fnd, report):
            if isinstance(t, ast.Subscript):
                if s.level(t.value, f, env) == 0: fnd(a, f, 'item assigned')
                elif isinstance(t.value, ast.Name): env[t.value.id] = mx(env.get(t.value.id), held(lv))
            elif isinstance(t, ast.Attribute):
                if isinstance(t.value, ast.Name) and t.value.id == 'self': env['self.' + t.attr] = lv
                if report: out['stores'].append((t, lv))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts: target(x.value if isinstance(x, ast.Starred) else x, elem(lv), a, env, fnd, report)
            else: s.bind(t, lv, env)

        ins = {cfg.entry: dict(init or {})}
        work = [cfg.entry]
        order = {n: i for i, n in enumerate(cfg.nodes)}
        inq = {cfg.entry}
        while work:
            work.sort(key=lambda n: -order[n])
            n = work.pop(); inq.discard(n)
            env = dict(ins[n])
            visit(n, env, False)
            for t, l in n.succ:
                if ctx and n.kind == 'test' and l in (True, False) and contradicts(n.ast, l, ctx): continue
                e2 = env if l != 'exc' else join(env, ins[n])
                old = ins.get(t)
                new = join(old, e2)
                if new != old:
                    ins[t] = new
                    if t not in inq: inq.add(t); work.append(t)
        for n, env in ins.items(): visit(n, dict(env), True)
        if plain: out['ret'] = None
        return out

    # ---- summaries
    def given(s, call, c, f):
        """what c returns at this call: branches for an argument that was not given are left out when it is given, and the reverse"""
        am = arg_map(call, c)
        ctx = {}
        starred = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
        for q in none_tested(c):
            a = am.get(q)
            if a is None and not starred and is_none(default_of(c, q)): ctx[q] = None
            elif a is None: pass
            elif is_none(a): ctx[q] = None
            elif isinstance(a, (ast.List, ast.Dict, ast.ListComp, ast.JoinedStr)) or isinstance(a, ast.Constant): ctx[q] = 'given'
            elif isinstance(a, ast.Name) and a.id in f.allparams and is_none(default_of(f, a.id)): pass
            else: ctx[q] = 'given'
        if not ctx: return s.ret.get(c)
        k = (c, tuple(sorted(ctx.items(), key=str)), s.ret.get(c))
        if k not in s.psum:
            s.psum[k] = None
            s.psum[k] = s.scan(c, lambda *a: None, ctx=ctx)['ret']
        return s.psum[k]

    def param(s, c, q, l=0):
        """what function c does with something of level l given as parameter q"""
        k = (c, q, l)
        if k in s.psum: return s.psum[k]
        s.psum[k] = {'ret': None, 'mut': None}
        a = c.node.args
        if any(x.arg == q and immutable_annotation(x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs): return s.psum[k]
        if q in ('self', 'cls') or not any(isinstance(n, ast.Name) and n.id == q for n in own_nodes(c.node)): return s.psum[k]
        save, s.useroots = s.useroots, False
        hits = []
        o = s.scan(c, lambda e, f, w: hits.append(f'{where_of(f, e)} {w}'), {q: l})
        s.useroots = save
        s.psum[k] = {'ret': o['ret'], 'mut': hits[0] if hits else None}
        return s.psum[k]

    def names_in(s, f):
        if not hasattr(f, '_alias_names'):
            f._alias_names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in own_nodes(f.node) if isinstance(n, (ast.Attribute, ast.Name))}
        return f._alias_names

    def concerned(s, f, rootnames):
        return bool(s.names_in(f) & (rootnames | {a for _, a in s.attrs} | {g.name for g in s.ret}))

    def solve(s, funcs, rootnames, rounds=6):
        """which functions return protected containers, and which attributes come to hold them"""
        funcs = list(funcs)
        for _ in range(rounds):
            changed = False
            for f in funcs:
                if not s.concerned(f, rootnames): continue
                o = s.scan(f, lambda *a: None)
                if o['ret'] is not None and mx(s.ret.get(f), o['ret']) != s.ret.get(f) and f.name != '__init__':
                    s.ret[f] = mx(s.ret.get(f), o['ret']); changed = True
                for t, lv in o['stores']:
                    if lv is not None and isinstance(t.value, ast.Name) and t.value.id == 'self' and f.cls is not None:
                        k = (f.cls.qual, t.attr)
                        if mx(s.attrs.get(k), lv) != s.attrs.get(k): s.attrs[k] = mx(s.attrs.get(k), lv); changed = True
            if not changed: break


def where_of(f, e): return f'{f.qual.split(".", 1)[-1]}'
