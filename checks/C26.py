"""C26: several processes do the same work as one, and give the same result.

Rule, for every function of the library that hands work to a pool of processes (and is not only about exports, see C02). All its normal paths
are evaluated symbolically, with the worker in line for the item that it is given, and the paths that use the pool are compared with those
that do not, wherever their conditions do not contradict:
 - the same work list, in the same order, each item's result used for that item;
 - for each item the same objects made, the same methods called on them with the same values in the same order, and the result kept (stashed,
   stored, returned) under the same conditions; an item for which the worker may give nothing is not used as if it were something;
 - what a worker stores in its own copy of the object is lost, so the parent does it, or nothing depends on it (BOOKKEEPING);
 - a pool is only made when the program is not already inside one, by a worker that can be sent to another process and takes what it is given."""
from common import *
from cfg import *
from project import *
from symex import SymEx, St, defaults

RULE = __doc__
ASSUMPTIONS = ['normal paths only: what happens after an exception is not compared', 'loops over the work list are evaluated for one (any) item',
               'a book was not tried and failed before (triedLoadingBook)']
# only notes which loads were attempted; a lost note costs another attempt with the same outcome
BOOKKEEPING = {'triedLoadingBook', 'bookNeedsReloading', 'alreadyMultiprocessing', 'containerBibleObject', 'XMLTree', 'availableBBBs'}
EXEMPT = {'doAllExports'}   # decided by C02
POOLS = {'map', 'imap', 'starmap', 'map_async', 'starmap_async', 'imap_unordered'}
MUTATORS = {'append', 'add', 'update', 'remove', 'extend', 'pop', 'insert', 'clear', 'discard', 'setdefault', 'sort', 'reverse', 'popitem'}
QUIET = {'vPrint', 'dPrint', 'fnPrint', 'print', 'rPrint'}


def mentions(v, what):
    if isinstance(v, tuple): return any(mentions(x, what) for x in v)
    return v == what if isinstance(v, str) else False


def has(v, pred):
    if not isinstance(v, tuple): return False
    return pred(v) or any(has(x, pred) for x in v)


def pool_calls(f, p):
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in POOLS and n.args:
            r = n.func.value
            if isinstance(r, ast.Name):
                for m in own_nodes(f.node):
                    src = None
                    if isinstance(m, ast.withitem) and isinstance(m.optional_vars, ast.Name) and m.optional_vars.id == r.id: src = m.context_expr
                    if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in m.targets): src = m.value
                    if isinstance(src, ast.Call) and callname(src) in ('Pool', 'ThreadPool', 'ProcessPoolExecutor'): out.append(n); break
            elif isinstance(r, ast.Call) and callname(r) in ('Pool', 'ProcessPoolExecutor'): out.append(n)
    return out


class Work(SymEx):
    def __init__(s, p, f):
        s.f0 = f; s.bad = []; s.inworker = 0
        super().__init__(p, opaque=s.is_opaque, maxdepth=6, limit=3000)
        s.sizes = {}

    def is_opaque(s, g):
        if g.module is not s.f0.module: return True
        if g.qual not in s.sizes:
            size = sum(isinstance(n, ast.stmt) for n in own_nodes(g.node))
            s.sizes[g.qual] = size > 60 or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(g.node)) or size > 8 and not s.makes(g, 3)
        return s.sizes[g.qual]

    def makes(s, g, d):
        """makes, stashes or loads objects of the library"""
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                if callname(n) == 'stashBook' or n in pool_calls(g, s.p): return True
                for c in s.p.callees(n, g, cha=False):
                    k = c if isinstance(c, Cls) else c.cls if isinstance(c, Func) and c.name == '__init__' else None
                    if k is not None and any('BibleBook' in b.name for b in s.p.mro(k)): return True
                    if isinstance(c, Func) and c.name != '__init__' and d and c.module is g.module and c is not g and s.makes(c, d-1): return True
        return False

    # ---- statements
    def quiet(s, x, f):
        """nothing but messages and tests"""
        if isinstance(x, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom)): return True
        if isinstance(x, ast.Expr):
            v = x.value
            return isinstance(v, ast.Constant) or isinstance(v, ast.Call) and (callname(v) in QUIET or is_log_call(v, f, s.p))
        if isinstance(x, ast.If): return all(s.quiet(y, f) for y in x.body+x.orelse)
        if isinstance(x, ast.For): return all(s.quiet(y, f) for y in x.body+x.orelse)
        if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)): return s.inside(x, f)
        return False

    def inside(s, x, f):
        """a statement in a block that only prepares messages"""
        ts = x.targets if isinstance(x, ast.Assign) else [x.target]
        if not all(isinstance(n, (ast.Name, ast.Tuple)) for t in ts for n in [t]): return False
        names = {n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name)}
        if any(isinstance(n, ast.Call) and any(isinstance(c, Func) and c.cls is not None for c in s.p.callees(n, f, cha=False)) for n in ast.walk(x)): return False
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
                a = n; ok = False
                while a is not None and a is not f.node:
                    if isinstance(a, ast.stmt) and (isinstance(a, ast.Expr) and s.quiet(a, f) or isinstance(a, ast.Assert)): ok = True; break
                    a = getattr(a, '_parent', None)
                if not ok: return False
        return True

    def block(s, stmts, st, f, d):
        states = [st]
        for x in stmts:
            nxt, seen = [], set()
            for t in states:
                for kind, u, v in s.stmt(x, t, f, d):
                    if kind != 'next': yield kind, u, v; continue
                    k = (frozenset(u.env.items()), frozenset(u.attrs.items()), u.atoms, u.events)
                    if k not in seen: seen.add(k); nxt.append(u)
            states = nxt
            if len(states) > s.limit: raise AnalysisError(f'too many paths in {f.qual}')
            if not states: return
        for t in states: yield 'next', t, None

    def stmt(s, x, st, f, d):
        if isinstance(x, ast.Assert):
            t = x.test
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.comparators[0], ast.Attribute) and t.comparators[0].attr == 'books':
                for b, u in s.cond(t, st, f, d):
                    yield ('next', u, None) if b else ('raise', u.ev(('raise', 'assertion')), None)
            else: yield 'next', st, None
            return
        if s.quiet(x, f): yield 'next', st, None; return
        if isinstance(x, ast.Try):
            for kind, t, v in s.block(x.body, st, f, d):
                outs = s.block(x.orelse, t, f, d) if kind == 'next' else [(kind, t, v)]
                for k, u, w in outs:
                    for k2, u2, w2 in (s.block(x.finalbody, u, f, d) if x.finalbody else [('next', u, None)]):
                        yield (k, u2, w) if k2 == 'next' else (k2, u2, w2)
            return
        if isinstance(x, ast.AugAssign):
            for v, t in s.ex(x.value, st, f, d):
                if isinstance(x.target, ast.Name):
                    old = t.env.get(x.target.id, ('unbound',))
                    yield 'next', t.bind(x.target.id, ('aug', type(x.op).__name__, old, v)).ev(('aug', x.target.id, v)), None
                else: yield 'next', s.assign(x.target, ('aug', type(x.op).__name__, v), t, f, d), None
            return
        if isinstance(x, (ast.For, ast.AsyncFor)):
            for it, t in s.ex(x.iter, st, f, d):
                if s.none(it): yield from s.block(x.orelse, t, f, d) if x.orelse else [('next', t, None)]
                for item, u in s.items(it, t, f, d):
                    u2 = s.assign(x.target, item, u, f, d)
                    for kind, w, v in s.block(x.body, u2, f, d):
                        if kind in ('next', 'continue'):
                            # a list built from the items one by one
                            w = s.built(x, it, u2, w)
                            yield from s.block(x.orelse, w, f, d) if x.orelse else [('next', w, None)]
                        elif kind == 'break': yield 'next', w.ev(('leaves the loop',)), None
                        else: yield kind, w, v
            return
        if isinstance(x, ast.While) and not x.orelse:
            y = counted(x)
            if y is not None: yield from s.stmt(y, st, f, d); return
        if isinstance(x, ast.Return):
            for v, t in (s.ex(x.value, st, f, d) if x.value is not None else [(('const', None), st)]): yield 'return', t, v
            return
        yield from super().stmt(x, st, f, d)

    def built(s, x, it, before, after):
        new = after.events[len(before.events):]
        apps = [e for e in new if e[0] == 'call' and e[1] == '.append' and e[2][0] == ('tuple', ())]
        if len(new) == 1 and len(apps) == 1 and len(x.body) >= 1:
            env = dict(after.env)
            for n in ast.walk(x):
                if isinstance(n, ast.Call) and callname(n) == 'append' and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and env.get(n.func.value.id, ('',))[0] == 'list':
                    env[n.func.value.id] = ('comp', apps[0][2][1], it)
                    return after.copy(env=env, events=before.events)
        return after

    def items(s, it, st, f, d):
        """(value, state) of one item of an iterable"""
        if it[0] == 'results':
            yield from s.result(it, st, f, d); return
        if it[0] == 'comp': yield it[1], st; return
        if s.none(it): return
        if it[0] == 'call' and it[1] in ('enumerate', 'builtins.enumerate') and it[2]:
            for v, t in s.items(it[2][0], st, f, d): yield ('tuple', (('index', s.base(it[2][0])), v)), t
            return
        if it[0] == 'call' and it[1] in ('zip', 'builtins.zip'):
            acc = [((), st)]
            for q in it[2]: acc = [(vs+(v,), u) for vs, t in acc for v, u in s.items(q, t, f, d)]
            for vs, t in acc: yield ('tuple', vs), t
            return
        if it[0] == 'call' and it[1] in ('list', 'tuple', 'builtins.list') and len(it[2]) == 1: yield from s.items(it[2][0], st, f, d); return
        if it[0] == 'call' and it[1] == 'range' and it[2] and it[2][-1][0] == 'call' and it[2][-1][1] == 'len' and len(it[2]) == 1:
            yield ('index', s.base(it[2][-1][2][0])), st; return
        if it[0] == 'call' and it[1] == '.items': yield ('tuple', (('item_of', it[2][0]), ('item', it[2][0], ('item_of', it[2][0])))), st; return
        if it[0] == 'call' and it[1] in ('.keys',): yield ('item_of', it[2][0]), st; return
        yield ('item_of', it), st

    def none(s, it):
        return it[0] == 'comp0' or it[0] == 'call' and it[1] in ('enumerate', 'builtins.enumerate', 'list', 'tuple', 'builtins.list', 'sorted', 'reversed', 'zip', 'builtins.zip') and any(s.none(q) for q in it[2])

    def base(s, it):
        if it[0] == 'results': return s.base(it[2])
        if it[0] == 'comp': return s.base(it[2])
        if it[0] == 'call' and it[1] in ('list', 'tuple', 'enumerate') and it[2]: return s.base(it[2][0])
        return it

    def result(s, r, st, f, d):
        """what the worker gives for one item, and what it does"""
        _, fn, xs, star = r
        for item, t in s.items(xs, st, f, d):
            key = ('done', fn, item)
            done = [e for e in t.events if e[0] == 'worker' and e[1] == key]
            if done: yield done[0][2], t; continue
            q, pre, kw = fn
            g = s.func(q)
            if g is None: yield ('unknown result', q), t; continue
            args = {}
            ps = [a for a in g.params if not (g.cls is not None and not g.is_static and a == g.params[0])]
            vals = list(pre) + (list(item[1]) if star and item[0] == 'tuple' else [item])
            need = [a for a in ps if a not in defaults(g.node) and a not in dict(kw)]
            if len(vals) > len(ps) or len(need) > len(vals):
                s.bad.append(('arguments', g, f'{g.name} takes {len(need)} values, the pool gives it {len(vals)}')); continue
            for a, v in zip(ps, vals): args[a] = v
            for a, v in kw: args[a] = v
            for a, dv in defaults(g.node).items():
                if a not in args: args[a] = ('const', dv.value) if isinstance(dv, ast.Constant) else ('default', ast.unparse(dv))
            if g.cls is not None and not g.is_static and g.params: args[g.params[0]] = ('me',)
            for kind, u, v in s.run(g, args, t, d+1):
                new = u.events[len(t.events):]
                kept = tuple(e for e in new if not s.on_self(e))
                u = u.copy(env=t.env, attrs=t.attrs, events=t.events + kept + (('worker', key, v),))
                if kind == 'return': yield v, u
                else: s.raised.append(u.ev(('raise', 'in the worker')))

    def func(s, q):
        for g in s.p.functions(demo=True):
            if g.qual == q: return g

    @staticmethod
    def on_self(e):
        return e[0] == 'store' or e[0] == 'substore' and has(e[1], lambda v: v[:1] == ('self',)) or \
            e[0] == 'call' and e[1][:1] == '.' and e[1][1:] in MUTATORS and e[2] and e[2][0][:1] == ('self',)

    # ---- expressions
    def ex(s, e, st, f, d):
        if isinstance(e, ast.ListComp) or isinstance(e, ast.GeneratorExp):
            if len(e.generators) == 1:
                out = []
                test = ast.BoolOp(ast.And(), e.generators[0].ifs) if len(e.generators[0].ifs) > 1 else e.generators[0].ifs[0] if e.generators[0].ifs else None
                for it, t in s.ex(e.generators[0].iter, st, f, d):
                    for item, u in s.items(it, t, f, d):
                        u2 = s.assign(e.generators[0].target, item, u, f, d)
                        for b, u3 in (s.cond(test, u2, f, d) if test is not None else [(True, u2)]):
                            if not b: out.append((('comp0', it), u3.copy(env=u.env))); continue
                            for v, w in s.ex(e.elt, u3, f, d): out.append((('comp', v, it), w.copy(env=u.env)))
                return out
            return [(('expr', ast.unparse(e)), st)]
        if isinstance(e, (ast.SetComp, ast.DictComp, ast.Dict, ast.Set, ast.Lambda, ast.Slice)): return [(('expr', ast.unparse(e)), st)]
        if isinstance(e, ast.Name) and e.id not in st.env and s.p.is_local(e.id, f): return [(('unbound', e.id), st)]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in st.env and st.env[e.value.id] in (('me',), ('param', 'self')):
            m = s.p.find_method(f.cls, e.attr) if f.cls is not None else None
            if isinstance(m, Func): return [(('func', m.qual), st)]
        return super().ex(e, st, f, d) if not isinstance(e, ast.Subscript) else [(s.sub(v, k), u) for v, t in super().ex(e.value, st, f, d) for k, u in s.ex(e.slice, t, f, d)] \
            if not s.pooled(e, st) else s.subresult(e, st, f, d)

    def pooled(s, e, st): return isinstance(e.value, ast.Name) and st.env.get(e.value.id, ('',))[0] == 'results'

    def subresult(s, e, st, f, d):
        out = []
        for v, t in super().ex(e.value, st, f, d):
            for k, u in s.ex(e.slice, t, f, d):
                if k == ('index', s.base(v)): out += list(s.result(v, u, f, d))
                else: out.append((('item', v, k), u))
        return out

    def sub(s, v, k):
        if v[0] == 'tuple' and k[0] == 'const' and isinstance(k[1], int) and -len(v[1]) <= k[1] < len(v[1]): return v[1][k[1]]
        if k[0] == 'index' and k[1] == s.base(v): return v[1] if v[0] == 'comp' else ('item_of', v)
        if v[0] == 'item_of' or v[0] == 'call':
            if k[0] == 'const' and isinstance(k[1], int) and k[1] >= 0: return ('elem', v, k[1])
        return ('item', v, k)

    def assign(s, tg, v, st, f, d):
        if isinstance(tg, (ast.Tuple, ast.List)):
            for i, e in enumerate(tg.elts): st = s.assign(e, v[1][i] if v[0] == 'tuple' and i < len(v[1]) else ('elem', v, i), st, f, d)
            return st
        if isinstance(tg, ast.Attribute):
            for b, t in s.ex(tg.value, st, f, d):
                if b == ('const', None): return t.ev(('nothing used', 'as an object'))
        return super().assign(tg, v, st, f, d)

    def truth(s, v, st):
        if v[0] == 'cmp' and v[1] in ('in', 'not in') and v[3] == ('self', 'triedLoadingBook'): yield v[1] == 'not in', st; return
        if v[0] == 'cmp' and v[1] in ('is', '==') and v[3] == ('const', None) and v[2][0] in ('elem', 'item_of'): yield False, st; return
        if v[0] == 'cmp' and v[1] in ('in', 'not in') and v[2] == ('item_of', v[3]): yield v[1] == 'in', st; return
        if v[0] == 'cmp' and v[2][0] == 'const' and v[3][0] == 'const' and v[1] in ('<', '>', '<=', '>=') and isinstance(v[2][1], int) and isinstance(v[3][1], int):
            a, b = v[2][1], v[3][1]
            yield {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[v[1]], st; return
        yield from super().truth(v, st)

    def apply(s, e, vs, ks, st, f, d):
        fn = e.func; name = callname(e)
        if name in QUIET or is_log_call(e, f, s.p): return [(('const', None), st)]
        if name == 'partial' and vs and vs[0][0] == 'func': return [(('partial', vs[0][1], vs[1:], ks), st)]
        if isinstance(fn, ast.Attribute) and name in POOLS and e in s.pools:
            w = vs[0]
            q = (w[1], (), ()) if w[0] == 'func' else (w[1], w[2], w[3]) if w[0] == 'partial' else None
            if q is None: s.bad.append(('worker', f, f'the worker {ast.unparse(e.args[0])} cannot be sent to another process')); q = (str(w), (), ())
            else:
                g = s.func(q[0])
                if g is not None and g.parent is not None and isinstance(g.parent, Func): s.bad.append(('worker', f, f'the worker {g.name} is a nested function, which cannot be sent to another process'))
            if name == 'imap_unordered': s.bad.append(('order', f, 'the results come in any order'))
            xs = vs[1] if len(vs) > 1 else ('unknown',)
            if not any((('glob', 'BibleOrgSys.BibleOrgSysGlobals.alreadyMultiprocessing') == v or isinstance(v, tuple) and mentions(v, 'BibleOrgSys.BibleOrgSysGlobals.alreadyMultiprocessing')) and b is False for v, b in st.atoms):
                s.bad.append(('nested', f, 'a pool is made without asking whether the program is already inside one (a worker process may not have children)'))
            return [(('results', q, xs, 'star' in name), st.ev(('pool', q[0])))]
        if isinstance(fn, ast.Attribute) and name == 'get' and not e.args:
            for b, t in s.ex(fn.value, st, f, d):
                if b[0] == 'results': return [(b, t)]
        if isinstance(fn, ast.Attribute):
            for b, t in s.ex(fn.value, st, f, d):
                if b == ('const', None): return [(('const', None), t.ev(('nothing used', name)))]
                if b[0] in ('new', 'tuple', 'results', 'comp', 'item_of', 'elem', 'item'):
                    a = (b,) + vs + tuple(v for _, v in ks)
                    if b[0] == 'tuple' and name in MUTATORS and isinstance(fn.value, ast.Name): t = t.bind(fn.value.id, ('list', fn.value.id, a))
                    return [(('call', '.'+name, a), t.ev(('call', '.'+name, a)))]
                break
        out = []
        for v, t in super().apply(e, vs, ks, st, f, d):
            if v[0] == 'new' and len(v) < 3: v = ('new', v[1], vs + tuple(q for _, q in ks))
            elif v[0] == 'call' and ks: v = ('call', v[1], v[2] + tuple(ks)); t = t.copy(events=t.events[:-1] + (('call', v[1], v[2]),)) if t.events and t.events[-1][0] == 'call' else t
            out.append((v, t))
        return out

    def res(s, r, name):
        # settings are not constants, whatever they start with
        if isinstance(r, tuple) and r[0] == 'global': return ('glob', r[1].name+'.'+r[2])
        return super().res(r, name)

    # ---- the whole function
    def explore(s):
        s.pools = pool_calls(s.f0, s.p); s.raised = []
        args = {s.f0.params[0]: ('me',)} if s.f0.cls is not None and not s.f0.is_static and s.f0.params else {}
        return [(k, t, v) for k, t, v in s.run(s.f0, args)] + [('raise', t, None) for t in s.raised]


def counted(x):
    """while i < len( xs ): … xs[i] … i += 1   as   for item in xs: …"""
    t = x.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Call) and callname(t.comparators[0]) == 'len' and len(t.comparators[0].args) == 1): return
    i, xs = t.left.id, ast.dump(t.comparators[0].args[0])
    steps = [k for k, y in enumerate(x.body) if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id == i and isinstance(y.op, ast.Add) and isinstance(y.value, ast.Constant) and y.value.value == 1]
    stores = [n for y in x.body for n in ast.walk(y) if isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store)]
    if len(steps) != 1 or len(stores) != 1: return
    k = steps[0]
    if any(isinstance(n, ast.Continue) for y in x.body[:k] for n in ast.walk(y)) or any(isinstance(n, ast.Name) and n.id == i for y in x.body[k+1:] for n in ast.walk(y)): return
    class Put(ast.NodeTransformer):
        def visit_Subscript(s, n):
            if ast.dump(n.value) == xs and isinstance(n.slice, ast.Name) and n.slice.id == i: return ast.copy_location(ast.Name(f'item of {i}', ast.Load()), n)
            return s.generic_visit(n)
    import copy
    def parentless(n):
        n = copy.copy(n); n.__dict__.pop('_parent', None)
        for name, v in ast.iter_fields(n):
            if isinstance(v, ast.AST): setattr(n, name, parentless(v))
            elif isinstance(v, list): setattr(n, name, [parentless(q) if isinstance(q, ast.AST) else q for q in v])
        return n
    body = [Put().visit(parentless(y)) for j, y in enumerate(x.body) if j != k]
    if any(isinstance(n, ast.Name) and n.id == i for y in body for n in ast.walk(y)): return
    y = ast.copy_location(ast.For(ast.Name(f'item of {i}', ast.Store()), t.comparators[0].args[0], body or [ast.Pass()], [], None), x)
    ast.fix_missing_locations(y)
    for n in ast.walk(y):
        for c in ast.iter_child_nodes(n): c._parent = n
    y._parent = getattr(x, '_parent', None)
    return y


def significant(e, p):
    if e[0] in ('raise', 'nothing used', 'leaves the loop'): return True
    if e[0] == 'store': return e[1] not in BOOKKEEPING
    if e[0] == 'attrstore': return e[2] not in BOOKKEEPING and e[1][:1] != ('glob',)
    if e[0] == 'substore': return not (e[1][:1] == ('self',) and e[1][1] in BOOKKEEPING)
    if e[0] == 'aug': return True
    if e[0] == 'call':
        if e[1][:1] == '.':
            m = e[1][1:]
            b = e[2][0] if e[2] else ('',)
            if m == 'stashBook' or b[:1] == ('new',): return True
            return m in MUTATORS and not (b[:1] == ('self',) and b[1] in BOOKKEEPING)
        return e[1].startswith('BibleOrgSys.') and '.BibleOrgSysGlobals.' not in e[1] or has(e[2], lambda v: v[:1] == ('new',))
    return False


def normal(v):
    """a book's own code is the one it was made with"""
    if not isinstance(v, tuple): return v
    v = tuple(normal(x) for x in v)
    if v[:1] == ('attr',) and len(v) == 3 and v[2] == 'BBB' and isinstance(v[1], tuple) and v[1][:1] == ('new',) and len(v[1][2]) > 1: return v[1][2][1]
    return v


def keeps_known(e):
    """stashing again what is already in the books changes nothing"""
    return e[0] == 'call' and e[1].endswith('stashBook') and e[2] and e[2][-1][:1] == ('item',) and e[2][-1][1] == ('self', 'books')


def summary(t, p):
    ev = tuple(normal(e) for e in t.events if significant(e, p) and not keeps_known(e))
    at = frozenset(normal(a) for a in t.atoms if not any(mentions(a, w) for w in ('BibleOrgSys.BibleOrgSysGlobals.maxProcesses', 'BibleOrgSys.BibleOrgSysGlobals.alreadyMultiprocessing')))
    return ev, at


def show(e):
    def t(v):
        if not isinstance(v, tuple): return str(v)
        if v[:1] == ('new',): return v[1].rsplit('.', 1)[-1]+'()'
        if v[:1] == ('self',): return 'self.'+v[1]
        if v[:1] == ('me',): return 'self'
        if v[:1] == ('const',): return repr(v[1])
        if v[:1] == ('item_of',): return f'each of {t(v[1])}'
        if v[:1] == ('elem',): return f'part {v[2]} of {t(v[1])}'
        if v[:1] == ('item',): return f'{t(v[1])}[{t(v[2])}]'
        if v[:1] == ('attr',): return f'{t(v[1])}.{v[2]}'
        if v[:1] == ('call',): return f"{v[1].rsplit('.', 1)[-1]}({', '.join(t(x) for x in v[2])})"
        return '…'
    if e is None: return 'nothing more'
    if e[0] == 'call': return f"{e[1].rsplit('.', 1)[-1]}( {', '.join(t(x) for x in e[2])} )"
    return ' '.join(t(x) for x in e)[:160]


def label(e):
    if e is None: return 'nothing'
    if e[0] == 'call': return e[1].rsplit('.', 1)[-1]
    if e[0] in ('store', 'aug'): return f'{e[0]} {e[1]}'
    if e[0] == 'substore': return f'store {e[1][-1] if isinstance(e[1][-1], str) else "…"}'
    if e[0] == 'attrstore': return f'store {e[2]}'
    return e[0]


class Effects:
    """attributes of the object that a method changes, itself or through the other methods"""
    def __init__(s, p): s.p, s.memo = p, {}
    def of(s, g, through):
        """through: ('self',) or ('self','containerBibleObject')"""
        k = (g.qual, through)
        if k in s.memo: return s.memo[k]
        s.memo[k] = out = {}
        def chainof(e):
            chain = []
            while True:
                while isinstance(e, ast.Subscript): e = e.value
                if isinstance(e, ast.Attribute): chain.append(e.attr); e = e.value
                elif isinstance(e, ast.Name): chain.append(e.id) if e.id not in alias else chain.extend(reversed(alias[e.id])); break
                else: return None
            return tuple(reversed(chain))
        def attr(e, whole=False):
            chain = chainof(e)
            if chain and chain[:len(through)] == through and len(chain) > len(through): return chain[len(through)]
        alias = {}
        me = g.params[0] if g.params else 'self'
        if me != 'self': alias[me] = ('self',)
        more = True
        while more:
            more = False
            for n in ast.walk(g.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in alias:
                    c = chainof(n.value)
                    if c and c[:len(through)] == through: alias[n.targets[0].id] = c; more = True
        for n in ast.walk(g.node):
            ts = []
            if isinstance(n, ast.Assign): ts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): ts = [n.target] if not isinstance(n, ast.AnnAssign) or n.value is not None else []
            elif isinstance(n, ast.Delete): ts = n.targets
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: ts = [n.func.value]
            for t in [x for t in ts for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]:
                if isinstance(t, ast.Name) and (isinstance(n, (ast.Assign, ast.AnnAssign)) or t.id not in alias): continue
                a = attr(t)
                if a: out.setdefault(a, g.where(n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                c = None
                if isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', me) and g.cls is not None: c = s.p.find_method(g.cls, n.func.attr)
                elif isinstance(n.func.value, ast.Name) and n.func.value.id not in ('self',) and through == ('self',):
                    pass
                if c is None:
                    cs = [x for x in s.p.callees(n, g, cha=False) if isinstance(x, Func) and x.cls is not None and g.cls is not None and x.cls in s.p.mro(g.cls) and isinstance(n.func.value, ast.Name) and n.args]
                    c = cs[0] if len(cs) == 1 else None
                if isinstance(c, Func):
                    for a, w in s.of(c, through).items(): out.setdefault(a, w)
        return out


def decide(p):
    out, counts = {}, {'functions with a pool': 0, 'workers': 0, 'paths with the pool': 0, 'paths without': 0, 'pairs compared': 0, 'attributes a worker changes': 0}
    eff = Effects(p)
    for f in p.functions():
        if f.name in EXEMPT or f.cls is None and f.module.name.endswith('Globals'): continue
        calls = pool_calls(f, p)
        if not calls: continue
        live = set()
        c = cfg_of(f); reach = reachable(c.entry)
        for n in reach:
            for x in node_walk(n): live.add(id(x))
        calls = [x for x in calls if id(x) in live]
        if not calls: continue
        w = Work(p, f)
        paths = w.explore()
        counts['functions with a pool'] += 1
        where = f.where(calls[0])
        for kind, g, msg in w.bad: out.setdefault(f'{kind}:{f.short}', (where, msg))
        pooled = {summary(t, p)+((normal(v) if v is not None else None),) for k, t, v in paths if any(e[0] == 'pool' for e in t.events)}
        single = {summary(t, p)+((normal(v) if v is not None else None),) for k, t, v in paths if not any(e[0] == 'pool' for e in t.events)}
        counts['paths with the pool'] += len(pooled); counts['paths without'] += len(single)
        if not pooled or not single:
            out.setdefault(f'modes:{f.short}', (where, 'there is no way through this function with the pool' if not pooled else 'there is no way through this function without a pool')); continue
        lostby = {}
        for q in {e[1] for k, t, v in paths for e in t.events if e[0] == 'pool'}:
            if w.func(q) is not None: lostby[q] = lost_by(p, eff, w, paths, q)
        changed = {a for d in lostby.values() for a in d}
        redo = lambda evs: tuple(e for e in evs if not (e[0] == 'store' and e[1] in changed))
        # a book that comes from a worker still belongs to the worker's copy of the object
        for k, t, v in paths:
            after, owned = False, set()
            for e in t.events:
                if e[0] == 'pool': after = True
                elif e[0] == 'attrstore' and e[2] == 'containerBibleObject': owned.add(e[1])
                elif after and e[0] == 'call' and e[1].endswith('stashBook') and e[2]:
                    b = e[2][-1]
                    if b[:1] == ('new',) and ('me',) in b[2] and b not in owned: out.setdefault(f'container:{f.short}', (where, "a book that a worker process loaded is kept, but it still refers to the worker's own copy of the object"))
        # a path without the pool is only compared if it could have used it: it does some work, or the pooled one does none
        for ev, at, rv in pooled:
            for ev2, at2, rv2 in single:
                if any((v, not b) in at2 for v, b in at if isinstance(b, bool)): continue
                counts['pairs compared'] += 1
                ev, ev2 = redo(ev), redo(ev2)
                if ev == ev2: continue
                i = 0
                while i < min(len(ev), len(ev2)) and ev[i] == ev2[i]: i += 1
                a = ev[i] if i < len(ev) else None; b = ev2[i] if i < len(ev2) else None
                out.setdefault(f'differs:{f.short}:{label(a)}/{label(b)}', (where, f'with several processes: {show(a)}; with one: {show(b)}'))
        # what the worker changes in its copy of the object
        for q, lost in lostby.items():
            g = w.func(q); counts['workers'] += 1
            own = {a for n in own_nodes(f.node) for a in stored_attrs(n)}
            direct = {callname(n) for n in own_nodes(f.node) if isinstance(n, ast.Call)} - {callname(n) for n in own_nodes(g.node) if isinstance(n, ast.Call)}
            for k, t, v in paths:   # and what the parent's calls after the pool change
                if not any(e[0] == 'pool' for e in t.events) or f.cls is None: continue
                i = next(i for i, e in enumerate(t.events) if e[0] == 'pool')
                for e in t.events[i+1:]:
                    m = p.find_method(f.cls, e[1].split('.')[-1]) if e[0] == 'call' and e[2] and e[2][0] == ('me',) else None
                    if isinstance(m, Func) and m.name in direct: own |= set(eff.of(m, ('self',)))
            for a, x in lost.items():
                counts['attributes a worker changes'] += 1
                if a in BOOKKEEPING or a in own: continue
                out.setdefault(f'lost:{f.short}:{a}', (x, f'the worker {g.name} changes self.{a} in its own copy of the object: with several processes the change is lost'))
    return [(k, *v) for k, v in out.items()], counts


def lost_by(p, eff, w, paths, q):
    g = w.func(q)
    lost = dict(eff.of(g, ('self',))) if g.cls is not None else {}
    made = {v[1] for k, t, v0 in paths for e in t.events if e[0] == 'call' for v in [e[2][0] if e[2] else ()] if v[:1] == ('new',)}
    for m in p.modules.values():
        for k in m.classes.values():
            if k.qual in made:
                for name in {e[1][1:] for _, t, _ in paths for e in t.events if e[0] == 'call' and e[1][:1] == '.' and e[2] and e[2][0][:2] == ('new', k.qual)} | {'load', 'validateMarkers'}:
                    h = p.find_method(k, name)
                    if isinstance(h, Func):
                        for a, x in eff.of(h, ('self', 'containerBibleObject')).items(): lost.setdefault(a, x)
    return lost


def stored_attrs(n):
    ts = []
    if isinstance(n, ast.Assign): ts = n.targets
    elif isinstance(n, ast.AugAssign): ts = [n.target]
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: ts = [n.func.value]
    for t in ts:
        while isinstance(t, ast.Subscript): t = t.value
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self': yield t.attr


def run(p, r, tier):
    found, counts = decide(p)
    for k, n in counts.items(): r.count(k, n)
    for key, where, msg in found: r.find(key, where, msg)
    r.floor('functions with a pool', 8); r.floor('pairs compared', 20)


_T = """
import multiprocessing
from BibleOrgSys import BibleOrgSysGlobals
class Book:
    def __init__(self, container, BBB): self.container, self.BBB, self.lines = container, BBB, []
    def load(self, name): self.lines.append(name)
class TBible:
    def __init__(self): self.books, self.names, self.tried, self.extra = {}, [], {}, {}
    def stashBook(self, b): self.books[b.BBB] = b
    def loadBook(self, BBB, filename):
        if BBB in self.books: return
        b = Book(self, BBB)
        b.load(filename)
        if b.lines: self.stashBook(b)
    def _loadBookMP(self, t):
        BBB, filename = t
        if BBB in self.books: return None
        b = Book(self, BBB)
        b.load(filename)
        if not b.lines: return None
        return b
    def loadBooks(self):
        if self.names:
            if BibleOrgSysGlobals.maxProcesses > 1 and not BibleOrgSysGlobals.alreadyMultiprocessing:
                BibleOrgSysGlobals.alreadyMultiprocessing = True
                with multiprocessing.Pool(processes=BibleOrgSysGlobals.maxProcesses) as pool:
                    results = pool.map(self._loadBookMP, self.names)
                    for b in results:
                        if b is None: continue
                        self.stashBook(b)
                BibleOrgSysGlobals.alreadyMultiprocessing = False
            else:
                for BBB, filename in self.names:
                    self.loadBook(BBB, filename)
"""


def _t(want, *edits):
    src = _T
    for old, new in edits:
        assert src.count(old) >= 1, old
        src = src.replace(old, new)
    def test():
        out, counts = decide(Project.from_sources({'BibleOrgSys/T.py': src, 'BibleOrgSys/BibleOrgSysGlobals.py': 'maxProcesses = 1\nalreadyMultiprocessing = False\n'}))
        got = sorted(x[0] for x in out)
        if counts['pairs compared'] < 1: return counts
        if want is None: return True if not got else got
        return True if any(g.startswith(want) for g in got) else got
    return test


SELFTESTS = [
    ('both ways the same: quiet', _t(None)),
    ('the worker written the other way round: quiet', _t(None, ('        if not b.lines: return None\n        return b\n', '        return b if b.lines else None\n'))),
    ('the parent tests the other way: quiet', _t(None, ('                        if b is None: continue\n                        self.stashBook(b)\n', '                        if b is not None: self.stashBook(b)\n'))),
    ('the worker does not skip blank books', _t('differs', ('        if not b.lines: return None\n        return b\n', '        return b\n'))),
    ('the worker uses another file', _t('differs', ('        b.load(filename)\n        if not b.lines', '        b.load(BBB + ".txt")\n        if not b.lines'))),
    ('the parent stashes only new codes', _t('differs', ('if b is None: continue', 'if b is None or b.BBB in self.tried: continue'))),
    ('a list that is cut short', _t('', ('pool.map(self._loadBookMP, self.names)', 'pool.map(self._loadBookMP, self.names[1:])'))),
    ('the worker keeps something to itself', _t('lost', ('        BBB, filename = t\n', '        BBB, filename = t\n        self.extra[BBB] = filename\n'))),
    ('a pool inside a worker', _t('nested', (' and not BibleOrgSysGlobals.alreadyMultiprocessing:', ':'))),
    ('a list in another order', _t('', ('pool.map(self._loadBookMP, self.names)', 'pool.imap_unordered(self._loadBookMP, self.names)'))),
]
