"""Path-by-path abstract evaluation of (mostly loop-free) functions into symbolic values, with conditions recorded as facts.

Values are hashable tuples: ('const',v) ('param',name) ('self',attr) ('glob',dotted) ('attr',base,name) ('item',base,key)
('call',name,args) ('new',class,args) ('cmp',op,a,b) ('and',..) ('or',..) ('not',x) ('tuple',items) ('elem',base,i)
('path',base,name) ('handle',path,n) ('load',kind,path,k) ('stat',path) ('exc',types,paths) ('unk',n)
No condition is ever solved: a condition that is not a constant is followed both ways and recorded as an atom (value, truth);
only a directly contradicting atom prunes a path."""
from __future__ import annotations
import ast
from project import *
from common import callname, arg_map

OPS = {ast.Gt: '>', ast.Lt: '<', ast.GtE: '>=', ast.LtE: '<=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class St:
    __slots__ = ('env', 'attrs', 'atoms', 'events')
    def __init__(s, env, attrs, atoms=frozenset(), events=()): s.env, s.attrs, s.atoms, s.events = env, attrs, atoms, events
    def copy(s, **k):
        n = St(s.env, s.attrs, s.atoms, s.events)
        for a, v in k.items(): setattr(n, a, v)
        return n
    def ev(s, e): return s.copy(events=s.events + (e,))
    def bind(s, k, v):
        d = dict(s.env); d[k] = v; return s.copy(env=d)
    def setattr_(s, k, v):
        d = dict(s.attrs); d[k] = v; return s.copy(attrs=d)


class SymEx:
    """hooks: opaque(func) -> True if a library function must not be entered"""
    def __init__(s, p, opaque=lambda g: False, maxdepth=3, limit=4000):
        s.p, s.opaque, s.maxdepth, s.limit, s.n = p, opaque, maxdepth, limit, 0

    notnone = staticmethod(lambda name: False)
    def fresh(s): s.n += 1; return ('unk', s.n)

    # ---- functions
    def run(s, f, args=None, st=None, depth=0):
        """list of (kind, state, value) with kind 'return' or 'raise'"""
        env = {}
        for n in f.allparams: env[n] = ('param', n)
        if args: env.update(args)
        st0 = St(env, st.attrs if st else {}, st.atoms if st else frozenset(), st.events if st else ())
        out = []
        for kind, t, v in s.block(f.node.body, st0, f, depth):
            if kind == 'next': out.append(('return', t, ('const', None)))
            elif kind in ('return', 'raise'): out.append((kind, t, v))
            if len(out) > s.limit: raise AnalysisError(f'too many paths in {f.qual}')
        return out

    def block(s, stmts, st, f, d):
        states = [st]
        for x in stmts:
            nxt = []
            for t in states:
                for kind, u, v in s.stmt(x, t, f, d):
                    if kind == 'next': nxt.append(u)
                    else: yield kind, u, v
            states = nxt
            if len(states) > s.limit: raise AnalysisError(f'too many paths in {f.qual}')
            if not states: return
        for t in states: yield 'next', t, None

    def stmt(s, x, st, f, d):
        if isinstance(x, (ast.Expr,)):
            for v, t in s.ex(x.value, st, f, d):
                yield 'next', t, None
        elif isinstance(x, ast.Assign):
            for v, t in s.ex(x.value, st, f, d):
                for tg in x.targets: t = s.assign(tg, v, t, f, d)
                yield 'next', t, None
        elif isinstance(x, ast.AnnAssign):
            if x.value is None: yield 'next', st, None
            else:
                for v, t in s.ex(x.value, st, f, d): yield 'next', s.assign(x.target, v, t, f, d), None
        elif isinstance(x, ast.AugAssign):
            for v, t in s.ex(x.value, st, f, d): yield 'next', s.assign(x.target, s.fresh(), t, f, d), None
        elif isinstance(x, ast.Return):
            if x.value is None: yield 'return', st, ('const', None)
            else:
                for v, t in s.ex(x.value, st, f, d): yield 'return', t, v
        elif isinstance(x, ast.Raise): yield 'raise', st, None
        elif isinstance(x, ast.If):
            for b, t in s.cond(x.test, st, f, d): yield from s.block(x.body if b else x.orelse, t, f, d)
        elif isinstance(x, ast.Assert):
            for b, t in s.cond(x.test, st, f, d):
                if b: yield 'next', t, None
        elif isinstance(x, (ast.With, ast.AsyncWith)):
            states = [st]
            for it in x.items:
                nx = []
                for t in states:
                    for v, u in s.ex(it.context_expr, t, f, d):
                        nx.append(s.assign(it.optional_vars, v, u, f, d) if it.optional_vars is not None else u)
                states = nx
            for t in states: yield from s.block(x.body, t, f, d)
        elif isinstance(x, ast.Try):
            body = list(s.block(x.body, st, f, d))
            outs = []
            for kind, t, v in body:
                if kind == 'next': outs += list(s.block(x.orelse, t, f, d))
                elif kind == 'raise' and x.handlers: pass
                else: outs.append((kind, t, v))
            touched = tuple(dict.fromkeys(e[1] for _, t, _ in body for e in t.events[len(st.events):] if e[0] in ('stat', 'open')))
            for h in x.handlers:
                names = tuple(sorted(dotted(q) or '?' for q in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]))) if h.type is not None else ('BaseException',)
                # the body may have been left anywhere: what it assigned is unknown
                env = dict(st.env)
                for n in ast.walk(ast.Module(x.body, [])):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): env[n.id] = ('maybe', n.id, st.env.get(n.id, ('unbound',)))
                t = st.copy(env=env).ev(('handler', names, touched))
                if h.name: t = t.bind(h.name, ('exc', names, touched))
                outs += list(s.block(h.body, t, f, d))
            if x.finalbody:
                for kind, t, v in outs:
                    for k2, u, v2 in s.block(x.finalbody, t, f, d):
                        yield (kind, u, v) if k2 == 'next' else (k2, u, v2)
            else: yield from outs
        elif isinstance(x, (ast.For, ast.While, ast.AsyncFor)):
            stores = {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            env = dict(st.env)
            for n in stores: env[n] = s.fresh()
            h = st.copy(env=env)
            if isinstance(x, ast.While) and isinstance(x.test, ast.Constant) and x.test.value: pass
            else: yield from s.block(x.orelse, h, f, d) if x.orelse else [('next', h, None)]
            for kind, t, v in s.block(x.body, h, f, d):
                if kind in ('next', 'continue', 'break'): yield 'next', t.copy(env={**t.env, **{n: s.fresh() for n in stores}}), None
                else: yield kind, t, v
        elif isinstance(x, ast.Break): yield 'break', st, None
        elif isinstance(x, ast.Continue): yield 'continue', st, None
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): yield 'next', st.bind(x.name, ('def', x.name)), None
        elif isinstance(x, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass, ast.Delete)): yield 'next', st, None
        else: yield 'next', st, None

    def assign(s, tg, v, st, f, d):
        if isinstance(tg, ast.Name): return st.bind(tg.id, v)
        if isinstance(tg, (ast.Tuple, ast.List)):
            for i, e in enumerate(tg.elts):
                st = s.assign(e, v[1][i] if v[0] == 'tuple' and i < len(v[1]) else ('elem', v, i, len(tg.elts)), st, f, d)
            return st
        if isinstance(tg, ast.Attribute):
            for b, t in s.ex(tg.value, st, f, d):
                if b == ('param', 'self') or b == ('me',): return t.setattr_(tg.attr, v).ev(('store', tg.attr, v))
                return t.ev(('attrstore', b, tg.attr, v))
        if isinstance(tg, ast.Subscript):
            for b, t in s.ex(tg.value, st, f, d):
                for k, u in s.ex(tg.slice, t, f, d): return u.ev(('substore', b, k, v, ))
        return st

    # ---- conditions
    def cond(s, e, st, f, d):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            def go(i, t):
                for b, u in s.cond(e.values[i], t, f, d):
                    if b != isand or i == len(e.values)-1: yield b, u
                    else: yield from go(i+1, u)
            yield from go(0, st)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for b, t in s.cond(e.operand, st, f, d): yield (not b), t
        else:
            for v, t in s.ex(e, st, f, d): yield from s.truth(v, t)

    def truth(s, v, st):
        if v[0] == 'const': yield bool(v[1]), st; return
        if v[0] == 'tuple': yield bool(v[1]), st; return
        if v[0] == 'new' : yield True, st; return
        if v[0] == 'not':
            for b, t in s.truth(v[1], st): yield (not b), t
            return
        if v[0] in ('and', 'or'):
            isand = v[0] == 'and'
            def go(i, t):
                for b, u in s.truth(v[1][i], t):
                    if b != isand or i == len(v[1])-1: yield b, u
                    else: yield from go(i+1, u)
            yield from go(0, st); return
        if v[0] == 'cmp' and v[1] in ('!=', 'is not', 'not in'):
            for b, t in s.truth(('cmp', {'!=': '==', 'is not': 'is', 'not in': 'in'}[v[1]], v[2], v[3]), st): yield (not b), t
            return
        if v[0] == 'cmp' and v[1] in ('is', '==') and v[2][0] == 'const' and v[3][0] == 'const': yield v[2][1] == v[3][1], st; return
        if v[0] == 'cmp' and v[1] in ('is', '==') and v[3] == ('const', None) and (v[2][0] in ('load', 'tuple', 'new', 'handle', 'path', 'stat') or v[2][0] == 'call' and s.notnone(v[2][1])):
            yield False, st; return
        for b in (True, False):
            if (v, not b) in st.atoms: continue
            yield b, st.copy(atoms=st.atoms | {(v, b)})

    # ---- expressions
    def ex(s, e, st, f, d):
        """list of (value, state)"""
        if isinstance(e, ast.Constant): return [(('const', e.value), st)]
        if isinstance(e, ast.Name):
            if e.id in st.env: return [(st.env[e.id], st)]
            r = s.p.resolve(e, f)
            return [(s.res(r, e.id), st)]
        if isinstance(e, ast.Attribute):
            out = []
            r = s.p.resolve(e, f)
            if r is not None and not (isinstance(e.value, ast.Name) and e.value.id in st.env): return [(s.res(r, dotted(e) or e.attr), st)]
            for b, t in s.ex(e.value, st, f, d):
                if b in (('param', 'self'), ('me',)): out.append((t.attrs.get(e.attr, ('self', e.attr)), t))
                else: out.append((('attr', b, e.attr), t))
            return out
        if isinstance(e, ast.BoolOp):
            acc = [((), st)]
            for x in e.values: acc = [(vs+(v,), u) for vs, t in acc for v, u in s.ex(x, t, f, d)]
            return [((('and' if isinstance(e.op, ast.And) else 'or'), vs), t) for vs, t in acc]
        if isinstance(e, ast.UnaryOp):
            return [((('not', v) if isinstance(e.op, ast.Not) else ('un', type(e.op).__name__, v)), t) for v, t in s.ex(e.operand, st, f, d)]
        if isinstance(e, ast.Compare):
            acc = [((), st)]
            for x in [e.left]+e.comparators: acc = [(vs+(v,), u) for vs, t in acc for v, u in s.ex(x, t, f, d)]
            out = []
            for vs, t in acc:
                cs = tuple(('cmp', OPS[type(o)], vs[i], vs[i+1]) for i, o in enumerate(e.ops))
                out.append((cs[0] if len(cs) == 1 else ('and', cs), t))
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for b, t in s.cond(e.test, st, f, d): out += s.ex(e.body if b else e.orelse, t, f, d)
            return out
        if isinstance(e, (ast.Tuple, ast.List)):
            acc = [((), st)]
            for x in e.elts: acc = [(vs+(v,), u) for vs, t in acc for v, u in s.ex(x, t, f, d)]
            return [(('tuple', vs), t) for vs, t in acc]
        if isinstance(e, ast.JoinedStr):
            acc = [((), st)]
            for x in e.values:
                x = x.value if isinstance(x, ast.FormattedValue) else x
                acc = [(vs+(v,), u) for vs, t in acc for v, u in s.ex(x, t, f, d)]
            return [(s.concat(vs), t) for vs, t in acc]
        if isinstance(e, ast.BinOp):
            out = []
            for a, t in s.ex(e.left, st, f, d):
                for b, u in s.ex(e.right, t, f, d):
                    if isinstance(e.op, ast.Add): out.append((s.concat((a, b)), u))
                    elif isinstance(e.op, ast.Div): out.append((s.join(a, (b,)), u))
                    else: out.append((('bin', type(e.op).__name__, a, b), u))
            return out
        if isinstance(e, ast.Subscript):
            return [(v[1][k[1]] if v[0] == 'tuple' and k[0] == 'const' and isinstance(k[1], int) and -len(v[1]) <= k[1] < len(v[1]) else ('item', v, k), u)
                    for v, t in s.ex(e.value, st, f, d) for k, u in s.ex(e.slice, t, f, d)]
        if isinstance(e, ast.Slice): return [(s.fresh(), st)]
        if isinstance(e, ast.DictComp): return [(('dictcomp', ast.unparse(e)), st)]
        if isinstance(e, ast.Starred): return [(('star', v), t) for v, t in s.ex(e.value, st, f, d)]
        if isinstance(e, ast.NamedExpr): return [(v, s.assign(e.target, v, t, f, d)) for v, t in s.ex(e.value, st, f, d)]
        if isinstance(e, ast.Call): return s.call(e, st, f, d)
        return [(s.fresh(), st)]

    def res(s, r, name):
        if isinstance(r, tuple) and r[0] == 'ext': return ('glob', r[1])
        if isinstance(r, tuple) and r[0] == 'global':
            vals = r[1].globals.get(r[2], [])
            if len(vals) == 1 and isinstance(vals[0], ast.Constant): return ('const', vals[0].value)
            return ('glob', r[1].name+'.'+r[2])
        if isinstance(r, Func): return ('func', r.qual)
        if isinstance(r, Cls): return ('cls', r.qual)
        if isinstance(r, Module): return ('glob', r.name)
        return ('glob', name)

    def concat(s, vs):
        out = []
        for v in vs:
            for w in (v[1] if v[0] == 'cat' else (v,)):
                if out and out[-1][0] == 'const' and w[0] == 'const' and isinstance(w[1], str) and isinstance(out[-1][1], str): out[-1] = ('const', out[-1][1]+w[1])
                else: out.append(w)
        return out[0] if len(out) == 1 else ('cat', tuple(out))

    def join(s, base, parts):
        for q in parts: base = ('path', base, q)
        return base

    def call(s, e, st, f, d):
        acc = [((), st)]
        for a in e.args: acc = [(vs+(v,), u) for vs, t in acc for v, u in s.ex(a, t, f, d)]
        kacc = [(vs, (), t) for vs, t in acc]
        for k in e.keywords: kacc = [(vs, ks+((k.arg, v),), u) for vs, ks, t in kacc for v, u in s.ex(k.value, t, f, d)]
        out = []
        for vs, ks, t in kacc: out += s.apply(e, vs, ks, t, f, d)
        return out

    def apply(s, e, vs, ks, st, f, d):
        fn = e.func; name = callname(e)
        base = None; full = None
        if isinstance(fn, ast.Attribute):
            r = s.p.resolve(fn, f) if not (isinstance(fn.value, ast.Name) and fn.value.id in st.env) else None
            if r is not None:
                v = s.res(r, name)
                full = v[1] if v[0] in ('glob', 'func', 'cls') else None
            if r is None or full is None:
                for b, t in s.ex(fn.value, st, f, d): base = b; st = t; break
                if base is not None and base[0] == 'glob': full = f'{base[1]}.{fn.attr}'
        elif isinstance(fn, ast.Name):
            if fn.id in st.env: base = st.env[fn.id]
            else:
                v = s.res(s.p.resolve(fn, f), fn.id); full = v[1] if v[0] in ('glob', 'func', 'cls') else fn.id
        if full and full.startswith('builtins.'): full = full[9:]
        # paths and files
        if name == 'joinpath' and isinstance(fn, ast.Attribute):
            for b, t in s.ex(fn.value, st, f, d): return [(s.join(b, vs), t)]
        if full == 'os.path.join' and vs: return [(s.join(vs[0], vs[1:]), st)]
        if full in ('pathlib.Path', 'str', 'os.fspath') and len(vs) == 1 and vs[0][0] in ('path', 'const'): return [(vs[0], st)]
        if full in ('open', 'io.open') and vs: return [(('handle', vs[0], s.hid(st)), st.ev(('open', vs[0])))]
        if name == 'open' and base is not None and base[0] == 'path': return [(('handle', base, s.hid(st)), st.ev(('open', base)))]
        if name == 'read_bytes' and base is not None and base[0] == 'path': return [(('bytes', base), st.ev(('open', base)))]
        if name == 'read' and base is not None and base[0] == 'handle': return [(('bytes', base[1]), st)]
        if full in ('os.stat',) and vs: return [(('stat', vs[0]), st.ev(('stat', vs[0])))]
        if name == 'stat' and base is not None and base[0] == 'path': return [(('stat', base), st.ev(('stat', base)))]
        if full in ('os.path.getmtime', 'os.path.getctime') and vs: return [(('attr', ('stat', vs[0]), 'st_'+full[-5:]), st.ev(('stat', vs[0])))]
        if full in ('pickle.load', 'json.load') and vs:
            h = vs[0]
            if h[0] == 'handle':
                k = sum(1 for q in st.events if q[0] == 'load' and q[1] == h)
                v = ('load', full.split('.')[0], h[1], k)
                return [(v, st.ev(('load', h, v, st.atoms)))]
            v = ('load', full.split('.')[0], h, 0)
            return [(v, st.ev(('load', h, v, st.atoms)))]
        if full in ('pickle.loads', 'json.loads') and vs and vs[0][0] == 'bytes':
            v = ('load', full.split('.')[0], vs[0][1], 0)
            return [(v, st.ev(('load', vs[0], v, st.atoms)))]
        # library functions
        cs = s.p.callees(e, f, cha=False) if not (base is not None and base[0] == 'new') else []
        if isinstance(fn, ast.Attribute) and base in (('param', 'self'), ('me',)) and not cs and f.cls:
            m = s.p.find_method(f.cls, fn.attr)
            cs = [m] if m else []
        c = cs[0] if len(cs) == 1 else None
        if isinstance(c, Cls): return [(('new', c.qual, vs), st)]
        if isinstance(c, Func) and c.name == '__init__': return [(('new', c.cls.qual, vs), st)]
        if isinstance(c, Func) and d < s.maxdepth and not s.opaque(c) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(c.node)):
            m = arg_map(e, c); a = {}
            vals = {id(x): v for x, v in zip(e.args, vs)} | {id(k.value): v for k, v in zip(e.keywords, [q[1] for q in ks])}
            for pn, x in m.items(): a[pn] = vals.get(id(x), s.fresh())
            for pn, dv in defaults(c.node).items():
                if pn not in a: a[pn] = ('const', dv.value) if isinstance(dv, ast.Constant) else s.fresh()
            if c.cls is not None and not c.is_static and c.params and c.params[0] == 'self': a['self'] = ('me',) if base in (None, ('param', 'self'), ('me',)) else base
            if c.parent is not None and isinstance(c.parent, Func): a = {**{k: v for k, v in st.env.items() if k not in c.allparams}, **a}
            return [(v, t.copy(env=st.env)) for kind, t, v in s.run(c, a, st, d+1) if kind == 'return']
        if base is not None and base[0] == 'new': return [(('call', f'{base[1]}.{fn.attr}' if isinstance(fn, ast.Attribute) else name, vs), st.ev(('call', f'{base[1]}.{name}', vs)))]
        label = full or (c.qual if isinstance(c, Func) else None) or name
        if base is not None and full is None and isinstance(fn, ast.Attribute): return [(('call', '.'+name, (base,)+vs), st.ev(('call', '.'+name, (base,)+vs)))]
        return [(('call', label, vs), st.ev(('call', label, vs)))]

    def hid(s, st): return sum(1 for q in st.events if q[0] == 'open')


def defaults(fnode):
    a = fnode.args; out = {}
    pos = a.posonlyargs + a.args
    for x, v in zip(pos[len(pos)-len(a.defaults):], a.defaults): out[x.arg] = v
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None: out[x.arg] = v
    return out
