"""Interprocedural abstract interpretation over sets of abstract values (flow-sensitive, path-insensitive: states are joined where
control flow meets).  Nothing of the analysed program is run: a call to code outside the analysed functions is an opaque term.

An abstract value is a frozenset of atoms (the values the expression may have):
  ('const', v)            a literal
  ('undef',)              not assigned
  ('name', dotted)        something identified by its (resolved) dotted name only
  ('meth', name, owner)   method `name` of owner ('self' or a term)
  ('func', qual)          a project function         ('cls', qual)  a project class
  ('closure', id)         nested function / lambda
  ('seq', kind, (v,...))  a list/tuple of known length       ('map', ((key,v),...))  a dict with literal keys
  ('op', name, (v,...))   an opaque term built from other values
  ('mix', {leaves})       some value computed from these leaves (widened)
"""
from __future__ import annotations
import ast
from project import *

MAXATOMS = 12
def const(v): return frozenset({('const', v)})
NONE = const(None); TRUE = const(True); FALSE = const(False); UNDEF = frozenset({('undef',)})
def one(atom): return frozenset({atom})
def op(name, *vals): return one(('op', name, tuple(vals)))
def seq(kind, vals): return one(('seq', kind, tuple(vals)))


def leaves(v, out=None, deep=True, depth=0):
    """the terms a value is made from (call results and names), through structure"""
    if out is None: out = set()
    if depth > 12: return out
    for a in v:
        k = a[0]
        if k == 'mix': out |= set(a[1])
        elif k == 'seq':
            for x in a[2]: leaves(x, out, deep, depth+1)
        elif k == 'map':
            for _, x in a[1]: leaves(x, out, deep, depth+1)
        elif k == 'op':
            if a[1].startswith('call:'): out.add(a)
            if deep or not a[1].startswith('call:'):
                for x in a[2]: leaves(x, out, deep, depth+1)
        elif k in ('name', 'meth', 'func', 'cls'): out.add(a)
    return out


def widen(v):
    if len(v) <= MAXATOMS: return v
    return one(('mix', frozenset(leaves(v, deep=False))))


def mix(*vals):
    s = set()
    for v in vals: leaves(v, s, deep=False)
    return one(('mix', frozenset(s)))


class State:
    __slots__ = ('env', 'facts')
    def __init__(self, env=None, facts=frozenset()): self.env = env if env is not None else {}; self.facts = facts
    def copy(self): return State(dict(self.env), self.facts)
    def with_fact(self, f):
        s = self.copy(); s.facts = self.facts | {f}; return s


def terms(atom):
    """an atom read as a sum: the set of its terms (None if it is not a sum of opaque terms)"""
    if atom == ('const', 0): return frozenset()
    if atom[0] == 'mix': return atom[1]
    if atom[0] == 'op' and atom[1].startswith('call:'): return frozenset({atom})
    return None


def zero_in(facts, term):
    v = one(term)
    for key, truth in facts:
        if key[0] == 'truthy' and key[1] == v and not truth: return True
        if key[0] == 'cmp' and key[2] == v and key[3] in (const(0), NONE, FALSE):
            if (key[1] in ('Eq', 'Is', 'LtE') and truth) or (key[1] in ('NotEq', 'IsNot', 'Gt') and not truth): return True
        if key[0] == 'cmp' and key[2] == v and key[3] == const(1) and ((key[1] == 'GtE' and not truth) or (key[1] == 'Lt' and truth)): return True
    return False


def absorb(a, fa, b):
    """the sum a plus terms that are known to be zero where a holds is the sum b"""
    if len(a) != 1 or len(b) != 1: return False
    (x,), (y,) = a, b
    tx, ty = terms(x), terms(y)
    return tx is not None and ty is not None and tx <= ty and tx != ty and all(zero_in(fa, t) for t in ty - tx)


def join_values(a, b, fa=frozenset(), fb=frozenset()):
    if a == b: return a
    if fa and absorb(a, fa, b): return b
    if fb and absorb(b, fb, a): return a
    # two lists of different lengths: content known only as a mixture
    la = [x for x in a if x[0] == 'seq']; lb = [x for x in b if x[0] == 'seq']
    if la and lb and {len(x[2]) for x in la} != {len(x[2]) for x in lb}:
        return one(('mix', frozenset(leaves(a, deep=False) | leaves(b, deep=False))))
    return widen(a | b)


def join(a, b):
    if a is None: return b
    if b is None: return a
    if a is b: return a
    env = {}
    for k in a.env.keys() | b.env.keys():
        env[k] = join_values(a.env.get(k, UNDEF), b.env.get(k, UNDEF), a.facts, b.facts)
    return State(env, a.facts & b.facts)


class Frame:
    def __init__(self, func): self.func = func; self.returns = []; self.tries = []


class Interp:
    """assume: dotted name / 'self.x' -> value;  on_call(interp, call, fvals, args, kwargs, state) -> value or None;
       policy(func) -> True to analyse a project function in line; on_return(interp, value, state, node)"""
    def __init__(self, p, assume=None, on_call=None, policy=None, on_return=None, on_branch=None, maxdepth=6):
        self.p = p; self.assume = assume or {}; self.on_call = on_call; self.policy = policy or (lambda f: False)
        self.on_return = on_return; self.on_branch = on_branch; self.maxdepth = maxdepth
        self.frames = []; self.try_stack = []; self.closures = {}; self.steps = 0
        self.loops = []
        self.binding = {}     # (func node, param) -> value when analysing in line

    # ---------------------------------------------------------------- running
    def run(self, f, args=None):
        st = State()
        for prm in f.allparams: st.env[prm] = one(('name', f'param:{prm}'))
        defaults = f.node.args.defaults; names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and names and not f.is_static: st.env[names[0]] = one(('name', 'self'))
        for k, v in (args or {}).items(): st.env[k] = v
        return self.call_body(f, st)

    def call_body(self, f, st):
        fr = Frame(f); self.frames.append(fr)
        savedloops, self.loops = self.loops, []
        try: end = self.block(f.node.body if not isinstance(f.node, ast.Lambda) else [ast.Return(value=f.node.body)], st)
        finally: self.frames.pop(); self.loops = savedloops
        if end is not None: fr.returns.append((NONE, end))
        if not fr.returns: return None, None
        val, out = None, None
        for v, s in fr.returns:
            val = v if val is None else join_values(val, v)
            out = join(out, s)
        return val, out

    @property
    def f(self): return self.frames[-1].func

    def block(self, stmts, st):
        for s in stmts:
            if st is None: return None
            st = self.stmt(s, st)
        return st

    # ---------------------------------------------------------------- statements
    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 400000: raise AnalysisError('abstract interpretation did not terminate')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None: return m(s, st)
        return st

    def s_Expr(self, s, st):
        from cfg import is_noreturn_expr
        if is_noreturn_expr(s.value): return None
        self.eval(s.value, st); return st

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets: self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None: self.assign(s.target, self.eval(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_load(s.target), s.target)
        a = self.eval(load, st); b = self.eval(s.value, st)
        self.assign(s.target, self.binop(s.op, a, b), st)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name): st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            d = self.dot(t, st)
            if d: st.env[d] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            outs = [None] * len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for a in v:
                if a[0] == 'seq' and not star and len(a[2]) == len(t.elts):
                    for i, x in enumerate(a[2]): outs[i] = x if outs[i] is None else join_values(outs[i], x)
                elif a[0] == 'seq' and not star:
                    self.length_mismatch = (len(a[2]), len(t.elts), t)
                    if self.on_branch: self.on_branch(self, 'unpack', (len(a[2]), len(t.elts)), t, st)
                else:
                    for i in range(len(outs)):
                        x = op('item', one(a), const(i))
                        outs[i] = x if outs[i] is None else join_values(outs[i], x)
            for e, x in zip(t.elts, outs):
                if isinstance(e, ast.Starred): e = e.value; x = mix(v)
                self.assign(e, x if x is not None else mix(v), st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st); key = self.eval(t.slice, st)
            new = None
            if len(base) == 1:
                (b,) = base
                if b[0] == 'map' and len(key) == 1 and next(iter(key))[0] == 'const':
                    kk = next(iter(key))[1]; items = tuple((k, x) for k, x in b[1] if k != kk) + ((kk, v),)
                    new = one(('map', items))
                elif b[0] == 'seq' and len(key) == 1 and next(iter(key))[0] == 'const' and isinstance(next(iter(key))[1], int):
                    i = next(iter(key))[1]
                    if -len(b[2]) <= i < len(b[2]):
                        l = list(b[2]); l[i] = v; new = seq(b[1], l)
            if new is None: new = mix(base, v)
            self.assign(t.value, new, st) if isinstance(t.value, (ast.Name, ast.Attribute)) else None

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if self.on_return: self.on_return(self, v, st, s)
        self.frames[-1].returns.append((v, st)); return None

    def s_Raise(self, s, st):
        if self.on_branch: self.on_branch(self, 'raise', None, s, st)
        return None
    def s_Assert(self, s, st):
        t, _ = self.branch(s.test, st)
        if t is None and self.on_branch: self.on_branch(self, 'assert-false', None, s, st)
        return t if t is not None else None
    def s_Break(self, s, st): self.loops[-1]['break'].append(st); return None
    def s_Continue(self, s, st): self.loops[-1]['cont'].append(st); return None
    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name): st.env.pop(t.id, None)
        return st

    def s_FunctionDef(self, s, st):
        self.closures[id(s)] = s; st.env[s.name] = one(('closure', id(s))); return st
    def s_ClassDef(self, s, st): return st

    def s_If(self, s, st):
        a, b = self.branch(s.test, st)
        if a is not None: a = self.block(s.body, a.copy())
        if b is not None: b = self.block(s.orelse, b.copy())
        return join(a, b)

    def s_With(self, s, st):
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        mids = pre
        self.try_stack.append(s.handlers)
        cur = st
        for x in s.body:
            if cur is None: break
            cur = self.stmt(x, cur.copy())
            mids = join(mids, cur)
        self.try_stack.pop()
        if cur is not None: cur = self.block(s.orelse, cur)
        out = cur
        for h in s.handlers:
            hs = mids.copy()
            if h.name: hs.env[h.name] = one(('name', 'exception'))
            out = join(out, self.block(h.body, hs))
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, mids.copy()); return None
            out = self.block(s.finalbody, out)
        return out
    s_TryStar = s_Try

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        known = None
        if len(it) == 1:
            (a,) = it
            if a[0] == 'seq' and len(a[2]) <= 200: known = list(a[2])
        loop = {'break': [], 'cont': []}; self.loops.append(loop)
        try:
            if known is not None:
                for x in known:
                    if st is None: break
                    self.assign(s.target, x, st)
                    loop['cont'] = []
                    st = self.block(s.body, st)
                    for c in loop['cont']: st = join(st, c)
                end = st
            else:
                end = st
                for _ in range(4):
                    cur = end.copy()
                    elem = None
                    for a in it:
                        if a[0] == 'seq':
                            for x in a[2]: elem = x if elem is None else join_values(elem, x)
                    self.assign(s.target, elem if elem is not None else op('elem', it), cur)
                    loop['cont'] = []
                    cur = self.block(s.body, cur)
                    for c in loop['cont']: cur = join(cur, c)
                    new = join(end, cur)
                    if new.env == end.env: end = new; break
                    end = new
        finally: self.loops.pop()
        if end is not None: end = self.block(s.orelse, end)
        for b in loop['break']: end = join(end, b)
        return end

    def s_While(self, s, st):
        loop = {'break': [], 'cont': []}; self.loops.append(loop)
        exits = None
        try:
            cur = st
            for _ in range(4):
                if cur is None: break
                t, f_ = self.branch(s.test, cur.copy())
                exits = join(exits, f_)
                if t is None: break
                loop['cont'] = []
                nxt = self.block(s.body, t.copy())
                for c in loop['cont']: nxt = join(nxt, c)
                new = join(cur, nxt)
                if new.env == cur.env: break
                cur = new
        finally: self.loops.pop()
        if exits is not None: exits = self.block(s.orelse, exits)
        for b in loop['break']: exits = join(exits, b)
        return exits

    def s_Match(self, s, st):
        v = self.eval(s.subject, st); out = None; wild = False
        rest = st
        for c in s.cases:
            out = join(out, self.block(c.body, rest.copy()))
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None: wild = True
        return out if wild else join(out, st)

    # ---------------------------------------------------------------- conditions
    def branch(self, t, st):
        """-> (state if true or None, state if false or None)"""
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And):
                cur, falses = st, None
                for x in t.values:
                    if cur is None: break
                    a, b = self.branch(x, cur); falses = join(falses, b); cur = a
                return cur, falses
            cur, trues = st, None
            for x in t.values:
                if cur is None: break
                a, b = self.branch(x, cur); trues = join(trues, a); cur = b
            return trues, cur
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.branch(t.operand, st); return b, a
        v = self.eval(t, st)
        tv = self.truth(v)
        if tv is True: return st, None
        if tv is False: return None, st
        key = ('truthy', v)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            key = ('cmp', type(t.ops[0]).__name__, self.eval(t.left, st), self.eval(t.comparators[0], st))
        if (key, True) in st.facts: return st, None
        if (key, False) in st.facts: return None, st
        a, b = st.with_fact((key, True)), st.with_fact((key, False))
        a.facts |= self.implied(v, True); b.facts |= self.implied(v, False)
        # refine a plain variable holding literals
        tt = t
        if isinstance(tt, ast.Name) and tt.id in st.env:
            pos = frozenset(x for x in st.env[tt.id] if self.truth(one(x)) is not False)
            neg = frozenset(x for x in st.env[tt.id] if self.truth(one(x)) is not True)
            if pos: a.env[tt.id] = pos
            if neg: b.env[tt.id] = neg
        return a, b

    def implied(self, v, truth, depth=0):
        """facts that follow from a computed truth value (a flag, or the result of a helper) being true / false"""
        out = frozenset()
        if len(v) != 1 or depth > 4: return out
        (x,) = v
        if x[0] != 'op': return out
        if x[1].startswith('cmp') and x[1] != 'cmp' and len(x[2]) == 2: return frozenset({(('cmp', x[1][3:], x[2][0], x[2][1]), truth)})
        if x[1] == 'Not': return self.implied(x[2][0], not truth, depth+1) | frozenset({(('truthy', x[2][0]), not truth)})
        if (x[1] == 'and' and truth) or (x[1] == 'or' and not truth):
            for y in x[2]: out |= self.implied(y, truth, depth+1) | frozenset({(('truthy', y), truth)})
        if x[1] == 'call:bool' and len(x[2]) == 1: return self.implied(x[2][0], truth, depth+1) | frozenset({(('truthy', x[2][0]), truth)})
        return out

    def truth(self, v):
        r = set()
        for a in v:
            if a[0] == 'const': r.add(bool(a[1]))
            elif a[0] == 'seq': r.add(bool(a[2]))
            elif a[0] == 'map': r.add(bool(a[1]))
            elif a[0] in ('meth', 'func', 'cls', 'closure'): r.add(True)
            else: return None
        return r.pop() if len(r) == 1 else None

    # ---------------------------------------------------------------- expressions
    def dot(self, e, st):
        """key of an attribute expression in the environment: 'self.x', 'Mod.x' """
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v is not None and len(v) == 1:
                (a,) = v
                if a[0] == 'name' and a[1] in ('self',): return 'self'
                if a[0] == 'name': return a[1]
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.dot(e.value, st)
            return f'{b}.{e.attr}' if b else None
        return None

    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None: return m(e, st)
        vals = [self.eval(c, st) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        return op(type(e).__name__, *vals)

    def e_Constant(self, e, st): return const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env: return st.env[e.id]
        f = self.f
        r = self.p.resolve(e, f)
        return self.resolved(r, e.id, st)

    def resolved(self, r, text, st):
        if isinstance(r, Func): return one(('func', r.qual)) if self._reg(r) else None
        if isinstance(r, Cls): self.classes[r.qual] = r; return one(('cls', r.qual))
        if isinstance(r, Module): return one(('name', r.name))
        if isinstance(r, tuple) and r[0] == 'ext':
            k = r[1][9:] if r[1].startswith('builtins.') else r[1]
            return self.assume.get(k, one(('name', k)))
        if isinstance(r, tuple) and r[0] == 'global':
            k = f'{r[1].name}.{r[2]}'
            for kk in (k, k.split('BibleOrgSys.')[-1]):
                if kk in st.env: return st.env[kk]
                if kk in self.assume: return self.assume[kk]
            vals = [v for v in r[1].globals.get(r[2], [])]
            if len(vals) == 1 and isinstance(vals[0], ast.Constant): return const(vals[0].value)
            if len(vals) == 1 and isinstance(vals[0], (ast.Tuple, ast.List, ast.Dict)) and self.f.module is not None:
                return self.module_value(r[1], r[2], vals[0])
            return one(('name', k))
        return one(('name', text))

    functions = {}; classes = {}
    def _reg(self, f): self.functions[f.qual] = f; return True

    def module_value(self, m, name, e):
        key = (m.name, name)
        if not hasattr(self, '_mv'): self._mv = {}
        if key not in self._mv:
            self._mv[key] = one(('name', f'{m.name}.{name}'))
            fake = ast.parse('def _m(): pass').body[0]
            g = Func('_m', fake, m)
            fr = Frame(g); self.frames.append(fr)
            try: self._mv[key] = self.eval(e, State())
            finally: self.frames.pop()
        return self._mv[key]

    def e_Attribute(self, e, st):
        d = self.dot(e, st)
        if d is not None:
            if d in st.env: return st.env[d]
            if d in self.assume: return self.assume[d]
        base = self.eval(e.value, st)
        if base == one(('name', 'self')) or d and d.startswith('self.') and d.count('.') == 1:
            c = self.owner_class()
            if c is not None:
                m = self.p.find_method(c, e.attr) or self._mangled(c, e.attr)
                if m is not None and not m.is_property:
                    self._reg(m); return one(('meth', e.attr, m.qual))
            return one(('name', f'self.{e.attr}'))
        r = self.p.resolve(e, self.f)
        if r is not None: return self.resolved(r, ast.unparse(e), st)
        if len(base) == 1:
            (a,) = base
            if a[0] == 'cls':
                c = self.classes.get(a[1]); m = self.p.find_method(c, e.attr) if c else None
                if m: self._reg(m); return one(('func', m.qual))
            if a[0] == 'name':
                k = f'{a[1]}.{e.attr}'
                for kk in (k, k.split('BibleOrgSys.')[-1]):
                    if kk in st.env: return st.env[kk]
                    if kk in self.assume: return self.assume[kk]
                return one(('name', k))
        return op('attr', base, const(e.attr))

    def _mangled(self, c, attr):
        return None

    def owner_class(self):
        for fr in reversed(self.frames):
            g = fr.func
            while g is not None:
                if g.cls is not None: return self.selfclass or g.cls
                g = g.parent
        return None
    selfclass = None

    def e_Tuple(self, e, st, kind='tuple'):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                if len(v) == 1 and next(iter(v))[0] == 'seq': out += list(next(iter(v))[2])
                else: return mix(*out, v)
            else: out.append(self.eval(x, st))
        return seq(kind, out)
    def e_List(self, e, st): return self.e_Tuple(e, st, 'list')
    def e_Set(self, e, st): return self.e_Tuple(e, st, 'set')

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                if len(vv) == 1 and next(iter(vv))[0] == 'map': items += list(next(iter(vv))[1]); continue
                return mix(*[x for _, x in items], vv)
            kv = self.eval(k, st)
            if len(kv) == 1 and next(iter(kv))[0] == 'const':
                kk = next(iter(kv))[1]
                items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
            else: return mix(*[x for _, x in items], vv)
        return one(('map', tuple(items)))

    def e_Subscript(self, e, st):
        base = self.eval(e.value, st); key = self.eval(e.slice, st) if not isinstance(e.slice, ast.Slice) else None
        if key is None:
            lo, hi, stp = (self.eval(x, st) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step))
            if len(base) == 1 and next(iter(base))[0] == 'seq' and all(len(x) == 1 and next(iter(x))[0] == 'const' for x in (lo, hi, stp)):
                a = next(iter(base)); return seq(a[1], a[2][slice(*(next(iter(x))[1] for x in (lo, hi, stp)))])
            return op('slice', base, lo, hi)
        out = None
        for a in base:
            r = None
            if len(key) == 1 and next(iter(key))[0] == 'const':
                k = next(iter(key))[1]
                if a[0] == 'seq' and isinstance(k, int) and -len(a[2]) <= k < len(a[2]): r = a[2][k]
                elif a[0] == 'map':
                    for kk, x in a[1]:
                        if kk == k: r = x
            if r is None:
                if a[0] == 'seq' and a[2]:
                    for x in a[2]: r = x if r is None else join_values(r, x)
                elif a[0] == 'map' and a[1]:
                    for _, x in a[1]: r = x if r is None else join_values(r, x)
                else: r = op('item', one(a), key)
            out = r if out is None else join_values(out, r)
        return out if out is not None else op('item', base, key)

    def e_BinOp(self, e, st): return self.binop(e.op, self.eval(e.left, st), self.eval(e.right, st))

    def binop(self, o, a, b):
        if len(a) == 1 and len(b) == 1:
            (x,), (y,) = a, b
            if x[0] == y[0] == 'const' and isinstance(o, (ast.Add, ast.Sub, ast.Mult)):
                try:
                    r = {ast.Add: lambda: x[1]+y[1], ast.Sub: lambda: x[1]-y[1], ast.Mult: lambda: x[1]*y[1]}[type(o)]()
                    if not isinstance(r, str) or len(r) < 2000: return const(r)
                except Exception: pass
            if x[0] == y[0] == 'seq' and isinstance(o, ast.Add): return seq(x[1], x[2] + y[2])
            if isinstance(o, ast.Mult):
                for q, n in ((x, y), (y, x)):
                    if q[0] == 'seq' and n[0] == 'const' and type(n[1]) is int and n[1] * len(q[2]) < 500: return seq(q[1], q[2] * n[1])
        if isinstance(o, (ast.Add, ast.Sub, ast.Mult)):
            ls = set()
            leaves(a, ls, deep=False); leaves(b, ls, deep=False)
            if any(isinstance(x[1], str) for v in (a, b) for x in v if x[0] == 'const'): return op('concat', a, b)
            if isinstance(o, ast.Add) and 1 < len(a) * len(b) <= MAXATOMS and all(terms(x) is not None for x in a | b):
                return frozenset(('mix', terms(x) | terms(y)) for x in a for y in b)
            return one(('mix', frozenset(ls)))
        return op(type(o).__name__, a, b)

    def e_JoinedStr(self, e, st):
        vals = [self.eval(x.value, st) if isinstance(x, ast.FormattedValue) else const(x.value) for x in e.values]
        return op('fstr', *vals)

    def e_IfExp(self, e, st):
        a, b = self.branch(e.test, st.copy())
        if a is None: return self.eval(e.orelse, st)
        if b is None: return self.eval(e.body, st)
        return join_values(self.eval(e.body, a), self.eval(e.orelse, b), a.facts, b.facts)

    def e_BoolOp(self, e, st):
        vals = [self.eval(x, st) for x in e.values]
        ts = [self.truth(v) for v in vals]
        if isinstance(e.op, ast.And):
            if any(t is False for t in ts): return FALSE
            if all(t is True for t in ts): return vals[-1]
        else:
            for v, t in zip(vals, ts):
                if t is True: return v
                if t is None: break
            if all(t is False for t in ts): return vals[-1]
        return op('and' if isinstance(e.op, ast.And) else 'or', *vals)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is not None: return const(not t)
        elif isinstance(e.op, ast.USub) and len(v) == 1 and next(iter(v))[0] == 'const':
            try: return const(-next(iter(v))[1])
            except Exception: pass
        return op(type(e.op).__name__, v)

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            a, b = self.eval(e.left, st), self.eval(e.comparators[0], st)
            o = e.ops[0]
            res = set()
            for x in a:
                for y in b:
                    res.add(self.cmp(o, x, y))
            if len(res) == 1 and None not in res: return const(res.pop())
            return op('cmp' + type(o).__name__, a, b)
        return op('cmp', *[self.eval(x, st) for x in [e.left] + e.comparators])

    def cmp(self, o, x, y):
        try:
            if x[0] == 'const' and y[0] == 'const':
                a, b = x[1], y[1]
                if isinstance(o, ast.Eq): return a == b
                if isinstance(o, ast.NotEq): return a != b
                if isinstance(o, ast.Is): return a is b or (a == b and type(a) == type(b))
                if isinstance(o, ast.IsNot): return not (a is b or (a == b and type(a) == type(b)))
                if isinstance(o, ast.Lt): return a < b
                if isinstance(o, ast.LtE): return a <= b
                if isinstance(o, ast.Gt): return a > b
                if isinstance(o, ast.GtE): return a >= b
                if isinstance(o, ast.In): return a in b
                if isinstance(o, ast.NotIn): return a not in b
            if isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and ('const', None) in (x, y):
                other = y if x == ('const', None) else x
                if other[0] in ('seq', 'map', 'meth', 'func', 'cls', 'closure'): return isinstance(o, (ast.IsNot, ast.NotEq))
            if isinstance(o, (ast.In, ast.NotIn)) and y[0] == 'seq' and x[0] == 'const':
                known = [z for v in y[2] for z in v]
                if all(z[0] == 'const' for z in known): return (x in known) == isinstance(o, ast.In)
        except Exception: return None
        return None

    def e_Lambda(self, e, st):
        self.closures[id(e)] = e; return one(('closure', id(e)))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st); st.env[e.target.id] = v; return v

    def e_ListComp(self, e, st, kind='list'):
        out = self.comp(e.generators, lambda s: self.eval(e.elt, s), st)
        return seq(kind, out) if out is not None else op('comp', *[self.eval(g.iter, st) for g in e.generators])
    e_GeneratorExp = e_ListComp
    def e_SetComp(self, e, st): return self.e_ListComp(e, st, 'set')
    def e_DictComp(self, e, st):
        out = self.comp(e.generators, lambda s: (self.eval(e.key, s), self.eval(e.value, s)), st)
        if out is not None and all(len(k) == 1 and next(iter(k))[0] == 'const' for k, _ in out):
            return one(('map', tuple((next(iter(k))[1], v) for k, v in out)))
        return op('comp', *[self.eval(g.iter, st) for g in e.generators])

    def comp(self, gens, elt, st):
        if not gens: return [elt(st)]
        g = gens[0]; it = self.eval(g.iter, st)
        if not (len(it) == 1 and next(iter(it))[0] == 'seq'): return None
        out = []
        for x in next(iter(it))[2]:
            s = st.copy(); self.assign(g.target, x, s)
            ok = True
            for c in g.ifs:
                a, b = self.branch(c, s)
                if a is None: ok = False; break
                if b is not None: return None
            if not ok: continue
            r = self.comp(gens[1:], elt, s)
            if r is None: return None
            out += r
        return out

    def e_Starred(self, e, st): return self.eval(e.value, st)
    def e_Await(self, e, st): return self.eval(e.value, st)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        fv = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if len(v) == 1 and next(iter(v))[0] == 'seq': args += list(next(iter(v))[2])
                else: args.append(mix(v))
            else: args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is not None: kw[k.arg] = v
            elif len(v) == 1 and next(iter(v))[0] == 'map':
                for kk, x in next(iter(v))[1]: kw[kk] = x
        # list/dict mutators on a variable
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Name, ast.Attribute)):
            r = self.mutator(e.func.attr, e.func.value, args, st)
            if r is not None: return r
        return self.apply(fv, args, kw, e, st)

    def mutator(self, name, tgt, args, st):
        if name not in ('append', 'extend', 'add', 'update', 'insert', 'setdefault'): return None
        base = self.eval(tgt, st)
        if not any(a[0] in ('seq', 'map', 'mix') for a in base): return None
        new = None
        if len(base) == 1:
            (b,) = base
            if name in ('append', 'add') and b[0] == 'seq' and len(args) == 1: new = seq(b[1], b[2] + (args[0],))
            elif name == 'extend' and b[0] == 'seq' and len(args) == 1 and len(args[0]) == 1 and next(iter(args[0]))[0] == 'seq':
                new = seq(b[1], b[2] + next(iter(args[0]))[2])
            elif name == 'update' and b[0] == 'map' and len(args) == 1 and len(args[0]) == 1 and next(iter(args[0]))[0] == 'map':
                add = dict(next(iter(args[0]))[1]); new = one(('map', tuple((k, v) for k, v in b[1] if k not in add) + tuple(add.items())))
        if new is None: new = mix(base, *args)
        self.assign(tgt, new, st)
        return NONE

    def apply(self, fv, args, kw, e, st):
        out = None
        for a in sorted(fv, key=repr):
            r = self.apply1(a, args, kw, e, st)
            if r is None: continue       # never returns
            out = r if out is None else join_values(out, r)
        if out is None:
            return op('call:noreturn')
        return out

    def apply1(self, a, args, kw, e, st):
        if self.on_call:
            r = self.on_call(self, e, a, args, kw, st)
            if r is not None: return r
        k = a[0]
        if k == 'name':
            r = self.builtin(a[1], args, kw, e, st)
            if r is not None: return r
            if a[1] in ('functools.partial',) and args: return op('partial', *args)
        if k == 'op' and a[1] == 'partial': return self.apply(a[2][0], list(a[2][1:]) + args, kw, e, st)
        if k in ('func', 'meth'):
            g = self.functions.get(a[1] if k == 'func' else a[2])
            if g is not None and self.policy(g) and len(self.frames) < self.maxdepth and not any(fr.func is g for fr in self.frames):
                return self.inline(g, args, kw, st, self_bound=(k == 'meth'))
        if k == 'closure':
            node = self.closures[a[1]]
            if len(self.frames) < self.maxdepth + 3 and sum(1 for fr in self.frames if fr.func.node is node) == 0:
                g = self.f.nested.get(getattr(node, 'name', None)) if not isinstance(node, ast.Lambda) else None
                if g is None or g.node is not node:
                    g = Func(getattr(node, 'name', '<lambda>'), node, self.f.module, parent=self.f)
                return self.inline(g, args, kw, st, closure=True)
        name = a[1] if k in ('name', 'func', 'cls', 'meth') else k
        allargs = list(args) + [op('kw:' + n, v) for n, v in sorted(kw.items())]
        if k == 'op': allargs = [one(a)] + allargs; name = a[1]
        return one(('op', 'call:' + str(name), tuple(allargs)))

    def inline(self, g, args, kw, st, self_bound=False, closure=False):
        new = State({}, st.facts)
        if closure: new.env = dict(st.env)
        else: new.env = {k: v for k, v in st.env.items() if '.' in k}      # self.x and Module.x survive
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = a.defaults
        for nm, dv in zip(names[len(names)-len(d):], d): new.env[nm] = self.eval_default(dv, g)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if dv is not None: new.env[x.arg] = self.eval_default(dv, g)
        if self_bound and names and not g.is_static: args = [one(('name', 'self'))] + args
        for nm, v in zip(names, args): new.env[nm] = v
        if a.vararg: new.env[a.vararg.arg] = seq('tuple', args[len(names):])
        for k, v in kw.items(): new.env[k] = v
        for nm in names: new.env.setdefault(nm, one(('name', f'param:{nm}')))
        val, out = self.call_body(g, new)
        if out is None: return None
        for k, v in out.env.items():
            if '.' in k: st.env[k] = v
        if closure:
            loc = set(names) | self.p.locals_of(g) if not isinstance(g.node, ast.Lambda) else set(names)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Nonlocal):
                    for x in n.names:
                        if x in out.env: st.env[x] = out.env[x]
            for k, v in out.env.items():
                if k not in loc and k in st.env and st.env[k] != v: st.env[k] = v     # mutated captured list
        return val

    def eval_default(self, e, g):
        fr = Frame(g); self.frames.append(fr)
        try: return self.eval(e, State())
        finally: self.frames.pop()

    def builtin(self, name, args, kw, e, st):
        ks = [next(iter(a)) if len(a) == 1 else None for a in args]
        if name == 'zip' and ks and all(x is not None and x[0] == 'seq' for x in ks):
            n = min(len(x[2]) for x in ks)
            lens = {len(x[2]) for x in ks}
            if len(lens) > 1 and self.on_branch: self.on_branch(self, 'zip', tuple(len(x[2]) for x in ks), e, st)
            return seq('list', [seq('tuple', [x[2][i] for x in ks]) for i in range(n)])
        if name == 'enumerate' and ks and ks[0] is not None and ks[0][0] == 'seq':
            return seq('list', [seq('tuple', [const(i), v]) for i, v in enumerate(ks[0][2])])
        if name in ('list', 'tuple', 'iter') and len(ks) == 1 and ks[0] is not None and ks[0][0] == 'seq': return seq('list' if name != 'tuple' else 'tuple', ks[0][2])
        if name in ('list', 'tuple') and not ks: return seq(name, [])
        if name == 'dict' and not ks: return one(('map', tuple(kw.items())))
        if name == 'dict' and len(ks) == 1 and ks[0] is not None and ks[0][0] == 'map': return args[0]
        if name == 'dict' and len(ks) == 1 and ks[0] is not None and ks[0][0] == 'seq':
            items = []
            for v in ks[0][2]:
                if len(v) != 1: return None
                (t,) = v
                if t[0] != 'seq' or len(t[2]) != 2 or len(t[2][0]) != 1 or next(iter(t[2][0]))[0] != 'const': return None
                items.append((next(iter(t[2][0]))[1], t[2][1]))
            return one(('map', tuple(items)))
        if name == 'len' and len(ks) == 1 and ks[0] is not None:
            if ks[0][0] == 'seq': return const(len(ks[0][2]))
            if ks[0][0] == 'map': return const(len(ks[0][1]))
            if ks[0][0] == 'const' and isinstance(ks[0][1], str): return const(len(ks[0][1]))
        if name == 'reversed' and len(ks) == 1 and ks[0] is not None and ks[0][0] == 'seq': return seq('list', ks[0][2][::-1])
        if name == 'map' and len(args) == 2 and ks[1] is not None and ks[1][0] == 'seq':
            return seq('list', [self.apply(args[0], [v], {}, e, st) for v in ks[1][2]])
        if name == 'bool' and len(args) == 1:
            t = self.truth(args[0])
            if t is not None: return const(t)
        if name == 'setattr' and len(args) == 3 and ks[1] is not None and ks[1][0] == 'const' and args[0] == one(('name', 'self')):
            st.env[f'self.{ks[1][1]}'] = args[2]; return NONE
        if name == 'getattr' and len(args) >= 2 and ks[1] is not None and ks[1][0] == 'const' and args[0] == one(('name', 'self')):
            return self.e_Attribute(ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=ks[1][1], ctx=ast.Load()), st)
        return None

    def e_method_items(self): pass


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    return t2


def map_methods(interp, e, a, args, kw, st):
    """values()/items()/keys()/get() of known dicts: call from on_call hooks"""
    if a[0] == 'op' and a[1] == 'attr' and len(a[2]) == 2:
        base, attr = a[2]; attr = next(iter(attr))[1]
        if len(base) == 1:
            (b,) = base
            if b[0] == 'map':
                if attr == 'items': return seq('list', [seq('tuple', [const(k), v]) for k, v in b[1]])
                if attr == 'values': return seq('list', [v for _, v in b[1]])
                if attr == 'keys': return seq('list', [const(k) for k, _ in b[1]])
                if attr == 'get' and args and len(args[0]) == 1 and next(iter(args[0]))[0] == 'const':
                    for k, v in b[1]:
                        if k == next(iter(args[0]))[1]: return v
                    return args[1] if len(args) > 1 else NONE
                if attr == 'copy': return base
            if b[0] == 'seq' and attr == 'copy': return base
    return None
