"""C18: every while loop makes progress towards its end.

For every while loop of the library (demonstrations excepted), on its control-flow graph: a trip is a path from the head of the loop back to it.
Rule: there is no trip on which everything that its conditions depend on is, when the conditions are evaluated, the same as on the
trip before - such a trip would be repeated for ever. A value is the same if no statement of the trip changes it, or if it is
computed in the trip from values that are the same (so reading the line at a position that did not move is no progress). Calls of
unknown code, of methods that change their object, reads from files and the like count as progress, and so does a statement that changes a value that
the conditions depend on. A condition that compares a counter with a bound must not lose the bound: on every trip that changes only
the counter by a constant, it changes towards the bound."""
from common import *
from kinds import Kinds

RULE = __doc__
ASSUMPTIONS = ['a call of unknown code may change its object and its arguments', 'a for loop within a while loop goes round at least once if its body changes what matters', 'a statement that can raise an exception and is caught within the loop may raise it again and again only if it contains a call']
PURE = {'len', 'int', 'str', 'ord', 'chr', 'min', 'max', 'sum', 'sorted', 'list', 'dict', 'set', 'tuple', 'isinstance', 'type', 'range', 'enumerate', 'zip', 'abs', 'bool', 'repr', 'any', 'all', 'round', 'float', 'reversed', 'hasattr', 'getattr', 'print', 'frozenset', 'bytes', 'divmod', 'hex', 'map', 'filter', 'format', 'id', 'hash', 'issubclass', 'callable'}
PUREM = {'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'find', 'rfind', 'index', 'rindex', 'split', 'rsplit', 'splitlines', 'lower', 'upper', 'title', 'get', 'keys', 'items', 'values', 'count', 'replace', 'join', 'format', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'group', 'groups', 'start', 'end', 'span', 'copy', 'partition', 'rpartition', 'encode', 'decode', 'casefold', 'capitalize', 'zfill', 'ljust', 'rjust', 'center', 'translate', 'search', 'match', 'fullmatch', 'sub', 'findall', 'union', 'intersection', 'difference', 'issubset', 'isnumeric', 'isdecimal'}
PUREX = ('re.', 'os.path.join', 'os.path.basename', 'os.path.split', 'math.', 'unicodedata.', 'copy.')
CHANGE = {'append', 'pop', 'insert', 'remove', 'extend', 'add', 'discard', 'update', 'clear', 'sort', 'reverse', 'popitem', 'setdefault', 'popleft', 'appendleft', 'write', 'read', 'readline', 'readlines', 'seek'}
CAP = 60000


def key(e):
    d = dotted(e)
    return d


def reads(e):
    """the variables an expression reads, as dotted names"""
    out = set()

    def go(x, bound):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)):
            b = set(bound)
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): b.add(y.id)
                if isinstance(y, ast.arg): b.add(y.arg)
            for c in ast.iter_child_nodes(x): go(c, b)
            return
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute): go(x.func.value, bound)
            elif not isinstance(x.func, ast.Name): go(x.func, bound)
            for c in x.args: go(c, bound)
            for c in x.keywords: go(c.value, bound)
            return
        if isinstance(x, (ast.Name, ast.Attribute)):
            d = dotted(x)
            if d is not None:
                if d.split('.')[0] not in bound and isinstance(x.ctx, ast.Load): out.add(d)
                return
        for c in ast.iter_child_nodes(x): go(c, bound)
    go(e, frozenset())
    return out


def touches(k, w):
    """a change of w is a change of k"""
    return k == w or k.startswith(w + '.') or w.startswith(k + '.')


class Trips:
    def __init__(s, p): s.p = p; s.K = Kinds(p); s.pm = {}; s.R = Reporter(p)

    def pure(s, g, depth=0):
        """the function changes nothing outside itself"""
        if g in s.pm: return s.pm[g]
        s.pm[g] = True                                    # (recursion)
        ok = depth < 5 and not g.nested
        if ok:
            loc = s.p.locals_of(g); par = set(g.allparams)
            own = {n for n in loc if n not in par}
            for x in own_nodes(g.node):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b = x
                    while isinstance(b, (ast.Attribute, ast.Subscript)): b = b.value
                    if not (isinstance(b, ast.Name) and b.id in own): ok = False; break
                if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)): ok = False; break
                if isinstance(x, ast.Call) and not s.quiet(x, g, depth+1, own): ok = False; break
        s.pm[g] = ok
        return ok

    def quiet(s, x, f, depth=0, own=()):
        """a call that changes nothing"""
        if is_log_call(x, f, s.p): return True
        fn = x.func
        if isinstance(fn, ast.Name) and fn.id in ('vPrint', 'fnPrint', 'dPrint'): return True
        r = s.p.resolve(fn, f)
        if isinstance(fn, ast.Name) and r is None or isinstance(r, tuple) and r[0] in ('builtin',): return isinstance(fn, ast.Name) and fn.id in PURE and not s.p.is_local(fn.id, f)
        if isinstance(r, tuple) and r[0] == 'ext': return r[1].startswith(PUREX) or r[1][9:] in PURE and r[1].startswith('builtins.')
        if isinstance(r, Func): return s.pure(r, depth)
        if isinstance(fn, ast.Attribute):
            if fn.attr in PUREM: return not [c for c in s.p.callees(x, f, cha=False) if isinstance(c, Func) and not s.pure(c, depth)]
            if fn.attr in CHANGE:
                b = fn.value
                while isinstance(b, (ast.Attribute, ast.Subscript)): b = b.value
                return isinstance(b, ast.Name) and b.id in own
            cs = [c for c in s.p.callees(x, f, cha=False)]
            return bool(cs) and all(isinstance(c, Func) and s.pure(c, depth) for c in cs)
        return False

    def node(s, n, f):
        """(steps of one node in order: ('read', names) for a condition, ('set', name, names read, fresh) , ('change', name))"""
        a = n.ast; out = []
        if n.kind in ('loophead', 'handler', 'finally', 'with_exit', 'foriter'):
            if n.kind == 'handler' and a.name: out.append(('set', a.name, frozenset(), True))
            return out
        exprs = list(node_exprs(n))
        fresh = False; chg = set()
        for e in exprs:
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and not s.quiet(x, f):
                    fresh = True
                    fn = x.func
                    if isinstance(fn, ast.Attribute):
                        b = fn.value
                        while isinstance(b, (ast.Subscript, ast.Call)): b = b.value if isinstance(b, ast.Subscript) else b.func
                        d = dotted(b)
                        if d: chg.add(d if fn.attr in CHANGE or not d.endswith('.'+fn.attr) else d[:-len(fn.attr)-1])
                    if not (isinstance(fn, ast.Attribute) and fn.attr in CHANGE and not [c for c in s.p.callees(x, f, cha=False) if isinstance(c, Func)]):
                        for y in list(x.args) + [k.value for k in x.keywords]:
                            for d in reads(y):
                                if not s.scalar(y, f) and s.given(x, y, f): chg.add(d)
                        if f.cls is not None and f.params: chg.add(f.params[0])
                        for g in own_globals(f): chg.add(g)
                        for g in f.nested.values(): chg |= {z for w in ast.walk(g.node) if isinstance(w, ast.Nonlocal) for z in w.names}
                        if f.parent is not None: chg |= {z for w in ast.walk(f.parent.node) if isinstance(w, ast.Nonlocal) for z in w.names}
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)): fresh = True; chg |= {f.params[0]} if f.params else set()
                if isinstance(x, ast.NamedExpr): out.append(('set', x.target.id, frozenset(reads(x.value)), fresh))
        if n.kind == 'test':
            for d in chg: out.append(('change', d))
            out.append(('read', frozenset(reads(a)), fresh and not chg))
            return out
        if n.kind == 'forhead':
            for y in ast.walk(a.target):
                if isinstance(y, (ast.Name, ast.Attribute)) and isinstance(y.ctx, ast.Store) and dotted(y): out.append(('set', dotted(y), frozenset(reads(a.iter)), any(isinstance(x, ast.Call) and not s.quiet(x, f) for x in ast.walk(a.iter))))
            return out
        if n.kind == 'with_enter':
            for it in a.items:
                if it.optional_vars is not None:
                    for y in ast.walk(it.optional_vars):
                        if isinstance(y, ast.Name): out.append(('set', y.id, frozenset(), True))
            return out + [('change', d) for d in chg]
        if n.kind == 'case':
            return [('read', frozenset(), True)]
        out += [('change', d) for d in chg]
        targets = a.targets if isinstance(a, (ast.Assign, ast.Delete)) else [a.target] if isinstance(a, (ast.AugAssign, ast.AnnAssign)) and getattr(a, 'value', None) is not None else []
        flat = []
        for t in targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(a, ast.Assign) and isinstance(a.value, (ast.Tuple, ast.List)) and len(a.value.elts) == len(t.elts) and not any(isinstance(z, ast.Starred) for z in t.elts+a.value.elts):
                flat += [(x, v) for x, v in zip(t.elts, a.value.elts)]
            elif isinstance(t, (ast.Tuple, ast.List)): flat += [(x.value if isinstance(x, ast.Starred) else x, a.value) for x in t.elts]
            else: flat.append((t, getattr(a, 'value', None)))
        sets = []
        for t, v in flat:
            rd = frozenset(reads(v)) if v is not None else frozenset()
            if isinstance(t, ast.Name): sets.append((t.id, rd, fresh or isinstance(a, (ast.AugAssign, ast.Delete)) or t.id in rd, v if isinstance(a, ast.Assign) and not (isinstance(a.targets[0], ast.Tuple) and not isinstance(a.value, ast.Tuple)) else None))
            elif isinstance(t, ast.Attribute) and dotted(t): sets.append((dotted(t), rd, fresh or isinstance(a, (ast.AugAssign, ast.Delete)) or dotted(t) in rd, None))
            else:
                b = t
                while isinstance(b, (ast.Subscript, ast.Attribute)) and dotted(b) is None: b = b.value
                if dotted(b): out.append(('change', dotted(b)))
        if sets: out.append(('sets', tuple(sets)))
        return out

    def domain(s, e):
        """the only values that the attribute compared with a constant is ever given"""
        if not (isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq) and isinstance(e.left, ast.Attribute) and isinstance(e.comparators[0], ast.Constant)): return None
        if not hasattr(s, 'doms'):
            s.doms = {}
            for m in s.p.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                            if isinstance(t, ast.Attribute): s.doms.setdefault(t.attr, set()).add(x.value.value if isinstance(x.value, ast.Constant) and not isinstance(x, ast.AugAssign) else ...)
                            elif isinstance(t, (ast.Tuple, ast.List)):
                                for y in t.elts:
                                    if isinstance(y, ast.Attribute): s.doms.setdefault(y.attr, set()).add(...)
        d = s.doms.get(e.left.attr)
        return d if d and ... not in d else None

    def given(s, call, e, f):
        """the called function may change what it is given here"""
        cs = s.p.callees(call, f, cha=False)
        gs = [c for c in cs if isinstance(c, Func)]
        if not gs or len(gs) != len(cs): return True
        for g in gs:
            ps = [k for k, v in arg_map(call, g).items() if v is e]
            if not ps or ps[0] in s.mutated(g): return True
        return False

    def mutated(s, g, depth=0):
        k = ('mut', g)
        if k in s.pm: return s.pm[k]
        s.pm[k] = set()
        out = set(); par = set(g.allparams)
        if g.nested or depth > 4: out = par
        else:
            al = {}                                        # (a local name that holds a parameter)
            for x in own_nodes(g.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in par:
                    for t in x.targets:
                        if isinstance(t, ast.Name): al.setdefault(t.id, set()).add(x.value.id)
            def of(e):
                b = e
                while isinstance(b, (ast.Attribute, ast.Subscript)): b = b.value
                return ({b.id} & par | al.get(b.id, set())) if isinstance(b, ast.Name) else set()
            for x in own_nodes(g.node):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)): out |= of(x)
                if isinstance(x, ast.Call) and not is_log_call(x, g, s.p):
                    if isinstance(x.func, ast.Attribute) and x.func.attr not in PUREM: out |= of(x.func.value)
                    if s.quiet(x, g, 1): continue
                    cs = s.p.callees(x, g, cha=False); gs = [c for c in cs if isinstance(c, Func)]
                    for y in list(x.args) + [k2.value for k2 in x.keywords]:
                        if isinstance(y, ast.Starred): y = y.value
                        if not isinstance(y, (ast.Name, ast.Attribute)) or not of(y): continue
                        if isinstance(x.func, ast.Name) and x.func.id in PURE or len(gs) != len(cs) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGE: continue
                        if gs and len(gs) == len(cs):
                            for h in gs:
                                ps = [q for q, v in arg_map(x, h).items() if v is y]
                                if not ps or ps[0] in s.mutated(h, depth+1): out |= of(y)
                        elif s.scalar(y, g): pass
                        else: out |= of(y)
        s.pm[k] = out
        return out

    def scalar(s, e, f):
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice): return True          # (a copy)
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.BinOp)): return True
        if isinstance(e, ast.Tuple): return all(s.scalar(x, f) for x in e.elts)
        try: k = s.K.of(e, f)
        except Exception: k = None
        return bool(k) and set(k) <= {'str', 'int', 'float', 'bool', 'none', 'bytes', 'tuple'}

    def loop(s, f, c, head):
        """the nodes of one trip that repeats itself, or None; 'cap' if there are too many paths"""
        body = body_of(c, head)
        outer = Before(c, head, body)
        # variables that matter: read by conditions, and whatever those are computed from in the loop
        steps = {n: s.node(n, f) for n in body}
        rel = set()
        for n in body:
            for st in steps[n]:
                if st[0] == 'read': rel |= st[1]
        more = True
        while more:
            more = False
            for n in body:
                for st in steps[n]:
                    for nm, rd, fr, _v in ([(st[1], st[2], st[3], None)] if st[0] == 'set' else st[1] if st[0] == 'sets' else []):
                        if any(touches(r, nm) for r in rel) and not rd <= rel: rel |= rd; more = True
        texts = {}
        for n in body:
            if n.kind == 'test': texts.setdefault(ast.unparse(pos(n.ast)[0]), []).append(n)
        twice = {t for t, ns in texts.items() if len(ns) > 1}
        start = (frozenset(), frozenset())                # (status of variables, known conditions)
        todo = [(t, l, start, (head,)) for t, l in head.succ if t in body]
        seen = set()
        while todo:
            n, lab, (stat, facts), path = todo.pop()
            if n is head: return [x for x in path if x.ast is not None]
            if (n, stat, facts) in seen: continue
            seen.add((n, stat, facts))
            if len(seen) > CAP: return 'cap'
            sd = dict(stat); fd = dict(facts); bad = False
            before = (stat, facts)
            for st in steps[n]:
                if st[0] == 'read':
                    if st[2]: bad = True; break
                    for k in st[1]:
                        v = status(sd, k)
                        if v == 'changed': bad = True
                        elif v is None: sd[k] = 'read'
                    if bad: break
                else:
                    todo2 = [(st[1], frozenset(), True, None)] if st[0] == 'change' else [(st[1], st[2], st[3], None)] if st[0] == 'set' else list(st[1])
                    nv = []
                    for nm, rd, fr, cv in todo2:
                        fd.pop('='+nm, None)
                        if isinstance(cv, ast.Constant): fd['='+nm] = (type(cv.value).__name__, cv.value)
                        if not any(touches(r, nm) for r in rel): continue
                        varies = fr or any(status(sd, k) == 'changed' for k in rd)
                        again = not varies and sd.get(nm) == 'read' and cv is not None and not isinstance(cv, ast.Constant) and ast.unparse(cv) in outer(nm)
                        if again: sd[nm] = 'same'
                        nv.append((nm, rd, varies))
                    for nm, rd, varies in nv:
                        if not varies:
                            for k in rd:
                                if status(sd, k) is None and k != nm: sd[k] = 'read'
                    for nm, rd, varies in nv:
                        if any(v == 'read' and touches(k, nm) for k, v in sd.items()): bad = True; break
                        if varies or st[0] == 'change':
                            for k in rel:
                                if touches(k, nm): sd[k] = 'changed'
                            sd[nm] = 'changed'
                        else: sd[nm] = 'same'
                    for nm, rd, varies in nv:
                        for t in [t for t in fd if t[0] != '=' and any(touches(k, nm) for k in reads(texts[t][0].ast))]: del fd[t]
                    if bad: break
            if bad: continue
            new = (frozenset(sd.items()), None)
            for t, l in n.succ:
                if t not in body: continue
                if l == 'exc':
                    if n.kind == 'raise' or any(isinstance(x, (ast.Call, ast.Subscript)) for e in node_exprs(n) for x in ast.walk(e)): todo.append((t, l, (frozenset(dict(before[0]).items()) if n.kind != 'raise' else new[0], before[1]), path + (n,)))
                    continue
                fd2 = fd
                if n.kind == 'test' and l in (True, False):
                    e, po = pos(n.ast); tx = ast.unparse(e); val = l == po
                    known = valued(e, fd)
                    if known is not None and known != val: continue
                    dom = s.domain(e)
                    if dom is not None and not val:
                        left = [v for v in dom if v != e.comparators[0].value and fd.get(f'{ast.unparse(e.left)} == {v!r}') is not False]
                        if not left: continue
                    if tx in twice or dom is not None:
                        if fd.get(tx, val) != val: continue
                        fd2 = {**fd, tx: val}
                if n.kind == 'forhead' and l is False and n not in path: continue
                todo.append((t, l, (new[0], frozenset(fd2.items())), path + (n,)))
        return None


class Before:
    """the texts of the assignments whose value a variable has when the loop is entered"""
    def __init__(s, c, head, body): s.starts = [n for n, l in head.pred if n not in body]; s.memo = {}

    def __call__(s, nm):
        if nm not in s.memo:
            out = set(); seen = set(); st = list(s.starts)
            while st:
                n = st.pop()
                if n in seen: continue
                seen.add(n); hit = False
                if n.kind == 'stmt' and isinstance(n.ast, ast.Assign):
                    for t in n.ast.targets:
                        if isinstance(t, ast.Name) and t.id == nm: out.add(ast.unparse(n.ast.value)); hit = True
                if not hit: st += [q for q, l in n.pred]
            s.memo[nm] = out
        return s.memo[nm]


def own_globals(f):
    return {x for n in own_nodes(f.node) if isinstance(n, ast.Global) for x in n.names}


def pos(e):
    po = True
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e, po = e.operand, not po
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot)):
        op = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(e.ops[0])]()
        e, po = ast.Compare(e.left, [op], e.comparators), not po
    return e, po


def valued(e, fd):
    """the truth of a condition on a variable that was given a constant"""
    if isinstance(e, ast.Name) and '='+e.id in fd: return bool(fd['='+e.id][1])
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and '='+e.left.id in fd:
        v = fd['='+e.left.id][1]; o = e.comparators[0]
        try: w = ast.literal_eval(o)
        except Exception: return None
        try:
            if isinstance(e.ops[0], (ast.Eq, ast.Is)): return v == w
            if isinstance(e.ops[0], ast.In): return v in w
        except TypeError: pass
    return None


def status(sd, k):
    if k in sd: return sd[k]
    out = None
    for q, v in sd.items():
        if v in ('changed', 'same') and touches(k, q): out = v if out != 'changed' else out
    return out


def body_of(c, head):
    """the nodes from which the head can be reached again without leaving the loop (the natural loop)"""
    inside = {id(x) for x in ast.walk(head.ast)}
    back = set(); st = [n for n, l in head.pred if n.ast is not None and (id(n.ast) in inside) ]
    ok = lambda n: n is head or n.ast is not None and (id(n.ast) in inside)
    while st:
        n = st.pop()
        if n in back or n is head: continue
        back.add(n); st += [q for q, l in n.pred if ok(q)]
    back.add(head)
    return back


def receding(f, w):
    """a counter compared with a bound that the loop only moves away from it"""
    if isinstance(w.test, ast.Compare) and len(w.test.ops) == 1 and isinstance(w.test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        for side, up in ((w.test.left, isinstance(w.test.ops[0], (ast.Lt, ast.LtE))), (w.test.comparators[0], isinstance(w.test.ops[0], (ast.Gt, ast.GtE)))):
            if not isinstance(side, ast.Name): continue
            ws = [x for x in ast.walk(w) if isinstance(x, (ast.Assign, ast.AugAssign, ast.NamedExpr, ast.For)) and any(isinstance(y, ast.Name) and y.id == side.id and isinstance(y.ctx, ast.Store) for y in ast.walk(x.target if not isinstance(x, ast.Assign) else ast.Tuple(x.targets, ast.Store())))]
            ks = [counts(x, side.id) for x in ws]
            if ks and all(k is not None for k in ks) and all((k < 0) == up and k != 0 for k in ks):
                other = w.test.comparators[0] if side is w.test.left else w.test.left
                if not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in {y.id for y in ast.walk(other) if isinstance(y, ast.Name)} for x in ast.walk(w)) and not any(isinstance(x, ast.Call) for x in ast.walk(other)): return side.id
    return None


def counts(x, nm):
    """the constant by which the statement changes the counter"""
    if isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Add, ast.Sub)) and isinstance(x.value, ast.Constant) and type(x.value.value) is int: return x.value.value if isinstance(x.op, ast.Add) else -x.value.value
    if isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, (ast.Add, ast.Sub)) and isinstance(x.value.left, ast.Name) and x.value.left.id == nm and isinstance(x.value.right, ast.Constant) and type(x.value.right.value) is int: return x.value.right.value if isinstance(x.value.op, ast.Add) else -x.value.right.value
    return None


def decide(p, r):
    T = Trips(p)
    for f in p.functions(demo=False):
        ws = [x for x in own_nodes(f.node) if isinstance(x, ast.While)]
        if not ws: continue
        c = cfg_of(f); live = reachable(c.entry)
        for n in c.nodes:
            if n.kind != 'loophead' or n not in live: continue
            r.count('while loops')
            t = T.loop(f, c, n)
            if t == 'cap': r.count('loops with too many paths'); continue
            k = f'{f.module.rel}:{f.short}:while {ast.unparse(n.ast.test)[:60]}'
            if t is not None:
                ls = [x.ast.lineno for x in t if hasattr(x.ast, 'lineno')]
                r.find('repeats:'+k, f.where(n.ast), f'{f.short}: this loop can go round for ever: on the trip through lines {",".join(map(str, dict.fromkeys(ls)))[:160]} nothing changes that its conditions depend on')
            w = receding(f, n.ast)
            if w: r.find('recedes:'+k, f.where(n.ast), f'{f.short}: {w} only moves away from the bound of this loop')


def run(p, r, tier):
    decide(p, r)
    r.floor('while loops', 100)


class _R:
    def __init__(s): s.k = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, *a): s.k['cap'] = 'cap' if 'many' in a[0] else s.k.get('cap')


def _st(body, want):
    def t():
        p = Project.from_sources({'BibleOrgSys/a.py': 'import re\n'+body}); r = _R(); decide(p, r); k = [x for x in r.k if x != 'cap']
        return not k if not want else any(want in x for x in k)
    return t


SELFTESTS = [
    ('counter', _st('def f(n):\n    i = 0\n    while i < n: i += 1\n', None)),
    ('no counter', _st('def f(n):\n    i = 0\n    while i < n: print(i)\n', 'repeats')),
    ('not on one path', _st('def f(L):\n    i = 0\n    while i < len(L):\n        x = L[i]\n        if x == 3: continue\n        i += 1\n', 'repeats')),
    ('on every path', _st('def f(L):\n    i = 0\n    while i < len(L):\n        x = L[i]; i += 1\n        if x == 3: continue\n        print(x)\n', None)),
    ('backwards', _st('def f(n):\n    i = 0\n    while i < n: i -= 1\n', 'recedes')),
    ('backwards to zero', _st('def f(n):\n    while n > 0: n -= 1\n', None)),
    ('find', _st('def f(t):\n    i = t.find("a")\n    while i != -1:\n        t = t[:i] + t[i+1:]\n        i = t.find("a")\n', None)),
    ('find again', _st('def f(t):\n    i = t.find("a")\n    while i != -1:\n        if t.startswith("b"): t = t[:i] + t[i+1:]\n        i = t.find("a")\n', 'repeats')),
    ('find further', _st('def f(t):\n    i = t.find("a")\n    while i != -1:\n        print(i)\n        i = t.find("a", i+1)\n', None)),
    ('file', _st('def f(F):\n    while True:\n        x = F.readline()\n        if not x: break\n', None)),
    ('break', _st('def f(L):\n    while True:\n        if len(L) > 3: break\n        print(L)\n', 'repeats')),
    ('shrinking', _st('def f(L):\n    while L: x = L.pop()\n', None)),
    ('not shrinking', _st('def f(L):\n    while L: x = L[0]\n', 'repeats')),
    ('two cases', _st('def f(n, a):\n    i = 0\n    while i < n:\n        if a: i += 1\n        if not a: i += 2\n', None)),
    ('two cases, one left out', _st('def f(n, a, b):\n    i = 0\n    while i < n:\n        if a: i += 1\n        elif b: i += 2\n', 'repeats')),
    ('caught', _st('def f(L):\n    i = 0\n    while i < len(L):\n        try:\n            x = int(L[i])\n            i += 1\n        except ValueError: print(i)\n', 'repeats')),
    ('flag', _st('def f(L):\n    done = False\n    while not done:\n        done = True\n        print(L)\n', None)),
    ('suffix', _st('def f(L, a):\n    r = q = (a, 1)\n    while r in L:\n        if r == q: r = (a, 1, "a")\n        else: r = (a, 1, chr(ord(r[2])+1))\n', None)),
    ('method that changes', _st('class B:\n    def f(self):\n        while self.n < 3: self.g()\n    def g(self): self.n += 1\n', None)),
    ('method that does not', _st('class B:\n    def f(self):\n        while self.n < 3: self.g()\n    def g(self): return self.n + 1\n', 'repeats')),
    ('inner loop', _st('def f(L):\n    todo = [1]\n    while todo:\n        for x in list(todo): todo.remove(x)\n', None)),
    ('attribute with two values', _st('class B:\n    def __init__(self, x):\n        self.b = 8\n        if x: self.b = 16\n    def f(self, n):\n        i = 0\n        while i < n:\n            if self.b == 8: i += 1\n            elif self.b == 16: i += 2\n', None)),
]
