"""C16: a pattern is always given exactly the values that it has places for.

Patterns are constant texts (also translated with _(), concatenated, chosen by a condition, kept in a variable or a module constant,
with constant replacements made in them). Rule, at every reachable use:
 - str.format: the pattern is well formed; every numbered place and every named place has its argument, and every argument has
   a place; a place with a number format is not given a text;
 - the % operator: as many conversions as values;
 - a logging call: as many % conversions as further arguments;
 - a text that has {name} places for local variables, or {} places in a message, goes through format (or replace): otherwise the
   reader is shown the pattern instead of the values.
A pattern variable with several reaching definitions is followed along each path (equal conditions are not assumed both true and false)."""
import re, string
from common import *

RULE = __doc__
ASSUMPTIONS = ['_() translations keep the places of the English text']


def fields(t):
    """(positions, names, mixed numbering, [(root, spec)])"""
    auto, pos, names, man, specs = 0, set(), set(), False, []
    for lit, fld, spec, conv in string.Formatter().parse(t):
        if fld is None: continue
        inner = [q[1] for q in string.Formatter().parse(spec or '') if q[1] is not None]
        for i, fl in enumerate([fld] + inner):
            root = re.split(r'[.\[]', fl)[0]
            if root == '': r = auto; pos.add(auto); auto += 1
            elif root.isdigit(): r = int(root); pos.add(r); man = True
            else: r = root; names.add(root)
            if i == 0 and root == fl and not inner and not conv: specs.append((r, spec or ''))
    return pos, names, bool(auto and man), specs


PCT = re.compile(r'%(?:\((\w*)\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def percents(t):
    """(number of positional conversions, names) or None if malformed"""
    n, names = 0, set()
    i = 0
    while True:
        i = t.find('%', i)
        if i < 0: return n, names
        m = PCT.match(t, i)
        if not m or m.group(4) not in 'diouxXeEfFgGcrsa%': return None
        n += sum(1 for g in (m.group(2), m.group(3)) if g == '*')
        if m.group(4) != '%':
            if m.group(1) is not None: names.add(m.group(1))
            else: n += 1
        i = m.end()


class Patterns:
    def __init__(s, p): s.p = p; s.rd = {}

    def const(s, e, f, env=None, d=0):
        """the set of texts that e can be; None = unknown"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str): return {e.value}
        if d > 6: return None
        c = lambda x: s.const(x, f, env, d+1)
        if isinstance(e, ast.NamedExpr): return c(e.value)
        if isinstance(e, ast.IfExp):
            a, b = c(e.body), c(e.orelse)
            return a | b if a is not None and b is not None else None
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                a = c(v)
                if a is None: return None
                out |= a
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = c(e.left), c(e.right)
            return {x+y for x in a for y in b} if a and b else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and 0 <= e.right.value < 100:
            a = c(e.left)
            return {x*e.right.value for x in a} if a else None
        if isinstance(e, ast.JoinedStr):
            if all(isinstance(v, ast.Constant) for v in e.values): return {''.join(v.value for v in e.values)}
            return None
        if isinstance(e, ast.Call):
            nm = callname(e)
            if isinstance(e.func, ast.Name) and nm in ('_', 'gettext') and len(e.args) == 1: return c(e.args[0])
            if isinstance(e.func, ast.Name) and nm == 'str' and len(e.args) == 1: return c(e.args[0])
            if isinstance(e.func, ast.Attribute) and nm == 'replace' and len(e.args) == 2:
                t, a, b = c(e.func.value), c(e.args[0]), c(e.args[1])
                if t is None or a is None or b is None: return None
                return {x.replace(y, z) for x in t for y in a for z in b}
            if isinstance(e.func, ast.Attribute) and nm in ('strip', 'lstrip', 'rstrip', 'lower', 'upper') and not e.args:
                t = c(e.func.value)
                return {getattr(x, nm)() for x in t} if t else None
            if isinstance(e.func, ast.Attribute) and nm == 'join' and len(e.args) >= 2:      # os.path.join: the last part is the name pattern
                return c(e.args[-1])
            if isinstance(e.func, ast.Attribute) and nm == 'joinpath' and e.args: return c(e.args[-1])
            if isinstance(e.func, ast.Attribute) and nm == 'format':
                t = c(e.func.value)
                if t is None or e.keywords: return None
                out = set()
                for x in t:
                    vs = [c(a) if not isinstance(a, ast.Starred) else None for a in e.args]
                    vs = [sorted(v)[0] if v is not None and len(v) == 1 else '0' for v in vs]
                    try: out.add(x.format(*vs))
                    except (ValueError, IndexError, KeyError, AttributeError): return None
                return out
            return None
        if isinstance(e, ast.Name):
            if env is not None and e.id in env: return env[e.id]
            g = f
            while g is not None and e.id not in s.p.locals_of(g) and e.id not in g.allparams: g = g.parent
            if g is None:
                r = s.p.resolve(e, f)
                if isinstance(r, tuple) and r[0] == 'global':
                    vs = [v for v in r[1].globals.get(r[2], [])]
                    if not vs or any(v is None for v in vs): return None
                    out = set()
                    for v in vs:
                        a = c(v)
                        if a is None: return None
                        out |= a
                    return out
                return None
            if e.id in g.allparams: return None
            ds = defs_of(g, e.id)
            if not ds or any(isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id == e.id for y in own_nodes(g.node)): return None
            out = set()
            for q in ds:
                a = s.const(q, g, None, d+1)
                if a is None: return None
                out |= a
            return out
        return None

    def envs(s, f, node, names):
        """the pattern variables' values along each path to node: list of {name: set of texts or None}"""
        key = (f, tuple(sorted(names)))
        if key not in s.rd: s.rd[key] = s.paths(f, set(names))
        return s.rd[key](node)

    def assigns(s, n, names):
        """{name: value expr or None} assigned at this node"""
        out = {}
        a = n.ast
        def tgt(t, v):
            if isinstance(t, ast.Name):
                if t.id in names: out[t.id] = v
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(z, ast.Starred) for z in list(t.elts)+list(v.elts)):
                    for x, y in zip(t.elts, v.elts): tgt(x, y)
                else:
                    for x in t.elts: tgt(x, None)
            elif isinstance(t, ast.Starred): tgt(t.value, None)
        if n.kind == 'stmt' and isinstance(a, ast.Assign):
            for t in a.targets: tgt(t, a.value)
        elif n.kind == 'stmt' and isinstance(a, ast.AnnAssign): tgt(a.target, a.value)
        elif n.kind == 'stmt' and isinstance(a, ast.AugAssign): tgt(a.target, ast.BinOp(a.target, a.op, a.value) if isinstance(a.op, ast.Add) else None)
        else:
            for x in node_walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names: out[x.id] = None
        return out

    def paths(s, f, names):
        cfg = cfg_of(f)
        tests = {}
        for n in cfg.nodes:
            if n.kind == 'test': tests.setdefault(ast.unparse(n.ast), []).append(n)
        rel = {t for t, ns in tests.items() if len(ns) > 1 and not any(isinstance(y, ast.Call) for n in ns for y in ast.walk(n.ast))}
        # only the tests under which a pattern is set, or used
        use = set()
        for x in own_nodes(f.node):
            if isinstance(x, ast.Name) and x.id in names:
                for a in ancestors(x):
                    if isinstance(a, (ast.If, ast.IfExp)): use |= {ast.unparse(y) for y in ast.walk(a.test)}
                    if isinstance(a, ast.FunctionDef): break
        rel &= use; rel = set(sorted(rel)[:6])
        deps = {t: {y.id for y in ast.walk(tests[t][0].ast) if isinstance(y, ast.Name)} for t in rel}
        init = (tuple(), frozenset())

        def transfer(n, st):
            vals, facts = dict(st[0]), st[1]
            asg = s.assigns(n, names)
            env = {k: (set(v) if v is not None else None) for k, v in vals.items()}
            for k, v in asg.items():
                r = s.const(v, f, env) if v is not None else None
                vals[k] = tuple(sorted(r)) if r is not None and len(r) <= 12 else None
            if rel:
                st_ = {x.id for x in node_walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if st_: facts = frozenset(q for q in facts if not deps[q[0]] & st_)
            return ((tuple(sorted(vals.items())), facts),)

        def branch(n, lab, st):
            if n.kind == 'test' and lab in (True, False, 'T', 'F', 'true', 'false'):
                t = ast.unparse(n.ast)
                if t in rel:
                    b = lab in (True, 'T', 'true')
                    if (t, not b) in st[1]: return None
                    return (st[0], st[1] | {(t, b)})
            return st
        try: ins = flow(cfg, [init], transfer, branch, limit=60000)
        except RuntimeError: ins = None
        by = {}
        for n in cfg.nodes:
            for x in node_walk(n): by.setdefault(id(x), n)

        def get(node):
            n = by.get(id(node))
            if ins is None or n is None: return None
            return [{k: (set(v) if v is not None else None) for k, v in st[0]} for st in ins.get(n, ())]
        return get

    def patterns(s, e, f, node):
        """every text that pattern expression e can be at node (None = not known), following local pattern variables path by path"""
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in s.p.locals_of(f) and x.id not in f.allparams}
        if not names: return s.const(e, f), False
        envs = s.envs(f, node, names)
        if envs is None: return s.const(e, f), True
        out = set(); unknown = False
        for env in envs:
            for nm in names: env.setdefault(nm, None)
            r = s.const(e, f, env)
            if r is None: unknown = True
            else: out |= r
        return (out or None), False


def least(P, e, f):
    """how many places {} the known parts of a pattern have (0 if not sure)"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = least(P, e.left, f), least(P, e.right, f)
        return a + b
    ts = P.const(e, f)
    if ts is None or not ts: return 0
    n = []
    for t in ts:
        try: pos, names, mix, specs = fields(t)
        except ValueError: return 0
        if re.search(r'\{\d', t): return 0
        n.append(len(pos))
    return min(n)


PLAIN = {'{}', '{}[]', '[]{}', '{}[]/', '(){}', '(){}[]', '[](){}', '([{}])', '<>{}'}   # empty braces by themselves


def hands_on(p, call, x, f):
    """the text is given to a parameter that its function uses as a pattern, or to the pattern parameter of something not known"""
    r = p.resolve(call.func, f)
    if isinstance(r, Cls): r = p.find_method(r, '__init__')
    cands = [c for c in p.callees(call, f, cha=False) if isinstance(c, Func)] or ([r] if isinstance(r, Func) else [])
    for c in cands:
        for n, a in arg_map(call, c, bound=c.cls is not None and not c.is_static).items():
            if isinstance(a, ast.AST) and any(y is x for y in ast.walk(a)):
                for y in ast.walk(c.node):
                    if isinstance(y, ast.Attribute) and y.attr in ('format', 'format_map', 'replace') and any(isinstance(w, ast.Name) and w.id == n for w in ast.walk(y.value)): return True
                    if isinstance(y, ast.Call) and isinstance(y.func, (ast.Name, ast.Attribute)) and any(isinstance(w, ast.Name) and w.id == n for w in y.args) and isinstance(p.resolve(y.func, c), (Func, Cls)): return True
                    if isinstance(y, ast.Assign) and isinstance(y.value, ast.Name) and y.value.id == n: return True
                if any(z in n.lower() for z in ('template', 'pattern', 'regex', 'format')): return True
    return any(isinstance(y, ast.AST) and k.arg and any(z in k.arg.lower() for z in ('template', 'pattern', 'regex', 'format', 'fmt')) for k in call.keywords for y in ast.walk(k.value) if y is x)


def is_text(e, f, d=0):
    if isinstance(e, ast.JoinedStr): return True
    if isinstance(e, ast.Constant): return isinstance(e.value, str)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr', '_'): return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('strip', 'lower', 'upper', 'format', 'replace', 'join', 'lstrip', 'rstrip') and not isinstance(e.func.value, ast.Name): return True
    if isinstance(e, ast.IfExp): return is_text(e.body, f, d) and is_text(e.orelse, f, d)
    if isinstance(e, ast.Name) and f is not None and d < 3 and e.id not in f.allparams:
        ds = defs_of(f, e.id)
        n = sum(1 for x in own_nodes(f.node) if isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store))
        return bool(ds) and n == len(ds) and all(is_text(q, f, d+1) for q in ds)
    return False


def format_problem(t, args, kws, f):
    try: pos, names, mix, specs = fields(t)
    except ValueError as err: return f'is malformed ({err})'
    star = any(isinstance(a, ast.Starred) for a in args); kst = any(k.arg is None for k in kws); kw = {k.arg: k.value for k in kws if k.arg}
    if mix: return 'mixes {} and {0} places'
    if not star and pos and max(pos) >= len(args): return f'has {max(pos)+1} places but {len(args)} values'
    if not star and len(pos) < len(args): return f'has {len(pos)} places but {len(args)} values'
    if not kst and names - set(kw): return f'has a place {{{sorted(names-set(kw))[0]}}} that no value is given for'
    if set(kw) - names: return f'has no place for {sorted(set(kw)-names)[0]}'
    for r, spec in specs:
        if spec and spec[-1] in 'bcdoxXneEfFgG%,' and not star and not kst:
            v = args[r] if isinstance(r, int) else kw.get(r)
            if v is not None and is_text(v, f): return f'formats a text as a number ({{:{spec}}})'
    return ''


def decide(p, r):
    P = Patterns(p)
    for f in p.functions():
        ok = reachable(cfg_of(f).entry); live = set()
        for n in cfg_of(f).nodes:
            if n in ok:
                for x in node_walk(n): live.add(id(x))
        if f.parent is not None:                                 # a function defined where nothing gets to
            okp = reachable(cfg_of(f.parent).entry)
            if not any(n.ast is f.node for n in okp): continue
        used = set()                                             # constants that are patterns of a format or replace
        for x in own_nodes(f.node):
            if id(x) not in live: continue
            where = f.where(x)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and not (isinstance(x.func.value, ast.Name) and isinstance(p.resolve(x.func.value, f), (Module, Cls))):
                ts, loose = P.patterns(x.func.value, f, x)
                if ts is None:
                    k = least(P, x.func.value, f)
                    if k and not any(isinstance(a, ast.Starred) for a in x.args) and k > len(x.args):
                        r.find(f'format:{f.module.rel}:{f.short}:{ast.unparse(x.func.value)[:60]}', where, f'{f.short}: the pattern {ast.unparse(x.func.value)[:80]} has at least {k} places but {len(x.args)} values')
                    continue
                r.count('formats')
                bad = {t: format_problem(t, x.args, x.keywords, f) for t in ts}
                wrong = [t for t in sorted(bad) if bad[t]]
                if wrong and not (loose and len(wrong) < len(ts)):
                    r.find(f'format:{f.module.rel}:{f.short}:{wrong[0][:60]}', where, f'{f.short}: the pattern {wrong[0][:80]!r} {bad[wrong[0]]}')
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
                ts, loose = P.patterns(x.left, f, x)
                if ts is None or loose: continue
                r.count('% operators')
                for t in sorted(ts):
                    q = percents(t); bad = ''
                    if q is None: bad = 'has a conversion that does not exist'
                    elif isinstance(x.right, ast.Tuple):
                        if not any(isinstance(z, ast.Starred) for z in x.right.elts) and q[0] != len(x.right.elts): bad = f'has {q[0]} places but {len(x.right.elts)} values'
                    elif isinstance(x.right, ast.Dict):
                        ks = {k.value for k in x.right.keys if isinstance(k, ast.Constant)}
                        if None not in x.right.keys and all(isinstance(k, ast.Constant) for k in x.right.keys) and q[1] - ks: bad = f'has a place {sorted(q[1]-ks)[0]} that no value is given for'
                    elif isinstance(x.right, (ast.Constant, ast.JoinedStr)) and q[0] != 1: bad = f'has {q[0]} places but 1 value'
                    if bad: r.find(f'percent:{f.module.rel}:{f.short}:{t[:60]}', where, f'{f.short}: the pattern {t[:80]!r} {bad}')
            if isinstance(x, ast.Call) and is_log_call(x, f, p):
                a = x.args[1:] if callname(x) == 'log' else x.args
                if not a: continue
                r.count('log calls')
                if len(a) == 1:
                    for y in ast.walk(a[0]):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str) and re.search(r'%(\(\w+\))?[-+ #0]*\d*(\.\d+)?[srdif](?![A-Za-z])', y.value) and not any(isinstance(z, ast.BinOp) and isinstance(z.op, ast.Mod) or isinstance(z, (ast.FormattedValue, ast.Compare)) or isinstance(z, ast.Call) and z is not x and callname(z) in ('replace', 'find', 'split', 'count', 'strftime') for z in ancestors(y)):
                            r.find(f'unfilled:{f.module.rel}:{f.short}:{y.value[:60]}', where, f'{f.short}: the message {y.value[:80]!r} is logged with its % place unfilled')
                if len(a) > 1 and not any(isinstance(z, ast.Starred) for z in a):
                    ts, loose = P.patterns(a[0], f, x)
                    if ts is None:
                        if isinstance(a[0], (ast.JoinedStr, ast.BinOp)) or isinstance(a[0], ast.Call) and callname(a[0]) == 'format':
                            r.find(f'log:{f.module.rel}:{f.short}:{ast.unparse(a[0])[:60]}', where, f'{f.short}: a finished message is logged with {len(a)-1} further values')
                        continue
                    for t in sorted(ts):
                        q = percents(t)
                        if (q is None or q[0] != len(a)-1) and not (q and q[1] and len(a) == 2): r.find(f'log:{f.module.rel}:{f.short}:{t[:60]}', where, f'{f.short}: the message {t[:80]!r} is logged with {len(a)-1} further values')
            # patterns that never go through format
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and '{' in x.value:
                try: pos, names, mix, specs = fields(x.value)
                except ValueError: continue
                loc = set()
                g = f
                while g is not None: loc |= p.locals_of(g) | set(g.allparams); g = g.parent
                names = {n for n in names if n.rstrip('=!') in loc}
                if not (names or pos and all(n2 == '' for n2 in [])) and not pos: continue
                q = x; pa = x._parent; skip = False; call = None
                while pa is not None:
                    if isinstance(pa, (ast.FormattedValue, ast.JoinedStr, ast.Compare, ast.Subscript, ast.Dict, ast.Set)) and not isinstance(pa, ast.Dict): skip = True; break
                    if isinstance(pa, ast.Attribute): skip = True; break                        # "…".format / .replace / …
                    if isinstance(pa, ast.Call) and pa.func is not q:
                        if isinstance(pa.func, ast.Name) and pa.func.id in ('_', 'str'): pass
                        else: call = pa; break
                    if isinstance(pa, ast.stmt): break
                    q = pa; pa = pa._parent
                if skip: continue
                if isinstance(pa, ast.Expr): continue                                           # a doc string
                if call is not None:
                    nm = callname(call)
                    if nm in ('replace', 'compile', 'search', 'match', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer', 'count', 'find', 'index', 'startswith', 'endswith', 'rfind'): continue
                    talk = is_log_call(call, f, p) or isinstance(call.func, ast.Name) and call.func.id in PRINTERS
                    if talk: pass
                    elif pos and (x.value in PLAIN or nm in ('split', 'maketrans', 'strip', 'lstrip', 'rstrip', 'setattr', 'partition')): continue
                    elif hands_on(p, call, x, f): continue
                    elif isinstance(p.resolve(call.func, f), (Func, Cls)) or nm in ('append', 'write', 'writeLineText', 'addLine', 'add', 'insert', 'extend', 'writelines', 'join', 'format') or names == set(): pass
                    else: continue
                elif isinstance(pa, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)):
                    if x.value in PLAIN: continue
                    tg = pa.targets if isinstance(pa, ast.Assign) else [pa.target] if not isinstance(pa, ast.Return) else []
                    tn = {y.id for t in tg for y in ast.walk(t) if isinstance(y, ast.Name)}
                    # does a format or replace use the variable anywhere in the function (or a function inside it)
                    if any(isinstance(y, ast.Attribute) and y.attr in ('format', 'format_map') and any(isinstance(w, ast.Name) and w.id in tn for w in ast.walk(y.value)) for y in ast.walk(f.node)): continue
                    if any(isinstance(y, ast.Call) and callname(y) == 'replace' and y.args and any(isinstance(w, ast.Constant) and isinstance(w.value, str) and any('{'+n2 in w.value for n2 in names) for w in ast.walk(y.args[0])) for y in ast.walk(f.node)): continue
                    if any(not isinstance(t, (ast.Name, ast.Tuple, ast.List)) for t in tg): continue
                    # or does it go on as a pattern to somebody else
                    if any(isinstance(y, ast.Call) and any(isinstance(k.value, ast.Name) and k.value.id in tn and k.arg and 'emplate' in k.arg for k in y.keywords) for y in ast.walk(f.node)): continue
                    if any('emplate' in t or 'attern' in t or 'regex' in t.lower() for t in tn): continue
                else: continue
                r.count('texts with places')
                what = '{' + sorted(names)[0] + '}' if names else '{}'
                r.find(f'unfilled:{f.module.rel}:{f.short}:{x.value[:60]}', where, f'{f.short}: the text {x.value[:80]!r} is used with its place {what} unfilled')


def outside(p, r):
    """formats in module and class bodies"""
    P = Patterns(p)
    class At:           # stands for the module where names are looked up
        parent = None; allparams = params = ()
    for m in p.modules.values():
        todo = list(m.tree.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) or isinstance(x, ast.If) and '__main__' in ast.unparse(x.test): continue
            todo += ast.iter_child_nodes(x)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format':
                e = x.func.value
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == '_' and len(e.args) == 1: e = e.args[0]
                if isinstance(e, ast.Name):
                    vs = m.globals.get(e.id, [])
                    e = vs[0] if len(vs) == 1 else None
                parts = [e]
                while any(isinstance(q, ast.BinOp) and isinstance(q.op, ast.Add) for q in parts):
                    parts = [y for q in parts for y in ((q.left, q.right) if isinstance(q, ast.BinOp) and isinstance(q.op, ast.Add) else (q,))]
                if not all(isinstance(q, ast.Constant) and isinstance(q.value, str) for q in parts): continue
                t = ''.join(q.value for q in parts)
                r.count('formats')
                bad = format_problem(t, x.args, x.keywords, None)
                if bad: r.find(f'format:{m.rel}:{t[:60]}', f'{m.rel}:{x.lineno}', f'{m.name}: the pattern {t[:80]!r} {bad}')


def run(p, r, tier):
    decide(p, r)
    outside(p, r)
    r.floor('formats', 3000); r.floor('log calls', 1500)


class _R:
    def __init__(s): s.k = {}; s.counts = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, n, k=1): pass


def _st(src, want):
    def t():
        p = Project.from_sources({'BibleOrgSys/x.py': src}); r = _R(); decide(p, r); outside(p, r)
        got = {k.split(':')[0] for k in r.k}
        return got == set(want)
    return t


SELFTESTS = [
    ('clean', _st("import logging\nP='{}x{}'\ndef f(a,b):\n  t='{:02}' if a else '{:03}'\n  logging.error('a %s',b)\n  return '{} {0}'.replace('{0}','').format(a), P.format(a,b), t.format(b), _('{a} {b[1]}').format(a=a,b=b), '%s %i'%(a,b)\n", [])),
    ('few', _st("def f(a): return '{} {}'.format(a)\n", ['format'])),
    ('many', _st("def f(a): return '{}'.format(a,1)\n", ['format'])),
    ('name', _st("def f(a): return '{q}'.format(a=a)\n", ['format'])),
    ('brace', _st("def f(a): return 'static { {}'.format(a)\n", ['format'])),
    ('in a constant', _st("P='{}x{}'\ndef f(a): return P.format(a)\n", ['format'])),
    ('in a variable', _st("def f(a):\n  if a: t='{}'\n  else: t='{}{}'\n  return t.format(a)\n", ['format'])),
    ('correlated', _st("def f(a):\n  if a=='s': t='{}'\n  else: t='{}{}'\n  if a=='s': return t.format(a)\n  return t.format(a,a)\n", [])),
    ('text as number', _st("def f(a): return '{:d}'.format(str(a))\n", ['format'])),
    ('percent', _st("def f(a): return '%s %s' % (a,)\n", ['percent'])),
    ('log', _st("import logging\ndef f(a): logging.error('nothing',a)\n", ['log'])),
    ('missing f', _st("import logging\ndef f(a): logging.error('bad {a}')\n", ['unfilled'])),
    ('missing f assigned', _st("def f(a):\n  a = 'bad {a}'\n  return a\n", ['unfilled'])),
    ('template', _st("def f(a):\n  t = 'x {a}'\n  return t.replace('{a}',a)\n", [])),
    ('module', _st("P='{} {}'.format(1)\n", ['format'])),
    ('parts', _st("def f(a): return ('{} '+a+'{}').format(a)\n", ['format'])),
    ('percent unfilled', _st("import logging\ndef f(a): logging.error('bad %s')\n", ['unfilled'])),
    ('appended', _st("def g(a,b): return a\ndef f(a,e):\n  e.append('bad {}')\n  return g(a,'in {} {}')\n", ['unfilled'])),
    ('handed on', _st("def g(a,b): return b.format(a)\ndef f(a,e):\n  e.append(g(a,'in {}'))\n  return ''.strip('{}')\n", [])),
    ('unreachable', _st("def f(a):\n  raise ValueError\n  return '{} {}'.format(a)\n", [])),
]
