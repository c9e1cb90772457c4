"""C30: a verse-reference key records exactly the reference that it accepted.

The regular expressions of Reference/VerseReferences.py are folded from their source (constants, .format, +, re.compile) and
their groups are given roles from the pattern: book, chapter, verse, suffix/index, and which verses a '-' joins into a range.
Rule, by abstract interpretation of every parse function of the key classes (helpers inlined, one state per path):
 - a path that reports success has recorded something, and if it matched a pattern it has recorded every group of that pattern;
 - each recorded verse key is made of the book, its own chapter, its own verse and its own suffix, in the order of the reference;
 - the two ends of a range are recorded together, as one range; a verse that no '-' joins is not part of a range;
 - a whole-chapter or range key also records the verses it includes;
 - no compiled pattern is formatted into another pattern; and, in the whole library, the group numbers and names taken from a match of a foldable
   pattern exist in it;
 - the book patterns accept every book code (or OSIS abbreviation) of DataFiles/BibleBooksCodes.xml, and the chapter and verse
   patterns every number from 1 to 199;
 - each accessor of SimpleVerseKey returns the parts that it names, and its text, hash and equality use every part;
 - the list of included verses has both ends of the range and is counted one by one; a range is not accepted because it goes backwards;
 - groups are read only where the pattern matched; an unknown book code is reported; a recorded reference is answered with True, its kind set;
 - a constructor refuses exactly what its parse function refuses, and keeps given parts as they are given;
 - the text methods answer on every path and put every part of each of their keys into the text, unless it equals that of the key before."""
import os, re
import xml.etree.ElementTree as ET
try:
    import re._parser as sre
except ImportError:                                   # older Pythons
    import sre_parse as sre
from common import *
from cfg import flow

RULE = __doc__
ASSUMPTIONS = ['the book, chapter, verse and suffix groups of a pattern are recognised by what precedes them (start, "_", ":", "," "-" ";" ".", "!")']
MOD = 'BibleOrgSys.Reference.VerseReferences'


class Fold:
    """constant folding of pattern strings"""
    def __init__(s, p): s.p = p; s.memo = {}

    def const(s, e, f, m, depth=0):
        """('s', text) or ('p', text) for a compiled pattern; None = unknown; 'bad:' text when a compiled pattern is formatted"""
        if depth > 12: return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str): return ('s', e.value)
        if isinstance(e, ast.JoinedStr):
            out = ''
            for v in e.values:
                if isinstance(v, ast.Constant): out += v.value
                else:
                    if v.conversion != -1 or v.format_spec is not None: return None
                    x = s.const(v.value, f, m, depth+1)
                    if x is None: return None
                    if x[0] != 's': return ('bad', x[1])
                    out += x[1]
            return ('s', out)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = s.const(e.left, f, m, depth+1), s.const(e.right, f, m, depth+1)
            return ('s', a[1]+b[1]) if a and b and a[0] == b[0] == 's' else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            a = s.const(e.left, f, m, depth+1); vs = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
            bs = [s.const(v, f, m, depth+1) for v in vs]
            if a and a[0] == 's' and all(bs):
                if any(b[0] != 's' for b in bs): return ('bad', a[1])
                try: return ('s', a[1] % tuple(b[1] for b in bs))
                except (TypeError, ValueError): return None
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and not e.keywords:
                a = s.const(e.func.value, f, m, depth+1); bs = [s.const(v, f, m, depth+1) for v in e.args]
                if a and a[0] == 's' and all(bs):
                    if any(b[0] != 's' for b in bs): return ('bad', a[1])
                    try: return ('s', a[1].format(*(b[1] for b in bs)))
                    except (IndexError, KeyError, ValueError): return None
                return None
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'join' and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)):
                a = s.const(e.func.value, f, m, depth+1); bs = [s.const(v, f, m, depth+1) for v in e.args[0].elts]
                return ('s', a[1].join(b[1] for b in bs)) if a and a[0] == 's' and all(b and b[0] == 's' for b in bs) else None
            r = s.res(e.func, f, m)
            if r == ('ext', 're.compile') and e.args:
                a = s.const(e.args[0], f, m, depth+1)
                if a and a[0] != 'bad':
                    fl = [x for x in list(e.args[1:]) + [k.value for k in e.keywords]]
                    if any('VERBOSE' in ast.unparse(x) or 're.X' in ast.unparse(x) for x in fl): return None
                    return ('p', a[1])
                return a
            if isinstance(r, Func) and not e.keywords and len(e.args) == len(r.allparams) and not r.cls:     # a helper that builds a pattern
                rets = [x.value for x in own_nodes(r.node) if isinstance(x, ast.Return)]
                if len(rets) == 1 and rets[0] is not None:
                    a = s.subst(rets[0], dict(zip(r.params, e.args)), r)
                    if a is not None: return s.const(a, f if not isinstance(f, Func) else f, m, depth+1)
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name) and isinstance(f, Func):
                g = f
                while g is not None:
                    if e.id in s.p.locals_of(g):
                        if e.id in g.allparams: return None
                        ds = defs_of(g, e.id)
                        n = sum(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in own_nodes(g.node))
                        return s.const(ds[0], g, g.module, depth+1) if len(ds) == n == 1 else None
                    g = g.parent
            r = s.res(e, f, m)
            if isinstance(r, tuple) and r[0] == 'global':
                vs = r[1].globals.get(r[2], [])
                if len(vs) != 1 or vs[0] is None: return None
                k = (r[1].name, r[2])
                if k not in s.memo:
                    s.memo[k] = None
                    s.memo[k] = s.const(vs[0], None, r[1], depth+1)
                return s.memo[k]
        return None

    def subst(s, e, env, g):
        ok = [True]

        def fresh(x): return ast.parse(ast.unparse(x), mode='eval').body      # (the tree has parent links, so is not copied)

        class T(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in env: return fresh(env[n.id])
                if n.id in s.p.locals_of(g): ok[0] = False
                return n
        e2 = T().visit(fresh(e))
        return e2 if ok[0] else None

    def res(s, e, f, m): return s.p.resolve(e, f) if isinstance(f, Func) else s.p.resolve_expr_static(e, m)

    def groups(s, pat):
        try: t = sre.parse(pat)
        except Exception: return None
        return t.state.groups - 1, dict(t.state.groupdict)


def roles(pat):
    """group number -> role; list of (v1, v2) verse groups joined into a range"""
    t = sre.parse(pat); out = {}; order = []; last = ['^']; joined = []; prevverse = [None]

    def letters(sub):
        txt = repr(sub)
        return any(97 <= n <= 122 for n in (int(x) for x in re.findall(r'\b(\d+)\b', txt)))

    def go(sub):
        for op, av in sub:
            n = str(op)
            if n == 'LITERAL': last[0] = chr(av)
            elif n == 'AT': pass
            elif n == 'SUBPATTERN':
                g, _a, _d, inner = av
                if g is None: go(inner); continue
                c = last[0]
                if c == '^' or not order: role = 'B'
                elif c == '!': role = 'S' if letters(inner) else 'I'
                elif c == '_': role = 'C'
                elif c == ':' : role = 'V'
                elif c == '.': role = 'V'
                elif c in ',-': role = 'V'
                elif c in ';–': role = 'C'
                else: role = '?'
                out[g] = role; order.append((g, c)); last[0] = '#'
            elif n in ('MAX_REPEAT', 'MIN_REPEAT'): go(av[2])
            elif n == 'BRANCH':
                for b in av[1]: go(b)
    go(t)
    # a chapter is what a ':' or '.'+verse follows; the patterns write chapter:verse or chapter.verse after '_', ';' or '–'
    vs = [(g, c) for g, c in order if out[g] in 'VC']
    seq = []
    for g, c in order:
        if out[g] == 'C': seq.append(['C', g, c])
        elif out[g] == 'V': seq.append(['V', g, c])
    for i, (k, g, c) in enumerate(seq):
        if k == 'V' and c in '-' and i: joined.append((seq[i-1][1], g))
        if k == 'C' and c == '–' and i and i+1 < len(seq): joined.append((seq[i-1][1], seq[i+1][1]))
    # own chapter and suffix of each verse
    own = {}; ch = None; lastv = None
    for g, c in order:
        if out[g] == 'C': ch = g
        elif out[g] == 'V': own[g] = [ch, None]; lastv = g
        elif out[g] in 'SI' and lastv is not None and own[lastv][1] is None: own[lastv][1] = g
    return out, joined, own


UNK = frozenset(['?'])
NONE = frozenset()


class Parse:
    """abstract interpretation of one parse function: values are sets of ('g', group) of the active match"""
    def __init__(s, p, fold): s.p = p; s.fold = fold

    def lookup(s, env, name): return dict(env).get(name, NONE)

    def ev(s, e, env, f, rec, depth):
        """(value, rec) ; rec is the tuple of recorded things or ('?',)"""
        E = dict(env)
        if e is None or isinstance(e, ast.Constant): return NONE
        if isinstance(e, ast.Name): return E.get(e.id, NONE)
        if isinstance(e, ast.NamedExpr): return s.ev(e.value, env, f, rec, depth)
        if isinstance(e, ast.IfExp): return s.ev(e.body, env, f, rec, depth) | s.ev(e.orelse, env, f, rec, depth)
        if isinstance(e, ast.BoolOp): return frozenset().union(*(s.ev(v, env, f, rec, depth) for v in e.values))
        if isinstance(e, ast.Starred): return s.ev(e.value, env, f, rec, depth)
        if isinstance(e, ast.Subscript):
            b = s.ev(e.value, env, f, rec, depth)
            ms = [x for x in b if isinstance(x, tuple) and x[0] == 'm']
            if ms:
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int): return frozenset(('g', x[1], e.slice.value) for x in ms)
                return UNK
            gs = [x for x in b if isinstance(x, tuple) and x[0] == 'groups']
            if gs:
                if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0: return frozenset(('g', x[1], e.slice.value+1) for x in gs)
                return UNK
            return b
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute):
                b = s.ev(fn.value, env, f, rec, depth)
                ms = [x for x in b if isinstance(x, tuple) and x[0] == 'm']
                if ms and fn.attr == 'group':
                    if not e.args: return frozenset(('g', x[1], 0) for x in ms)
                    if len(e.args) == 1:
                        n = s.const_int(e.args[0], E)
                        if n is not None: return frozenset(('g', x[1], n) for x in ms)
                    return UNK
                if ms and fn.attr == 'groups': return frozenset(('groups', x[1]) for x in ms)
                if ms: return NONE
            pat = s.search(e, f)
            if pat: return frozenset([('m', pat)])
            k = s.key(e, env, f, rec, depth)
            if k is not None: return k
            out = frozenset()
            if depth < 3:
                r = s.p.resolve(fn, f)
                if not isinstance(r, Func):
                    cs = [t for t in s.p.callees(e, f, cha=False) if isinstance(t, Func)] if isinstance(fn, ast.Attribute) else []
                    r = cs[0] if len(cs) == 1 else None
                if isinstance(r, Func) and r.module is f.module and any(s.ev(a, env, f, rec, depth) for a in e.args):
                    e2 = s.bind(e, r, env, f, rec, depth)
                    res = s.run(r, e2, (), depth+1)
                    return frozenset().union(*(v for _k, v, _r, _a in res)) if res else UNK
            for a in list(e.args) + [k.value for k in e.keywords]: out |= s.ev(a, env, f, rec, depth)
            if isinstance(fn, ast.Attribute): out |= s.ev(fn.value, env, f, rec, depth)
            return out
        if isinstance(e, (ast.Tuple, ast.List, ast.BinOp, ast.JoinedStr, ast.FormattedValue, ast.UnaryOp)):
            out = frozenset()
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr): out |= s.ev(c, env, f, rec, depth)
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
            return UNK if any(isinstance(n, ast.Name) and E.get(n.id) for n in ast.walk(e)) else NONE
        if isinstance(e, ast.Attribute): return E.get('self.'+e.attr, NONE) if isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0] else NONE
        return NONE

    def same(s, E): return [k[1:].split('==') for k, v in E.items() if k[0] == '#' and '==' in k and ('fact', True) in v]

    def backwards(s, a, L, R, act):
        """the test can only be true when the later of two verses of the reference has the smaller number"""
        if act is None or not isinstance(a.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)): return None
        try: role, joined, own = roles(act)
        except Exception: return None
        lv = [x[2] for x in flat(L) if x[1] == act and role.get(x[2]) == 'V']; rv = [x[2] for x in flat(R) if x[1] == act and role.get(x[2]) == 'V']
        if len(lv) != 1 or len(rv) != 1 or lv == rv: return None
        smaller, larger = (lv[0], rv[0]) if isinstance(a.ops[0], (ast.Lt, ast.LtE)) else (rv[0], lv[0])
        return smaller > larger, isinstance(a.ops[0], (ast.Lt, ast.Gt))         # (true means backwards, strictly)

    def const_int(s, e, E):
        if isinstance(e, ast.Constant) and type(e.value) is int: return e.value
        if isinstance(e, ast.Name):
            v = [x for x in E.get(e.id, ()) if isinstance(x, tuple) and x[0] == 'c']
            return v[0][1] if len(v) == 1 and len(E[e.id]) == 1 else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = s.const_int(e.left, E), s.const_int(e.right, E)
            if a is not None and b is not None: return a+b if isinstance(e.op, ast.Add) else a-b
        return None

    def bind(s, call, g, env, f, rec, depth):
        """the environment of an inlined call: values of the parameters, with integer constants kept"""
        out = {}
        for k, v in arg_map(call, g).items():
            if v is None: continue
            n = s.const_int(v, dict(env))
            x = frozenset([('c', n)]) if n is not None else s.ev(v, env, f, rec, depth)
            if x: out[k] = x
        return tuple(sorted(out.items(), key=lambda t: t[0]))

    def search(s, e, f):
        """folded pattern of re.search(P, x) / P.search(x)"""
        r = s.p.resolve(e.func, f)
        if isinstance(r, tuple) and r[0] == 'ext' and r[1] in ('re.search', 're.match', 're.fullmatch') and e.args:
            c = s.fold.const(e.args[0], f, f.module)
            return c[1] if c and c[0] in 'sp' else None
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('search', 'match', 'fullmatch'):
            c = s.fold.const(e.func.value, f, f.module)
            return c[1] if c and c[0] == 'p' else None
        return None

    def key(s, e, env, f, rec, depth):
        r = s.p.resolve(e.func, f)
        if not isinstance(r, Cls) or not r.name.endswith('Key'): return None
        ini = s.p.find_method(r, '__init__')
        if ini is None: return None
        if any(isinstance(a, ast.Starred) for a in e.args): return UNK
        am = arg_map(e, ini)
        if {'BBB', 'C', 'V'} <= set(am):
            return frozenset([('key',) + tuple(s.ev(am.get(n), env, f, rec, depth) for n in ('BBB', 'C', 'V', 'SI'))])
        first = e.args[0] if e.args else None
        lr = s.halves(first, env, f, rec, depth) if first is not None else None
        if lr is not None: return frozenset([('range',) + lr])
        v = s.ev(first, env, f, rec, depth) if first is not None else NONE
        return frozenset([('sub', r.name, v)])

    def halves(s, e, env, f, rec, depth):
        """the groups before and after the '-' of a reference text being built"""
        if isinstance(e, ast.Name):
            ds = [d for d in defs_of(f, e.id)]
            if len(ds) == 1: e = ds[0]
        parts = None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant) and not e.keywords:
            txt = re.split(r'\{[^}]*\}', e.func.value.value); parts = []
            if len(txt) != len(e.args)+1: return None
            for i, t in enumerate(txt):
                parts.append(t)
                if i < len(e.args): parts.append(e.args[i])
        elif isinstance(e, ast.JoinedStr):
            parts = [v.value if isinstance(v, ast.Constant) else v.value for v in e.values]
        elif isinstance(e, ast.BinOp):
            parts = []

            def fl(x):
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add): fl(x.left); fl(x.right)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str): parts.append(x.value)
                else: parts.append(x)
            fl(e)
        if parts is None: return None
        left, right, seen = [], [], False
        for x in parts:
            if isinstance(x, str):
                if '-' in x or '–' in x: seen = True
            else:
                v = s.ev(x, env, f, rec, depth)
                if v: (right if seen else left).append(v)
        return (tuple(left), tuple(right)) if seen else None

    def recorded(s, target, v, f):
        """name of the thing recorded when `target` (an attribute of self) takes the value"""
        return ('set', target, v)

    def run(s, f, env, rec, depth):
        """[(returned constant or None, value, rec, active)] at each return"""
        me = f.params[0] if f.cls and f.params and not f.is_static else (f.parent.params[0] if f.parent and f.parent.cls and f.parent.params else None)
        c = cfg_of(f); out = []

        def put(env, k, v):
            d = dict(env)
            for q in [q for q in d if q[0] == '#' and k in q[1:].split('==')]: del d[q]
            if v: d[k] = v
            else: d.pop(k, None)
            return tuple(sorted(d.items(), key=lambda t: t[0]))

        def add(rec, item):
            if rec == ('?',): return rec
            if item in rec: return rec
            if len(rec) > 40: return ('?',)
            return rec + (item,)

        def assign(t, val_e, st):
            env, rec, act = st
            if isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(val_e, (ast.Tuple, ast.List)) and len(val_e.elts) == len(t.elts):
                    vals = [s.ev(v, env, f, rec, depth) for v in val_e.elts]
                else:
                    w = s.ev(val_e, env, f, rec, depth); gs = [x for x in w if isinstance(x, tuple) and x[0] == 'groups']
                    vals = [frozenset(('g', x[1], i+1) for x in gs) if gs else (UNK if w else NONE) for i in range(len(t.elts))]
                for y, v in zip(t.elts, vals): st = store(y, v, st)
                return st
            return store(t, s.ev(val_e, env, f, rec, depth), st, val_e)

        def store(t, v, st, val_e=None):
            env, rec, act = st
            if isinstance(t, ast.Name): return put(env, t.id, v), rec, act
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                if isinstance(val_e, ast.Constant) and isinstance(val_e.value, str): return env, add(rec, ('const', t.attr)), act
                if isinstance(val_e, (ast.List, ast.Tuple)):
                    for x in val_e.elts:
                        for w in sorted(s.ev(x, env, f, rec, depth), key=repr): rec = add(rec, ('in', t.attr, w))
                    return env, rec, act
                if v:
                    ks = [w for w in v if isinstance(w, tuple) and w[0] in ('key', 'range', 'sub')]
                    if ks:
                        for w in sorted(ks, key=repr): rec = add(rec, ('set', t.attr, w))
                    else: rec = add(rec, ('set', t.attr, v))
                    env = put(env, 'self.'+t.attr, v)
                return env, rec, act
            if isinstance(t, ast.Subscript): return store(t.value, v, st)
            return st

        def transfer(n, st):
            env, rec, act = st
            a = n.ast
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if isinstance(x, ast.NamedExpr): env = put(env, x.target.id, s.ev(x.value, env, f, rec, depth))
            st = (env, rec, act)
            if isinstance(a, ast.Assign):
                for t in a.targets: st = assign(t, a.value, st)
            elif isinstance(a, ast.AnnAssign) and a.value is not None: st = assign(a.target, a.value, st)
            elif isinstance(a, ast.AugAssign):
                v = s.ev(a.value, env, f, rec, depth)
                if isinstance(a.target, ast.Attribute) and isinstance(a.value, (ast.List, ast.Tuple)): st = store(a.target, v, st, a.value)
                elif isinstance(a.target, ast.Name): st = (put(env, a.target.id, v | s.lookup(env, a.target.id)), rec, act)
                else: st = store(a.target, v, st)
            elif isinstance(a, ast.For) and n.kind not in ('return',):
                v = s.ev(a.iter, env, f, rec, depth)
                if isinstance(a.target, ast.Name): st = (put(env, a.target.id, UNK if v else NONE), rec, act)
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if not isinstance(x, ast.Call): continue
                    if isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert', 'add') and x.args:
                        tgt = x.func.value
                        env, rec, act = st
                        el = x.args[-1]
                        els = el.elts if x.func.attr == 'extend' and isinstance(el, (ast.List, ast.Tuple)) else [el]
                        if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == me:
                            for y in els:
                                for w in sorted(s.ev(y, env, f, rec, depth), key=repr): rec = add(rec, ('in', tgt.attr, w))
                                if isinstance(y, ast.Call):
                                    for q in ast.walk(y):
                                        if isinstance(q, ast.Name) and s.lookup(env, q.id):
                                            for a, b in s.same(dict(env)):
                                                if q.id in (a, b) and s.lookup(env, b if a == q.id else a): rec = add(rec, ('end', q.id, s.lookup(env, b if a == q.id else a)))
                                            env = tuple(sorted({**dict(env), '#'+q.id: frozenset([('fact', None)])}.items(), key=lambda t: t[0]))
                            st = (env, rec, act)
                        elif isinstance(tgt, ast.Name):
                            st = (put(env, tgt.id, UNK), rec, act)
                    elif depth < 3 and not s.search(x, f):
                        g = [t for t in s.p.callees(x, f, cha=False) if isinstance(t, Func)]
                        if len(g) == 1 and g[0].module is f.module and g[0] is not f and (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == me or g[0].parent is not None):
                            env, rec, act = st
                            e2 = s.bind(x, g[0], env, f, rec, depth)
                            if g[0].parent is f: e2 = tuple(sorted({**dict(env), **dict(e2)}.items(), key=lambda t: t[0]))
                            res = s.run(g[0], e2, rec, depth+1)
                            recs = {r for _k, _v, r, _a in res}
                            if len(recs) == 1: st = (env, next(iter(recs)), act)
                            elif recs: st = (env, ('?',), act)
            return st

        def branch(n, label, st):
            env, rec, act = st
            a = n.ast
            if label in (True, False) and n.kind == 'test':
                e, pos = a, True
                while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e, pos = e.operand, not pos
                if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
                    pos = pos == isinstance(e.ops[0], (ast.IsNot, ast.NotEq)); e = e.left
                v = s.ev(e, env, f, rec, depth) if isinstance(e, (ast.Name, ast.NamedExpr, ast.Call)) else NONE
                ms = [x for x in v if isinstance(x, tuple) and x[0] == 'm']
                if len(ms) == 1 and label == pos: return env, rec, ms[0][1]
                e, pos = a, True
                while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e, pos = e.operand, not pos
                if isinstance(e, ast.Compare) and len(e.ops) == 1:
                    l, q, op = e.left, e.comparators[0], e.ops[0]; truth = label == pos
                    if isinstance(l, ast.Name) and isinstance(q, ast.Name) and isinstance(op, (ast.Eq, ast.NotEq)) and l.id != q.id:
                        k = '#' + '=='.join(sorted([l.id, q.id])); eq = truth == isinstance(op, ast.Eq); d = dict(env)
                        if d.get(k, {('fact', eq)}) != {('fact', eq)}: return None
                        d[k] = frozenset([('fact', eq)])
                        if eq:
                            for x, y in ((l.id, q.id), (q.id, l.id)):
                                if '#'+x in d and d.get(y): rec = add(rec, ('end', y, d[y]))
                        return tuple(sorted(d.items(), key=lambda t: t[0])), rec, act
                    bw = s.backwards(e, s.ev(l, env, f, rec, depth), s.ev(q, env, f, rec, depth), act)
                    if bw is not None and (bw[0] and bw[1] and truth or not bw[0] and not bw[1] and not truth): return env, add(rec, ('back', '', NONE)), act
            return st
        ins = flow(c, [(env, rec, None)], lambda n, st: [transfer(n, st)], branch)
        for n, sts in ins.items():
            if n.kind == 'return':
                for st in sts:
                    e, r, a = transfer(n, st)
                    v = n.ast.value
                    out.append((v.value if isinstance(v, ast.Constant) else ('?' if v is not None else None), s.ev(v, st[0], f, r, depth), r, a))
        for n, l in c.exit.pred:
            if n.kind != 'return':
                for st in ins.get(n, ()):
                    e, r, a = transfer(n, st); out.append((None, NONE, r, a))
        return out


def flat(x, out=None):
    out = set() if out is None else out
    if isinstance(x, tuple) and x and x[0] == 'g' and len(x) == 3: out.add(x)
    elif isinstance(x, (tuple, frozenset)):
        for y in x: flat(y, out)
    return out


def has_unknown(x):
    if x == '?': return True
    return isinstance(x, (tuple, frozenset)) and any(has_unknown(y) for y in x)


def judge(cls, f, ret, val, rec, act):
    """problems of one successful path"""
    if rec == ('?',) or has_unknown(rec): return None, []
    if not [x for x in rec if x[0] in ('set', 'in')]: return True, ['reports success without recording anything']
    probs = []
    if any(x[0] == 'back' for x in rec): probs.append('accepts a range only when its end comes before its start')
    rec = tuple(x for x in rec if x[0] not in ('back', 'const'))
    ends = {g for x in rec if x[0] == 'end' for (_t, _r, g) in flat(x[2])}; rec = tuple(x for x in rec if x[0] != 'end')
    if act is None: return True, probs
    try: role, joined, own = roles(act)
    except Exception: return None, []
    n = len(role)
    used = {g for (_t, r, g) in flat(rec) if r == act}
    stray = {g for (_t, r, g) in flat(rec) if r != act}
    if stray: probs.append('records groups of another match')
    miss = [g for g in range(1, n+1) if g not in used]
    if miss: probs.append('does not record ' + ', '.join(f'group {g} ({ {"B":"book","C":"chapter","V":"verse","S":"suffix","I":"index"}.get(role[g],"?")})' for g in miss))

    def grp(v):
        gs = {g for (_t, r, g) in flat(v)}
        return gs
    verses = sorted(own)
    rng = {v for a, b in joined for v in (a, b)}

    def check_key(k, what):
        b, c, v, sfx = (grp(x) for x in k[1:5])
        out = []
        for nm, gs, rl in (('book', b, 'B'), ('chapter', c, 'C'), ('verse', v, 'V'), ('suffix', sfx, 'SI')):
            bad = [g for g in gs if (role.get(g) or '?') not in rl]
            if bad: out.append(f'{what}: group {bad[0]} is given as the {nm}')
        if len(v) == 1 and not out:
            vg = next(iter(v))
            if c and own[vg][0] not in c: out.append(f'{what}: verse group {vg} is given the chapter of another verse')
            if sfx and own[vg][1] not in sfx: out.append(f'{what}: verse group {vg} is given the suffix of another verse')
            if not sfx and own[vg][1] is not None and what != 'a verse of the range': out.append(f'{what}: the suffix of verse group {vg} is dropped')
        return out
    singles, ranges, attrs, inl = [], [], {}, 0
    isrange = any(r[0] == 'set' and isinstance(r[2], tuple) and r[2][0] == 'key' for r in rec)
    seq = []
    for r in rec:
        if r[0] == 'set' and isinstance(r[2], tuple) and r[2][0] == 'key':
            attrs[r[1]] = r[2]; probs += check_key(r[2], f'self.{r[1]}')
        elif r[0] == 'set' and isinstance(r[2], frozenset):
            attrs[r[1]] = r[2]
        elif r[0] == 'in':
            inl += 1
            w = r[2]
            if isinstance(w, tuple) and w[0] == 'key':
                if isrange: continue
                probs += check_key(w, 'a verse key')
                vs = {g for g in grp(w[3]) if role.get(g) == 'V'}
                if vs & rng: probs.append(f'verse group {min(vs & rng)} belongs to a range but is recorded as a single verse')
                if vs: seq.append(min(vs))
            elif isinstance(w, tuple) and w[0] == 'range':
                lv = [g for g in sorted(grp(w[1])) if role.get(g) == 'V']; rv = [g for g in sorted(grp(w[2])) if role.get(g) == 'V']
                if len(lv) == 1 and len(rv) == 1:
                    if (lv[0], rv[0]) not in joined: probs.append(f'verse groups {lv[0]} and {rv[0]} are recorded as a range that the reference does not contain')
                    lg, rg = grp(w[1]), grp(w[2])
                    for vg, gs in ((lv[0], lg), (rv[0], rg)):
                        if own[vg][1] is not None and own[vg][1] not in gs: probs.append(f'the suffix of verse group {vg} is dropped from its range')
                    extra = [g for g in lg | rg if (role.get(g) or '?') in 'SI' and g not in (own[lv[0]][1], own[rv[0]][1])]
                    if extra: probs.append(f'suffix group {extra[0]} of another verse is put into the range')
                    if own[rv[0]][1] in lg or own[lv[0]][1] in rg: probs.append('the suffixes of the two ends of the range are exchanged')
                    if own[lv[0]][0] not in lg: probs.append('the range lacks its chapter')
                    # order of the parts in the text: book, chapter, verse, suffix
                    flatl = [min(grp(x)) for x in w[1] if grp(x)]
                    if flatl != sorted(flatl): probs.append('the parts of the range text are out of order')
                    seq.append(lv[0])
    if seq != sorted(seq): probs.append('the verses are recorded in another order than the reference gives')
    if attrs and all(isinstance(v, frozenset) for v in attrs.values()) and {'C', 'V'} <= set(attrs):       # SimpleVerseKey's own parts
        for nm, v in attrs.items():
            gs = grp(v); want = {'BBB': 'B', 'C': 'C', 'V': 'V', 'S': 'S', 'I': 'I'}.get(nm)
            bad = [g for g in gs if want and role.get(g) != want]
            if bad: probs.append(f'self.{nm} is given group {bad[0]} ({role.get(bad[0])})')
    if isrange:
        keys = [(a, k) for a, k in attrs.items() if isinstance(k, tuple)]
        if len(keys) == 2 and verses:
            v0, v1 = (min(grp(k[3]) or {0}) for _a, k in keys)
            names = {a.lower(): (min(grp(k[3])) if grp(k[3]) else None) for a, k in keys}
            st = [v for a, v in names.items() if 'start' in a or 'begin' in a]; en = [v for a, v in names.items() if 'end' in a]
            if st and en and st[0] is not None and en[0] is not None and st[0] >= en[0]: probs.append('the start and end of the range are exchanged')
        if not inl: probs.append('does not record the verses that the range includes')
        elif verses and not any(isinstance(x[2], tuple) and x[2][0] == 'sub' for x in rec if x[0] == 'in'):
            listed = {g for x in rec if x[0] == 'in' and isinstance(x[2], tuple) and x[2][0] == 'key' for g in grp(x[2][3])} | ends
            for _a, k in keys:
                gs = grp(k[3])
                if len(gs) == 1 and not gs & listed and all(isinstance(x[2], tuple) and x[2][0] == 'key' for x in rec if x[0] == 'in'): probs.append(f'leaves verse group {min(gs)}, an end of the range, out of the verses that it includes')
    return True, list(dict.fromkeys(probs))


def group_uses(p, fold, r):
    """match.group(i) of a foldable pattern: i exists"""
    for f in p.functions(demo=True):
        binds = {}
        for x in own_nodes(f.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                for t in x.targets:
                    if isinstance(t, ast.Name): binds.setdefault(t.id, []).append((x, x.value))
            elif isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name): binds.setdefault(x.target.id, []).append((x, x.value))
        if not binds: continue
        P = Parse(p, fold)
        sites = [x for x in own_nodes(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('group', 'start', 'end', 'span') and isinstance(x.func.value, ast.Name) and x.func.value.id in binds]
        if not sites: continue
        # reaching binding of each use, per variable
        c = cfg_of(f); res = {}
        names = {x.func.value.id for x in sites}
        cur = {c.entry: frozenset()}; st = [c.entry]
        def gen(n):
            out = {}
            for e in ([n.ast] if isinstance(n.ast, ast.Assign) else []) + list(node_exprs(n)):
                for y in ast.walk(e):
                    if isinstance(y, ast.Assign):
                        for t in y.targets:
                            for z in ast.walk(t):
                                if isinstance(z, ast.Name) and z.id in names: out[z.id] = y.value if isinstance(t, ast.Name) else None
                    elif isinstance(y, ast.NamedExpr) and y.target.id in names: out[y.target.id] = y.value
            for y in (ast.walk(n.ast.target) if isinstance(n.ast, (ast.For, ast.AsyncFor)) and n.kind not in ('return',) else ()):
                if isinstance(y, ast.Name) and y.id in names: out[y.id] = None
            return out
        G = {n: gen(n) for n in c.nodes}
        while st:
            n = st.pop(); o = frozenset((k, v) for k, v in cur[n] if k not in G[n]) | frozenset((k, v) for k, v in G[n].items())
            for t, l in n.succ:
                v = o if l != 'exc' else o | cur[n]
                old = cur.get(t)
                if old is None or not v <= old: cur[t] = v if old is None else old | v; st.append(t)
        for n in c.nodes:
            if n not in cur: continue
            here = cur[n] | frozenset(G[n].items())
            for x in node_walk(n):
                if x not in sites: continue
                vals = [v for k, v in here if k == x.func.value.id]
                pats = [P.search(v, f) if isinstance(v, ast.Call) else None for v in vals]
                if not vals or any(q is None for q in pats): continue
                for q in pats:
                    gi = fold.groups(q)
                    if gi is None: r.find(f'pattern:{f.module.rel}:{f.short}:{q[:40]}', f.where(x), f'{f.short} searches for {q!r}, which is not a valid pattern'); continue
                    for a in x.args:
                        if not isinstance(a, ast.Constant): continue
                        r.count('group uses')
                        if isinstance(a.value, int) and a.value > gi[0] or isinstance(a.value, str) and a.value not in gi[1]:
                            r.find(f'group:{f.module.rel}:{f.short}:{q[:40]}:{a.value}', f.where(x), f'{f.short} takes group {a.value!r} of {q!r}, which has {gi[0]}')


def closure1(c, f, parts):
    """the parts that the function, or a method that it calls, uses"""
    out = set(parts(f.node, f.params[0]))
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.params[0] and x.attr in c.methods and c.methods[x.attr] is not f: out |= set(parts(c.methods[x.attr].node, (c.methods[x.attr].params or ['self'])[0]))
    return out


def at_index(f, i):
    """what is returned when the parameter is i"""
    cf = cfg_of(f); k = f.params[1]; out = []; seen = set(); st = [cf.entry]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if n.kind == 'return' and n.ast.value is not None: out.append(n.ast.value)
        val = None
        if n.kind == 'test' and isinstance(n.ast, ast.Compare) and len(n.ast.ops) == 1:
            a, b = n.ast.left, n.ast.comparators[0]
            if isinstance(a, ast.Constant): a, b = b, a
            if isinstance(a, ast.Name) and a.id == k:
                if isinstance(b, ast.Constant) and isinstance(n.ast.ops[0], (ast.Eq, ast.Is)): val = b.value == i
                elif isinstance(b, ast.Constant) and isinstance(n.ast.ops[0], (ast.NotEq, ast.IsNot)): val = b.value != i
                elif isinstance(b, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(z, ast.Constant) for z in b.elts): val = (i in [z.value for z in b.elts]) == isinstance(n.ast.ops[0], ast.In)
        for t, l in n.succ:
            if l == 'exc' or val is not None and l in (True, False) and l != val: continue
            st.append(t)
    return out


def matches(p, fold, f, r):
    """groups are read only where the match was found; no branch waits for a match that was already not found"""
    names = {x.func.value.id for x in own_nodes(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('group', 'groups', 'start', 'end') and isinstance(x.func.value, ast.Name)}
    P = Parse(p, fold)
    for nm in sorted(names):
        def searches(e): return isinstance(e, ast.Call) and P.search(e, f) is not None
        binds = [x for x in own_nodes(f.node) if isinstance(x, (ast.Assign, ast.NamedExpr)) and (isinstance(x, ast.NamedExpr) and x.target.id == nm or isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in x.targets))]
        if nm in f.allparams or not binds or not all(searches(x.value) for x in binds): continue
        def tr(n, s):
            for x in node_walk(n):
                if x in binds: return ['new']
            if n.kind == 'stmt' and n.ast in binds: return ['new']
            return [s]
        def br(n, l, s):
            if n.kind != 'test' or l not in (True, False): return s
            t = n.ast
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t, l = t.operand, not l
            if isinstance(t, ast.NamedExpr): t = t.target
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None: l = l != isinstance(t.ops[0], (ast.Is, ast.Eq)); t = t.left
            if isinstance(t, ast.NamedExpr): t = t.target
            if not (isinstance(t, ast.Name) and t.id == nm): return s
            if s == 'found' and not l or s == 'none' and l: return None
            return 'found' if l else 'none'
        ins = flow(cfg_of(f), ['unset'], tr, br)
        for n, ss in ins.items():
            if not ss: continue
            for x in node_walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == nm and isinstance(x.ctx, ast.Load) and ss & {'none', 'new'}:
                    r.find(f'unmatched:{f.short}:{nm}', f.where(x), f'{f.short} reads {ast.unparse(x)} where the reference did not match'); break
            t = n.ast
            if n.kind == 'test':
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t = t.operand
                if isinstance(t, ast.Name) and t.id == nm and ss == {'none'}: r.find(f'dead:{f.short}:{nm}', f.where(n.ast), f'{f.short} tests again a match that was not found: the references meant here are never accepted')
        r.count('match variables')


def swapped(p, fold, f, r):
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call) and len(x.args) >= 2 and isinstance(x.func, (ast.Name, ast.Attribute)):
            q = p.resolve(x.func, f)
            if isinstance(q, tuple) and q[0] == 'ext' and q[1] in ('re.search', 're.match', 're.fullmatch'):
                b = fold.const(x.args[1], f, f.module)
                if b and b[0] == 'p': r.find(f'swapped:{f.short}:{ast.unparse(x)[:50]}', f.where(x), f'{f.short} searches in the pattern {ast.unparse(x.args[1])}')


def known_codes(p, f, r):
    """a book code that the library does not know is reported, one that it knows is not"""
    R = Reporter(p)
    for n in reachable(cfg_of(f).entry):
        if n.kind != 'test' or not isinstance(n.ast, ast.Compare) or len(n.ast.ops) != 1 or not isinstance(n.ast.ops[0], (ast.In, ast.NotIn)): continue
        c = n.ast.comparators[0]
        if not (isinstance(c, ast.Attribute) and c.attr == 'loadedBibleBooksCodes' or isinstance(c, ast.Name) and c.id == 'loadedBibleBooksCodes'): continue
        if any(isinstance(q, ast.Assert) for q in ancestors(n.ast)): continue
        bad = isinstance(n.ast.ops[0], ast.NotIn); r.count('book code tests')
        def reports(lab):
            st = [t for t, l in n.succ if l == lab]
            return bool(st) and all(first(t) for t in st)
        def first(t):
            for _ in range(12):
                if R.node_reports(t, f): return True
                nx = [q for q, l in t.succ if l != 'exc']
                if t.kind != 'stmt' or len(nx) != 1: return t.kind == 'raise'
                t = nx[0]
            return False
        if not reports(bad) and not any(isinstance(q, (ast.BoolOp,)) for q in ancestors(n.ast)): r.find(f'unknown code:{f.short}:{ast.unparse(n.ast)[:40]}', f.where(n.ast), f'{f.short} says nothing when the book code is not known')


def whole_text(f, r):
    """after B, C, V, S = key.getBCVS() every part gets into the text, unless it was found equal to the one before"""
    for u in reachable(cfg_of(f).entry):
        a = u.ast
        if u.kind != 'stmt' or not isinstance(a, ast.Assign) or not isinstance(a.value, ast.Call) or callname(a.value) != 'getBCVS' or not isinstance(a.targets[0], ast.Tuple) or len(a.targets[0].elts) != 4: continue
        ns = [e.id if isinstance(e, ast.Name) else '_' for e in a.targets[0].elts]
        r.count('texts of keys')
        st = [(t, frozenset(ns)) for t, l in u.succ if l != 'exc']; seen = set()
        while st:
            n, pend = st.pop()
            if (n, pend) in seen: continue
            seen.add((n, pend))
            if pend and (n is u or n.kind in ('return', 'foriter', 'forhead', 'loophead') or n is cfg_of(f).exit):
                if n.kind == 'return': pend = pend - {x.id for x in node_walk(n) if isinstance(x, ast.Name)}
                if pend: r.find(f'text:{f.short}:{",".join(sorted(pend))}', f.where(a), f'{f.short} can leave {", ".join(sorted(pend))} out of the text')
                continue
            if n.kind in ('return',) or n is u: continue
            if n.kind == 'stmt' and isinstance(n.ast, (ast.AugAssign, ast.Assign, ast.Expr)):
                used = {x.id for x in node_walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                if not (isinstance(n.ast, ast.Assign) and all(isinstance(y, (ast.Name, ast.Tuple)) for y in [n.ast.value]) and not isinstance(n.ast.value, ast.JoinedStr)): pend = pend - used
            for t, l in n.succ:
                if l == 'exc': continue
                q = pend
                if n.kind == 'test' and isinstance(n.ast, ast.Compare) and len(n.ast.ops) == 1:
                    eq = isinstance(n.ast.ops[0], ast.Eq)
                    if (eq and l is True) or (isinstance(n.ast.ops[0], ast.NotEq) and l is False): q = pend - {x.id for x in ast.walk(n.ast) if isinstance(x, ast.Name)}
                st.append((t, q))


def answers(f, r):
    """a method that gives the text, the equality or the hash of a key gives it on every path"""
    c = cfg_of(f); live = reachable(c.entry); rets = [n for n in live if n.kind == 'return']
    if not any(n.ast.value is not None for n in rets) and f.name not in ('__str__', '__eq__', '__hash__', '__repr__'): return
    r.count('texts of keys')
    none = [n for n in rets if n.ast.value is None or isinstance(n.ast.value, ast.Constant) and n.ast.value.value is None]
    if none or any(n in live and n.kind not in ('return', 'raise') and l != 'exc' for n, l in c.exit.pred): r.find(f'none:{f.short}', f.where(none[0].ast if none else None), f'{f.short} can return nothing')


def stepped(f, r):
    """verses and chapters are counted one by one"""
    for x in own_nodes(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            for b in ast.walk(x.value):
                if isinstance(b, ast.BinOp) and isinstance(b.op, (ast.Add, ast.Sub)) and isinstance(b.right, ast.Constant) and type(b.right.value) is int and isinstance(b.left, ast.Call) and callname(b.left) == 'int' and b.left.args and isinstance(b.left.args[0], ast.Name) and b.left.args[0].id == x.targets[0].id:
                    r.count('steps')
                    if not (isinstance(b.op, ast.Add) and b.right.value == 1): r.find(f'step:{f.short}:{x.targets[0].id}', f.where(x), f'{f.short} goes on by {ast.unparse(b)[-4:]} instead of one')


def constructed(c, ini, parsers, r):
    """the constructor refuses exactly the references that its parse function refuses, reads OSIS ones as OSIS, and keeps given parts as given"""
    me = ini.params[0]

    def parser(e): return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me and e.attr in parsers
    held = {t.id for x in own_nodes(ini.node) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name) if any(parser(y) for y in ast.walk(x.value))}

    def parses(e): return isinstance(e, ast.Call) and (parser(e.func) or isinstance(e.func, ast.Name) and e.func.id in held or isinstance(e.func, ast.IfExp) and parser(e.func.body))
    res = {t.id for x in own_nodes(ini.node) if isinstance(x, ast.Assign) and parses(x.value) for t in x.targets if isinstance(t, ast.Name)}
    for n in reachable(cfg_of(ini).entry):
        if n.kind != 'test': continue
        e, pos = n.ast, True
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e, pos = e.operand, not pos
        if isinstance(e, ast.NamedExpr): e = e.value
        if not (parses(e) or isinstance(e, ast.Name) and e.id in res): continue
        r.count('constructors')
        for lab in (True, False):
            live = set(); st = [t for t, l in n.succ if l == lab]
            while st:
                q = st.pop()
                if q in live: continue
                live.add(q); st += [t for t, l in q.succ if l != 'exc']
            done = cfg_of(ini).exit in live
            if done != (lab == pos): r.find(f'refuse:{c.name}:{done}', ini.where(n.ast), f'{c.name} {"accepts a reference that its parse function refused" if done else "refuses a reference that its parse function accepted"}')
    for x in own_nodes(ini.node):
        if isinstance(x, ast.IfExp) and parser(x.body) and parser(x.orelse) and isinstance(x.test, ast.Name):
            r.count('constructors')
            if x.test.id.lower() in x.orelse.attr.lower() and x.test.id.lower() not in x.body.attr.lower(): r.find(f'osis:{c.name}', ini.where(x), f'{c.name} reads references with {x.orelse.attr} when they are not {x.test.id}')
        if isinstance(x, ast.Assign):
            for t in x.targets:
                ps = list(zip(t.elts, x.value.elts)) if isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts) else [(t, x.value)]
                for a, b in ps:
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == me and a.attr in ('BBB', 'C', 'V', 'S', 'I') and isinstance(b, ast.Name) and b.id in ('BBB', 'C', 'V', 'SI'):
                        r.count('constructors')
                        if b.id != {'S': 'SI', 'I': 'SI'}.get(a.attr, a.attr): r.find(f'given:{c.name}:{a.attr}', ini.where(x), f'{c.name} keeps the given {b.id} as its {a.attr}')


def decide(p, r, data=None):
    fold = Fold(p)
    m = p.modules.get(MOD)
    if m is not None:
        for f in m.allfuncs:
            if 'emo' in f.name: continue
            if f.cls is not None and f.cls.name.endswith('Key'):
                if f.name in ('__str__', '__repr__', '__eq__', '__ne__', '__hash__') or f.name.startswith('get') and 'Text' in f.name: answers(f, r)
                if any(isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True for x in own_nodes(f.node)): stepped(f, r)
            matches(p, fold, f, r); known_codes(p, f, r); swapped(p, fold, f, r)
            if f.cls is not None and 'Text' in f.name: whole_text(f, r)
    group_uses(p, fold, r)
    for mm in p.modules.values():
        for nm, vs in mm.globals.items():
            for v in vs:
                if not isinstance(v, ast.expr): continue
                for x in ast.walk(v):
                    if isinstance(x, ast.Call) or isinstance(x, ast.JoinedStr):
                        c = fold.const(x, None, mm)
                        if c and c[0] == 'bad': r.find(f'compiled:{mm.rel}:{nm}', f'{mm.rel}:{x.lineno}', f'{nm} formats a compiled pattern into a pattern (its repr, not its text)')
                        if c and c[0] in 'sp' and isinstance(x, ast.Call) and p.resolve_expr_static(x.func, mm) == ('ext', 're.compile'):
                            r.count('patterns')
                            if fold.groups(c[1]) is None: r.find(f'pattern:{mm.rel}:{nm}', f'{mm.rel}:{x.lineno}', f'{nm} is not a valid pattern')
    if m is None: return
    P = Parse(p, fold)
    for c in m.classes.values():
        ini = p.find_method(c, '__init__')
        if ini is None or not c.name.endswith('Key'): continue
        # the parse functions: methods that __init__ uses, or whose name says so
        named = {x.attr for x in ast.walk(ini.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == ini.params[0]}
        def recorder(f): return len(f.params) == 2 and any(isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True for x in own_nodes(f.node))
        if ini.cls is c: constructed(c, ini, {f.name for f in c.methods.values() if f.name in named and recorder(f)}, r)
        for f in c.methods.values():
            if f.name not in named or len(f.params) != 2 or not any(isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True for x in own_nodes(f.node)): continue
            r.count('parse functions')
            start = tuple(sorted({f.params[1]: frozenset([('arg',)])}.items()))
            ends = P.run(f, start, (), 0)
            given = {x[1] for ret, _v, rec, _a in ends if ret is True and _a is not None for x in rec if x[0] == 'const'}
            for ret, val, rec, act in ends:
                if ret is None and rec and rec != ('?',): r.find(f'answer:{f.short}', f.where(), f'{f.short} records a reference and then returns None: the reference is refused')
                if ret is not True: continue
                if rec != ('?',) and act is not None:
                    for a in sorted(given - {x[1] for x in rec if x[0] == 'const'}): r.find(f'kind:{f.short}:{a}', f.where(), f'{f.short} accepts a reference without setting {a}')
                ok, probs = judge(c, f, ret, val, rec, act)
                if ok is None: r.count('successful paths not understood'); continue
                k = (act, tuple(probs))
                r.count('successful paths')
                for pr in probs:
                    nm = next((n for n, vs in m.globals.items() if act is not None and (fold.const(ast.Name(n, ast.Load()), None, m) or ('', None))[1] == act and fold.memo.get((m.name, n), ('',))[0] == 'p'), act or 'no pattern')
                    r.find(f'key:{f.short}:{nm}:{pr}', f.where(), f'{f.short} on {nm}: {pr}')
    # accessors of SimpleVerseKey
    c = m.classes.get('SimpleVerseKey')
    if c is not None:
        letter = {'B': 'BBB', 'C': 'C', 'V': 'V', 'S': 'S', 'I': 'I'}
        word = {'BBB': 'BBB', 'ChapterNumber': 'C', 'ChapterNumStr': 'C', 'VerseNumber': 'V', 'VerseNumStr': 'V', 'VerseSuffix': 'S', 'VerseIndex': 'I', 'ChapterNumberInt': 'C', 'VerseNumberInt': 'V'}

        def parts(e, me): return [x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr in letter.values()]
        for f in c.methods.values():
            if not f.name.startswith('get') or not f.params: continue
            rest = f.name[3:]
            want = [word[rest]] if rest in word else [letter[ch] for ch in rest] if rest and all(ch in letter for ch in rest) else None
            if want is None: continue
            rets = [n for n in reachable(cfg_of(f).entry) if n.kind == 'return']
            if not rest.endswith('Int'):
                for n in rets:
                    if n.ast.value is None or isinstance(n.ast.value, ast.Constant): r.find(f'accessor:{f.short}', f.where(n.ast), f'{f.short} returns {ast.unparse(n.ast)[7:] or None} instead of {", ".join(want)}')
                if not rets: r.find(f'accessor:{f.short}', f.where(), f'{f.short} returns nothing instead of {", ".join(want)}')
            elif not any(n.ast.value is not None and want[0] in closure1(c, f, parts) for n in rets): r.find(f'accessor:{f.short}', f.where(), f'{f.short} never returns {want[0]}')
            for x in own_nodes(f.node):
                if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant):
                    if isinstance(x.value, (ast.Tuple, ast.Attribute)) or rest.endswith('Int'):
                        got = parts(x.value, f.params[0]); r.count('accessors')
                        if got and (set(got) != set(want) if rest.endswith('Int') else got != want):
                            r.find(f'accessor:{f.short}', f.where(x), f'{f.short} returns {", ".join(got)} instead of {", ".join(want)}')

        gi = c.methods.get('__getitem__')
        if gi is not None and len(gi.params) == 2:
            for i, want in enumerate(('BBB', 'C', 'V', 'S')):
                got = [parts(x, gi.params[0]) for x in at_index(gi, i)]; r.count('accessors')
                if not got or not all(want in q for q in got): r.find(f'accessor:{gi.short}:{i}', gi.where(), f'{gi.short} does not give {want} for {i}')

        def closure(name, seen=None):
            seen = set() if seen is None else seen
            f = c.methods.get(name)
            if f is None or name in seen: return set()
            seen.add(name); out = set(parts(f.node, f.params[0])) if f.params else set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and f.params and x.value.id == f.params[0] and x.attr in c.methods: out |= closure(x.attr, seen)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hash', 'str', 'repr') and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == f.params[0]: out |= closure('__%s__' % x.func.id, seen)
                if isinstance(x, ast.Attribute) and x.attr == '__dict__': out |= set(letter.values())
            return out
        for nm in ('__eq__', '__hash__', 'getShortText', 'getVerseKeyText', 'makeHash', '__getitem__'):
            if nm in c.methods:
                r.count('accessors')
                miss = set(letter.values()) - closure(nm)
                if miss: r.find(f'parts:SimpleVerseKey.{nm}', c.methods[nm].where(), f'SimpleVerseKey.{nm} ignores {", ".join(sorted(miss))}')
    # the code patterns accept every code there is
    for nm, tag in (('BBB_RE', 'referenceAbbreviation'), ('OSIS_BOOK_RE', 'OSISAbbreviation')):
        pat = fold.const(ast.Name(nm, ast.Load()), None, m)
        if pat is None or data is None: continue
        for code in data.get(tag, ()):
            r.count('book codes')
            if not re.fullmatch(pat[1], code): r.find(f'code:{nm}:{code}', f'{m.rel}:1', f'{nm} does not accept {code}, a {tag} of BibleBooksCodes.xml')
    for nm in ('C_RE', 'V_RE', 'OSIS_C_RE', 'OSIS_V_RE'):
        pat = fold.const(ast.Name(nm, ast.Load()), None, m)
        if pat is None: continue
        bad = [i for i in range(1, 200) if not re.fullmatch(pat[1], str(i))]
        r.count('number patterns')
        if bad: r.find(f'number:{nm}', f'{m.rel}:1', f'{nm} does not accept {bad[0]}')


def xml_codes(p):
    out = {}
    path = os.path.join(p.root, 'BibleOrgSys', 'DataFiles', 'BibleBooksCodes.xml')
    for e in ET.parse(path).getroot().iter():
        if e.tag in ('referenceAbbreviation', 'OSISAbbreviation') and e.text: out.setdefault(e.tag, []).append(e.text.strip())
    return out


def run(p, r, tier):
    decide(p, r, xml_codes(p))
    r.floor('parse functions', 4); r.floor('successful paths', 10); r.floor('group uses', 40); r.floor('patterns', 40)


class _R:
    def __init__(s): s.k = {}; s.c = {}
    def find(s, k, w, m): s.k[k] = m
    def count(s, n, k=1): s.c[n] = s.c.get(n, 0)+k


PRE = '''import re
B='([A-Z]{3})'
N='([1-9][0-9]?|[1][0-9][0-9])'
VS='{}(?:!([a-d]?))?'.format( N )
BCVS='{}_{}:{}'.format( B, N, VS )
ONE_RE=re.compile('^'+BCVS+'$')
TWO_RE=re.compile(f'^{BCVS},{VS}$')
RNG_RE=re.compile('^{}-{}$'.format(BCVS,VS))
RNGP_RE=re.compile('^{}-{},{}$'.format(BCVS,VS,VS))
class SimpleVerseKey():
  def __init__(self, BBB, C=None, V=None, SI=None):
    if C is None:
      if not self.parse(BBB): raise TypeError
    else: self.BBB,self.C,self.V,self.S,self.I=BBB,C,V,SI,None
  def __eq__(self,o): return self.__dict__==o.__dict__
  def getCV(self): return self.C, self.V
  def parse(self, text):
    m=re.search(ONE_RE,text)
    if m:
      self.BBB,self.C,self.V,self.S,self.I=m.group(1),m.group(2),m.group(3),(m.group(4) or ''),None
      return True
    return False
class VerseRangeKey():
  def __init__(self,t):
    if not self.parse(t): raise TypeError
  def parse(self,text):
    if m:=RNG_RE.search(text):
      self.a, self.b = 1, 2
      self.rangeStart=SimpleVerseKey(m.group(1),m.group(2),m.group(3),m[4])
      self.rangeEnd=SimpleVerseKey(m.group(1),m.group(2),m.group(5),m[6])
      self.all=[]
      self.kind='V'
      V, Z=m.group(3), m.group(5)
      if int(Z)<int(V): return False
      while True:
        if V==Z:
          self.all.append(SimpleVerseKey(m.group(1),m.group(2),Z,m[6]))
          break
        self.all.append(SimpleVerseKey(m.group(1),m.group(2),V,''))
        V=str(int(V)+1)
      return True
    return False
  def getShortText(self):
    if self.a: return 'x'
    return 'y'
class FlexKey():
  def __init__(self,t):
    self.l=[]
    if not self.parse(t): raise TypeError
'''
GOOD = '''  def sfx(self,m,i): return m.group(i) if m.group(i) else ''
  def parse(self,text):
    try:
      self.l.append(SimpleVerseKey(text))
      return True
    except TypeError: pass
    match=re.search(TWO_RE,text)
    if match:
      BBB,C=match.group(1),match.group(2)
      V1,S1=match.group(3),self.sfx(match,4)
      V2,S2=match.group(5),match.group(6) if match.group(6) else ''
      if text: assert V2>V1
      self.l=[SimpleVerseKey(BBB,C,V1,S1),SimpleVerseKey(BBB,C,V2,S2)]
      return True
    match=re.search(RNGP_RE,text)
    if not match: return False
    BBB,C,V1,S1,V2,S2,V3,S3=match.groups()
    k=VerseRangeKey('{}_{}:{}{}{}-{}{}{}'.format(BBB,C,V1,'!' if S1 else '',S1,V2,'!' if S2 else '',S2))
    self.l.append(k)
    self.l.append(SimpleVerseKey(BBB,C,V3,S3))
    return True
'''


def _st(edits, want):
    def t():
        src = PRE + GOOD
        for a, b in edits:
            if a not in src: return False
            src = src.replace(a, b)
        p = Project.from_sources({'BibleOrgSys/Reference/VerseReferences.py': src}); r = _R(); decide(p, r)
        return (not r.k and r.c.get('successful paths', 0) >= 5) if want is None else any(want in k or want in m for k, m in r.k.items())
    return t


SELFTESTS = [
    ('clean', _st([], None)),
    ('wrong group', _st([('V2,S2=match.group(5),match.group(6) if match.group(6)', 'V2,S2=match.group(5),match.group(4) if match.group(4)')], 'suffix of another verse')),
    ('no such group', _st([('match.group(6) if match.group(6)', 'match.group(7) if match.group(6)')], 'takes group 7')),
    ('dropped verse', _st([('    self.l.append(SimpleVerseKey(BBB,C,V3,S3))\n', '')], 'does not record group 7')),
    ('nothing recorded', _st([('      self.l.append(SimpleVerseKey(text))', '      SimpleVerseKey(text)')], 'without recording')),
    ('order', _st([('[SimpleVerseKey(BBB,C,V1,S1),SimpleVerseKey(BBB,C,V2,S2)]', '[SimpleVerseKey(BBB,C,V2,S2),SimpleVerseKey(BBB,C,V1,S1)]')], 'another order')),
    ('range ends', _st([("V1,'!' if S1 else '',S1,V2,'!' if S2 else '',S2))", "V1,'!' if S1 else '',S1,V3,'!' if S3 else '',S3))"), ('SimpleVerseKey(BBB,C,V3,S3)', 'SimpleVerseKey(BBB,C,V2,S2)')], 'as a range that')),
    ('swapped parts', _st([('self.C,self.V,self.S,self.I=m.group(1),m.group(2),m.group(3)', 'self.V,self.C,self.S,self.I=m.group(1),m.group(2),m.group(3)')], 'self.V is given')),
    ('range start', _st([('self.rangeStart=', 'self.x='), ('self.rangeEnd=', 'self.rangeStart='), ('self.x=', 'self.rangeEnd=')], 'exchanged')),
    ('included verses', _st([('          self.all.append(SimpleVerseKey(m.group(1),m.group(2),Z,m[6]))\n', ''), ("        self.all.append(SimpleVerseKey(m.group(1),m.group(2),V,''))\n", '')], 'verses that the range')),
    ('end of the range', _st([('          self.all.append(SimpleVerseKey(m.group(1),m.group(2),Z,m[6]))\n', '')], 'an end of the range')),
    ('end of the range otherwise', _st([('        if V==Z:\n          self.all.append(SimpleVerseKey(m.group(1),m.group(2),Z,m[6]))\n          break\n', ''), ("(2),V,''))\n", "(2),V,''))\n        if V==Z: break\n")], None)),
    ('step', _st([('V=str(int(V)+1)', 'V=str(int(V)+2)')], 'step')),
    ('backwards', _st([('if int(Z)<int(V): return', 'if not int(Z)<int(V): return')], 'comes before its start')),
    ('kind', _st([("      self.kind='V'\n", "      if text: self.kind='V'\n")], 'kind:')),
    ('refused', _st([("    self.l.append(SimpleVerseKey(BBB,C,V3,S3))\n    return True", "    self.l.append(SimpleVerseKey(BBB,C,V3,S3))\n    return")], 'answer:')),
    ('no text', _st([("    return 'y'\n", "")], 'none:')),
    ('unknown code', _st([("  def sfx", "  def chk(self,BBB):\n    if BBB not in X.loadedBibleBooksCodes: pass\n  def sfx")], 'unknown code')),
    ('unknown code reported', _st([("  def sfx", "  def chk(self,BBB):\n    if BBB not in X.loadedBibleBooksCodes: logging.error('bad')\n  def sfx"), ('import re\n', 'import re, logging\n')], None)),
    ('text of several', _st([("  def sfx", "  def getVerseKeyText(self):\n    r=''\n    for k in self.l:\n      B,C,V,S=k.getBCVS()\n      if r: r+=B\n      r+=C+V+S\n    return r\n  def sfx")], 'text:')),
    ('text of several, whole', _st([("  def sfx", "  def getVerseKeyText(self):\n    r=''\n    for k in self.l:\n      B,C,V,S=k.getBCVS()\n      r+=B\n      r+=C+V+S\n    return r\n  def sfx")], None)),
    ('unmatched', _st([("    if match:\n      BBB,C=", "    if not match:\n      BBB,C=")], 'unmatched')),
    ('constructor refuses', _st([('      if not self.parse(BBB): raise TypeError', '      if self.parse(BBB): raise TypeError')], 'refuse:')),
    ('constructor accepts', _st([('    self.l=[]\n    if not self.parse(t): raise TypeError', '    self.l=[]\n    self.parse(t)\n    if self.parse(t): pass')], 'refuse:')),
    ('given parts', _st([('self.I=BBB,C,V,SI,None', 'self.I=BBB,V,C,SI,None')], 'given:')),
    ('swapped', _st([('re.search(TWO_RE,text)', 're.search(text,TWO_RE)')], 'swapped')),
    ('compiled in pattern', _st([("TWO_RE=re.compile(f'^{BCVS},{VS}$')", "TWO_RE=re.compile(f'^{ONE_RE},{VS}$')")], 'formats a compiled')),
    ('accessor', _st([('return self.C, self.V\n', 'return self.V, self.C\n')], 'accessor')),
    ('equality', _st([('self.__dict__==o.__dict__', 'self.BBB==o.BBB and self.C==o.C and self.V==o.V')], 'ignores')),
    ('numbers', _st([("B='([A-Z]{3})'", "B='([A-Z]{3})'\nV_RE='([1-9][0-9]?)'")], 'number')),
]
