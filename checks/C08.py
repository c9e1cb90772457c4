"""C08  Text readers account for every line.

Every loop of the library over the lines of a text file that it reads (an open file, its readlines(), the split text of its
read(), a csv reader over it, numbered or not) is a reader, if it keeps anything of a line at all.  On every path through
the body of the loop, from the moment the line is there to the next one, the line is
- kept: something made from it is added to or stored in a container, attribute or object, given to a function that changes
  something, or left in a local variable that is still used for that after this iteration; or
- reported: a log message, an entry in a list of errors, an exception; or
- known to be nothing: blank, a comment, or equal to a fixed text of the format.
A path that leaves the loop before the end of the file has to report too, or to have found what a search was looking for.
"""
from __future__ import annotations
import ast, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
from project import *
from cfg import *
from common import *

RULE = __doc__
ASSUMPTIONS = ['a logging call is a diagnostic', 'a function that stores into its arguments, its object or an enclosing scope keeps what it is given',
               'lines that start with a comment sign (# ; // ! % <!--) hold no text']
COMMENT = ('#', ';', '//', '!', '%', '<!--', '--')
MUTATORS = {'append', 'add', 'extend', 'update', 'insert', 'setdefault', 'write', 'writelines', 'appendleft', 'put', 'writerow', 'executemany'}
WHOLE = {'strip', 'rstrip', 'lstrip', 'replace', 'expandtabs', 'lower', 'upper', 'casefold', 'encode', 'decode', 'removeprefix', 'removesuffix', 'translate'}
EXEMPT = {'getLatestPythonModificationDate'}   # looks for one line of a program file
SEEN = {'warning', 'warn', 'error', 'critical', 'exception', 'fatal', 'log'}   # shown as the library is normally set up
LOOK = {'len', 'print', 'vPrint', 'dPrint', 'fnPrint', 'isinstance', 'repr', 'ord', 'type', 'id', 'hash', 'bool'}


def opened(e, f, p, depth=0):
    """an open text file"""
    if isinstance(e, ast.Call):
        return callname(e) in ('open', 'TextIOWrapper', 'StringIO') and not (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('self', 'webbrowser', 'zipfile'))
    if isinstance(e, ast.Name) and depth < 4:
        ds = defs_of(f, e.id)
        if not ds and f.parent is not None and isinstance(f.parent, Func) and not p.is_local(e.id, f): return opened(e, f.parent, p, depth+1)
        return any(opened(d, f, p, depth+1) for d in ds)
    return False


def text_of(e, f, p, depth=0):
    """the whole text of an open file"""
    if depth > 5: return False
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        if e.func.attr in ('read', 'read_text'): return e.func.attr == 'read_text' or opened(e.func.value, f, p)
        if e.func.attr in WHOLE: return text_of(e.func.value, f, p, depth+1)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice): return text_of(e.value, f, p, depth+1)
    if isinstance(e, ast.Name): return any(text_of(d, f, p, depth+1) for d in defs_of(f, e.id) if d is not e)
    return False


def lines_of(e, f, p, depth=0):
    """0: not lines; 1: each item is a line; 2: each item is (number, line)"""
    if depth > 5: return 0
    if opened(e, f, p): return 1
    if isinstance(e, ast.Call):
        n = callname(e)
        if isinstance(e.func, ast.Attribute):
            if n == 'readlines' and opened(e.func.value, f, p): return 1
            if n == 'splitlines' and text_of(e.func.value, f, p): return 1
            if n == 'split' and text_of(e.func.value, f, p) and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value in ('\n', '\r\n'): return 1
        if n == 'enumerate' and e.args: return 2 if lines_of(e.args[0], f, p, depth+1) else 0
        if n in ('iter', 'list', 'tuple', 'reader', 'DictReader', 'tqdm') and e.args: return lines_of(e.args[0], f, p, depth+1)
    if isinstance(e, ast.Name):
        for d in defs_of(f, e.id):
            if isinstance(d, ast.Call) and callname(d) in ('readlines', 'splitlines', 'split', 'reader', 'DictReader', 'enumerate', 'list'):
                k = lines_of(d, f, p, depth+1)
                if k: return k
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice): return lines_of(e.value, f, p, depth+1)
    return 0


def names(t): return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def shown(call):
    """a message that is always printed"""
    return callname(call) in ('vPrint', 'print') and (callname(call) == 'print' or bool(call.args) and isinstance(call.args[0], ast.Constant) and call.args[0].value == 'Quiet')


class Effect:
    """does a function change anything outside itself?"""
    def __init__(s, p): s.p, s.memo = p, {}
    def changes(s, g):
        if g in s.memo: return s.memo[g]
        s.memo[g] = False
        s.memo[g] = r = s.look(g)
        return r
    def look(s, g):
        loc = s.p.locals_of(g); fresh = set()
        outer = {n for x in own_nodes(g.node) if isinstance(x, (ast.Nonlocal, ast.Global)) for n in x.names}
        params = set(g.allparams)
        for n in own_nodes(g.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: ts = [ast.Subscript(n.func.value, ast.Constant(0), ast.Store())]
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Name) and x.id in outer: return True
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        b = x
                        while isinstance(b, (ast.Attribute, ast.Subscript)): b = b.value
                        if isinstance(b, ast.Name) and (b.id in params or b.id not in loc or b.id in outer): return True
                        if isinstance(b, ast.Name) and any(isinstance(d, (ast.Attribute, ast.Subscript)) for d in defs_of(g, b.id)): return True
            if isinstance(n, ast.Call) and not is_log_call(n, g, s.p) and callname(n) not in LOOK:
                for c in s.p.callees(n, g, cha=False):
                    if isinstance(c, Func) and c.name != '__init__' and s.changes(c): return True
        return False


class Reader:
    def __init__(s, p, f, loop, numbered, effect, rep):
        s.p, s.f, s.loop, s.effect, s.rep = p, f, loop, effect, rep
        t = loop.target
        if numbered == 2 and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2: t = t.elts[1]
        s.line = names(t)
        s.whole = {t.id} if isinstance(t, ast.Name) else set()
        s.text = set()
        s.body = [n for y in loop.body for n in ast.walk(y)]
        s.spread()
        s.cfg = cfg_of(f)
        s.live = s.liveness()

    # ---- what is made from the line
    def content(s, e):
        """mentions of the line in e that carry its text"""
        if e is None: return False
        if isinstance(e, ast.Name): return e.id in s.line
        if isinstance(e, ast.Call):
            n = callname(e)
            if n in LOOK or n in ('find', 'rfind', 'index', 'count', 'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isnumeric'): return False
            return s.content(e.func) or any(s.content(a) for a in e.args) or any(s.content(k.value) for k in e.keywords)
        if isinstance(e, ast.Compare): return False
        if isinstance(e, ast.BoolOp): return any(s.content(v) for v in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return False
        if isinstance(e, ast.IfExp): return s.content(e.body) or s.content(e.orelse)
        if isinstance(e, ast.Lambda): return False
        return any(s.content(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.comprehension, ast.keyword, ast.FormattedValue)))

    def is_whole(s, e, among=None):
        among = s.whole if among is None else among
        if isinstance(e, ast.Name): return e.id in among
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in WHOLE: return s.is_whole(e.func.value, among)
            return any(isinstance(g, Func) and s.cleans(e, g, among) for g in s.p.callees(e, s.f, cha=False))
        if isinstance(e, ast.Subscript): return isinstance(e.slice, ast.Slice) and s.is_whole(e.value, among)
        if isinstance(e, ast.IfExp): return s.is_whole(e.body, among) and s.is_whole(e.orelse, among)
        return False

    def cleans(s, call, g, among):
        """a function that returns the whole of the line that it is given, tidied"""
        m = arg_map(call, g, bound=isinstance(call.func, ast.Attribute))
        own = {q for q, a in m.items() if isinstance(a, ast.AST) and s.is_whole(a, among)}
        if not own or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(g.node)): return False
        def whole(e):
            if isinstance(e, ast.Name): return e.id in own
            if isinstance(e, ast.Call): return isinstance(e.func, ast.Attribute) and e.func.attr in WHOLE and whole(e.func.value)
            if isinstance(e, ast.Subscript): return isinstance(e.slice, ast.Slice) and whole(e.value)
            if isinstance(e, ast.IfExp): return whole(e.body) and whole(e.orelse)
            return False
        n0 = -1
        while n0 != len(own):
            n0 = len(own)
            for x in own_nodes(g.node):
                if isinstance(x, ast.Assign) and whole(x.value): own |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        rs = [x for x in own_nodes(g.node) if isinstance(x, ast.Return)]
        return bool(rs) and all(x.value is not None and whole(x.value) for x in rs)

    def asked(s, e):
        """the expression that a small function asks about the line"""
        if not isinstance(e, ast.Call): return None
        for g in s.p.callees(e, s.f, cha=False):
            if not isinstance(g, Func): continue
            body = [y for y in g.node.body if not (isinstance(y, ast.Expr) and isinstance(y.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
                m = arg_map(e, g, bound=isinstance(e.func, ast.Attribute))
                import copy
                class Sub(ast.NodeTransformer):
                    def visit_Name(_, x): return copy.deepcopy(m[x.id]) if isinstance(m.get(x.id), ast.AST) else x
                def bare(x):   # a copy without the links to the parents
                    if isinstance(x, list): return [bare(y) for y in x]
                    if not isinstance(x, ast.AST): return x
                    return type(x)(**{k: bare(v) for k, v in ast.iter_fields(x)})
                m = {k: bare(v) for k, v in m.items() if isinstance(v, ast.AST)}
                return Sub().visit(bare(body[0].value))
        return None

    def is_split(s, e, d=0):
        """the parts of the whole line"""
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.upper is None: return s.is_split(e.value, d)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('split', 'rsplit', 'partition'): return s.is_whole(e.func.value)
        if isinstance(e, ast.Name) and d < 3: return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and s.is_split(n.value, d+1) for n in s.body)
        return False

    def spread(s):
        while True:
            n0 = len(s.line), len(s.whole), len(s.text)
            for n in s.body:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if s.content(n.value):
                            s.line |= {x.id for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []) if isinstance(x, ast.Name)}
                        if isinstance(t, ast.Name) and s.is_whole(n.value): s.whole.add(t.id)
                        if isinstance(t, ast.Name) and s.is_whole(n.value, s.text): s.text.add(t.id)
                        if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) > 1 and isinstance(t.elts[-1], ast.Name) and s.is_split(n.value): s.text.add(t.elts[-1].id)
                elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None and isinstance(n.target, ast.Name):
                    if s.content(n.value): s.line.add(n.target.id)
                    if s.is_whole(n.value): s.whole.add(n.target.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and s.content(n.value): s.line.add(n.target.id)
                elif isinstance(n, (ast.For, ast.comprehension)) and s.content(n.iter): s.line |= names(n.target)
            if (len(s.line), len(s.whole), len(s.text)) == n0: break
        while True:   # not a name that is sometimes only a part of the line
            bad = set()
            for n in s.body:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None else []
                for t in ts:
                    if isinstance(t, ast.Name) and t.id in s.whole and not s.is_whole(n.value): bad.add(t.id)
                    elif isinstance(t, (ast.Tuple, ast.List)): bad |= names(t) & s.whole
            if not bad: return
            s.whole -= bad

    # ---- keeping
    def sink(s, call):
        """a call that keeps what it is given"""
        if is_log_call(call, s.f, s.p) or callname(call) in LOOK: return False
        if isinstance(call.func, ast.Attribute) and call.func.attr in MUTATORS: return True
        cs = [c for c in s.p.callees(call, s.f, cha=False)]
        if any(isinstance(c, (Func,)) and c.name != '__init__' and s.effect.changes(c) for c in cs): return True
        if any(isinstance(c, Cls) or isinstance(c, Func) and c.name == '__init__' for c in cs): return False
        up = getattr(call, '_parent', None)
        if not cs and isinstance(call.func, ast.Attribute) and isinstance(up, ast.Expr) and not isinstance(call.func.value, ast.Constant): return True   # an unknown method called for what it does
        return False

    def uses(s, n):
        """names whose value is kept at this node"""
        out = set()
        for x in node_walk(n):
            if isinstance(x, ast.Call) and s.sink(x):
                for a in list(x.args)+[k.value for k in x.keywords]: out |= names(a)
            if isinstance(x, (ast.Yield, ast.Return)) and getattr(x, 'value', None) is not None: out |= names(x.value)
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and a.value is not None:
            ts = a.targets if isinstance(a, ast.Assign) else [a.target]
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        out |= names(a.value)
                        if isinstance(x, ast.Subscript): out |= names(x.slice)
        if n.kind == 'return' and isinstance(a, ast.Return) and a.value is not None: out |= names(a.value)
        return out

    def assigns(s, n):
        """[(targets, value)] of local names at this node"""
        out = []
        a = n.ast
        if n.kind == 'stmt':
            if isinstance(a, ast.Assign):
                for t in a.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(a.value, (ast.Tuple, ast.List)) and len(t.elts) == len(a.value.elts):
                        for x, v in zip(t.elts, a.value.elts):
                            if isinstance(x, ast.Name): out.append(({x.id}, v, False))
                    else: out.append(({x.id for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []) if isinstance(x, ast.Name)}, a.value, False))
            elif isinstance(a, ast.AnnAssign) and a.value is not None and isinstance(a.target, ast.Name): out.append(({a.target.id}, a.value, False))
            elif isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name): out.append(({a.target.id}, a.value, True))
        if n.kind == 'forhead': out.append((names(a.target), a.iter, False))
        for x in node_walk(n):
            if isinstance(x, ast.NamedExpr): out.append(({x.target.id}, x.value, False))
        return out

    def sibling_sets(s, n):
        """what the other branches set, where this one only says that the line is wrong"""
        if n.ast is None: return set()
        if id(n) in getattr(s, '_sib', {}): return s._sib[id(n)]
        if not hasattr(s, '_sib'): s._sib = {}
        out = set(); a = n.ast
        while a is not None and a is not s.loop:
            up = getattr(a, '_parent', None)
            if isinstance(up, ast.If):
                mine, other = (up.body, up.orelse) if any(a is y for y in up.body) else (up.orelse, up.body)
                if any(a is y for y in mine):
                    sets = lambda ys: {x.id for y in ys for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    out |= sets(other)-sets(mine)
            elif not isinstance(up, (ast.With, ast.Try, ast.ExceptHandler)) and not isinstance(up, ast.stmt): pass
            a = up
        s._sib[id(n)] = out
        return out

    def liveness(s):
        """names live for keeping at the head of the loop"""
        live = {n: set() for n in s.cfg.nodes}
        told = {n for n in s.cfg.nodes if s.reports(n)}   # what comes after a message about this line is not the normal use
        info = {n: (s.uses(n), s.assigns(n)) for n in s.cfg.nodes}
        outer = set()   # names that nested functions use
        for g in [x for x in ast.walk(s.f.node) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not s.f.node]: outer |= names(g)
        work = list(s.cfg.nodes)
        while work:
            n = work.pop()
            out = set()
            for t, _ in n.succ: out |= live[t]
            uses, asg = info[n]
            new = set(out)
            for ts, v, aug in reversed(asg):
                kept = ts & (out | outer)
                if not aug: new -= ts
                if kept: new |= names(v) | (ts if aug else set())
            if n in told: new -= s.sibling_sets(n)
            new |= uses
            if new != live[n]:
                live[n] = new
                work += [m for m, _ in n.pred]
        s.head = next((n for n in s.cfg.nodes if n.kind == 'forhead' and n.ast is s.loop), None)
        return live

    def keeps(s, n, live_after):
        for x in node_walk(n):
            if isinstance(x, ast.Call) and s.sink(x) and (any(s.content(a) for a in x.args) or any(s.content(k.value) for k in x.keywords)): return True
            if isinstance(x, (ast.Yield,)) and x.value is not None and s.content(x.value): return True
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and a.value is not None:
            ts = a.targets if isinstance(a, ast.Assign) else [a.target]
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and (s.content(a.value) or isinstance(x, ast.Subscript) and s.content(x.slice)): return True
                    # a local variable that outlives this line
                    if isinstance(x, ast.Name) and s.content(a.value) and (x.id in live_after or isinstance(a, ast.AugAssign) and x.id in live_after): return True
        if n.kind == 'return' and isinstance(a, ast.Return) and a.value is not None and (s.content(a.value) or not (isinstance(a.value, ast.Constant) and not a.value.value)): return True
        return False

    def reports(s, n): return n.kind == 'raise' or any(isinstance(x, ast.Call) and (s.rep.call_reports(x, s.f) or shown(x)) for x in node_walk(n))

    # ---- conditions
    def nothing(s, e, label):
        """the branch says that the line is blank, a comment or a fixed text"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return s.nothing(e.operand, not label)
        if isinstance(e, ast.BoolOp): return (any if isinstance(e.op, ast.And) is label else all)(s.nothing(v, label) for v in e.values)
        q = s.asked(e)
        if q is not None: return s.nothing(q, label)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'isspace' and s.is_whole(e.func.value): return label is True
        if s.is_whole(e) or s.is_whole(e, s.text): return label is False
        if isinstance(e, ast.Call) and callname(e) == 'len' and e.args and s.is_whole(e.args[0]): return label is False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'startswith' and s.is_whole(e.func.value) and e.args:
            a = e.args[0]
            vs = [x.value for x in (a.elts if isinstance(a, ast.Tuple) else [a]) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            return label is True and bool(vs) and all(v.startswith(COMMENT) for v in vs)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant) and isinstance(op, (ast.Eq, ast.NotEq)): l, r = r, l
            yes = True if isinstance(op, (ast.Eq, ast.In, ast.Is)) else False if isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)) else None
            if isinstance(l, ast.Call) and callname(l) == 'len' and l.args and s.is_whole(l.args[0]) and isinstance(r, ast.Constant) and isinstance(r.value, int):
                if isinstance(op, (ast.Lt, ast.LtE)): return label is True and r.value <= 1
                if isinstance(op, (ast.Gt, ast.GtE)): return label is False and r.value <= 1
                return yes is not None and label is yes and r.value == 0
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, ast.Constant) and isinstance(r.value, str):   # one of these characters
                return label is yes and s.is_whole(l) and isinstance(l, ast.Subscript) and bool(r.value) and all(v.startswith(COMMENT) for v in r.value)
            consts = [r] if isinstance(r, ast.Constant) else list(r.elts) if isinstance(r, (ast.Tuple, ast.List, ast.Set)) else []
            if yes is not None and label is yes and isinstance(r, ast.JoinedStr) and s.is_whole(l) and not s.content(r): return True
            vs = [x.value for x in consts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            if yes is not None and vs and len(vs) == len(consts) and label is yes and s.is_whole(l, s.text): return True
            if yes is not None and label is yes and isinstance(l, ast.Name) and isinstance(r, ast.Constant) and r.value in (0, 1) and not isinstance(r.value, bool) and s.counter(l.id): return True
            if yes is True and label is True and isinstance(op, ast.In) and isinstance(r, ast.Name) and r.id in s.f.allparams and s.content(l): return True
            if yes is False and label is False and isinstance(op, ast.NotIn) and isinstance(r, ast.Name) and r.id in s.f.allparams and s.content(l): return True
            if yes is not None and vs and len(vs) == len(consts) and label is yes:
                if s.is_whole(l) : return not isinstance(l, ast.Subscript) or all(v.startswith(COMMENT) for v in vs)
                if isinstance(l, ast.Subscript) and s.is_whole(l.value): return all(v.startswith(COMMENT) for v in vs)
        return False

    def again(s, k):
        """is the same thing asked at several places?"""
        if not hasattr(s, '_tests'):
            s._tests = {}
            for n in s.cfg.nodes:
                if n.kind == 'test': d = ast.dump(n.ast); s._tests[d] = s._tests.get(d, 0)+1
        return s._tests.get(k, 0) > 1

    def counter(s, name):
        """the number of the line"""
        t = s.loop.target
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(t.elts[0], ast.Name) and t.elts[0].id == name: return True
        incs = [n for n in s.body if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name]
        return len(incs) == 1 and getattr(incs[0], '_parent', None) is s.loop and isinstance(incs[0].value, ast.Constant) and incs[0].value.value == 1

    def prefix(s, e, label):
        """the branch says that the line starts with, or contains, a fixed text"""
        if label is not True: return False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('startswith', 'endswith') and s.is_whole(e.func.value): return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            if isinstance(e.ops[0], ast.In) and isinstance(e.left, ast.Constant) and s.is_whole(e.comparators[0]): return True
            if isinstance(e.ops[0], ast.Eq) and not (isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, str) and not e.comparators[0].value.strip()) and isinstance(e.comparators[0], ast.Constant) and s.content(e.left): return True
        return False

    def says(s, n, after):
        """what this kind of line says is remembered for the next ones"""
        return any(len(ts & s.alive) > 0 and (isinstance(v, ast.Constant) or isinstance(v, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in v.elts)) for ts, v, aug in s.assigns(n) if not aug)

    def known(s, e, facts):
        """the value of a test that the constants assigned on this path decide"""
        vals = {q[0][1]: q[1] for q in facts if isinstance(q[0], tuple)}
        if isinstance(e, ast.Name) and e.id in vals: return bool(vals[e.id])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id in vals:
            try: r = ast.literal_eval(e.comparators[0])
            except (ValueError, TypeError): return None
            v = vals[e.left.id]; op = e.ops[0]
            try: return {ast.Eq: lambda: v == r, ast.NotEq: lambda: v != r, ast.In: lambda: v in r, ast.NotIn: lambda: v not in r, ast.Is: lambda: v is r, ast.IsNot: lambda: v is not r,
                         ast.Lt: lambda: v < r, ast.Gt: lambda: v > r, ast.LtE: lambda: v <= r, ast.GtE: lambda: v >= r}[type(op)]()
            except TypeError: return None

    def guarded(s, n, after):
        """if part: keep( part )"""
        e = n.ast
        if not (isinstance(e, ast.Name) and e.id in s.line): return False
        return any(l is True and t.kind == 'stmt' and e.id in s.uses(t) and s.keeps(t, after) for t, l in n.succ)

    def parts(s, e):
        """text.split( separator ), which always has a first part"""
        if isinstance(e, ast.Call): return callname(e) == 'split' and bool(e.args)
        if isinstance(e, ast.Name): ds = defs_of(s.f, e.id); return bool(ds) and all(isinstance(d, ast.Call) and s.parts(d) for d in ds)
        return False

    def told(s, n, label):
        """the same answer to the same question, where it is new, is reported: this is a line like one that was reported"""
        k = ast.dump(n.ast)
        if not isinstance(n.ast, ast.Name): return False
        for m in s.cfg.nodes:
            if m is not n and m.kind == 'test' and ast.dump(m.ast) == k and m.ast is not n.ast and any(l is label and t.kind != 'raise' and s.reports(t) for t, l in m.succ): return True
        return False

    def used_before_set(s, head):
        """names whose value goes from one line to the next"""
        use, sets = {}, {}
        for n in s.cfg.nodes:
            sets[n] = {x for ts, _, aug in s.assigns(n) if not aug for x in ts}
            use[n] = {x.id for x in node_walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            if any(isinstance(x, ast.Call) and (callname(x) in LOOK or is_log_call(x, s.f, s.p)) for x in node_walk(n)) and n.kind == 'stmt' and isinstance(n.ast, ast.Expr): use[n] = set()
        live = {n: set() for n in s.cfg.nodes}; work = list(s.cfg.nodes)
        while work:
            n = work.pop(); out = set()
            for t, _ in n.succ: out |= live[t]
            new = (out - sets[n]) | use[n]
            if new != live[n]: live[n] = new; work += [m for m, _ in n.pred]
        return live[head]

    # ---- the paths
    def lost(s):
        """[(node, how)] of ends of an iteration with the line neither kept nor reported nor nothing"""
        head = s.head
        if head is None: return []
        inside = set()
        for y in s.loop.body:
            for n in ast.walk(y): inside.add(id(n))
        after = s.live[head]
        s.alive = s.used_before_set(head)
        tested = {x for n in s.cfg.nodes if n.kind == 'test' for x in names(n.ast)}
        seen, st, out = set(), [], []
        for t, l in head.succ:
            if l is True: st.append((t, frozenset(), head))
        s.steps = 0; s.kept = 0
        while st:
            n, facts, prev = st.pop()
            if (n, facts, prev if n is head or n.ast is None or id(n.ast) not in inside else None) in seen: continue
            seen.add((n, facts, prev if n is head or n.ast is None or id(n.ast) not in inside else None)); s.steps += 1
            if s.steps > 60000: raise AnalysisError(f'too many paths in {s.f.qual}')
            if n is head: out.append((prev, 'the next line')); continue
            if n is s.cfg.excexit: continue
            if n is s.cfg.exit or n.ast is None and n.kind not in ('test',) or not (id(n.ast) in inside):
                if n is not s.cfg.exit and n.kind in ('finally', 'with_exit') : pass
                out.append((prev, 'the rest of the file')); continue
            for t, l in n.succ:   # what the statement would do is not done if it fails and the loop catches that
                if l == 'exc' and t.kind == 'handler' and id(t.ast) in inside: st.append((t, facts, n))
            if n.kind == 'raise': continue
            if s.reports(n): continue
            if s.keeps(n, after):
                if n.kind != 'return': s.kept += 1
                continue
            if any(q[0] == 'prefix' for q in facts) and s.says(n, after): continue
            # forget facts about names that change here
            changed = {x for ts, _, _ in s.assigns(n) for x in ts}
            if changed: facts = frozenset(q for q in facts if not (q[2] & changed))
            for ts, v, aug in s.assigns(n):
                if len(ts) == 1 and isinstance(v, ast.Constant) and not aug and ts <= tested: facts = facts | {(('=', next(iter(ts))), v.value, frozenset(ts))}
                if len(ts) == 1 and n.kind == 'forhead': pass
            for t, l in n.succ:
                if l == 'exc': continue
                fs = facts
                if n.kind == 'forhead' and n is not head and s.parts(n.ast.iter):
                    if l is True: fs = facts | {(('in', id(n)), True, frozenset())}
                    elif (('in', id(n)), True, frozenset()) not in facts: continue   # there is always a first part
                if n.kind == 'test' and l in (True, False):
                    if s.nothing(n.ast, l): continue
                    if s.known(n.ast, facts) is (not l): continue
                    if l is False and s.guarded(n, after): continue
                    if s.told(n, l): continue
                    if s.prefix(n.ast, l): fs = fs | {('prefix', True, frozenset())}
                    k = ast.dump(n.ast)
                    if any(q[0] == k and q[1] is not l for q in facts): continue
                    if s.again(k) and not any(isinstance(x, ast.Call) and callname(x) not in LOOK for x in ast.walk(n.ast)): fs = fs | {(k, l, frozenset(names(n.ast)))}
                st.append((t, fs, n))
        return out


def decide(p):
    out, counts = {}, {'loops over lines': 0, 'readers': 0, 'points explored': 0, 'places that keep a line': 0}
    effect, rep = Effect(p), Reporter(p, SEEN)
    for f in p.functions():
        if f.name in EXEMPT: continue
        for loop in own_nodes(f.node):
            if not isinstance(loop, ast.For): continue
            k = lines_of(loop.iter, f, p)
            if not k: continue
            counts['loops over lines'] += 1
            r = Reader(p, f, loop, k, effect, rep)
            ends = r.lost()
            counts['points explored'] += getattr(r, 'steps', 0)
            if not getattr(r, 'kept', 0): continue
            counts['readers'] += 1; counts['places that keep a line'] += r.kept
            for n, what in ends:
                a = n.ast
                g = a
                while g is not None and not (isinstance(g, ast.If) and g is not a): g = getattr(g, '_parent', None)
                guard = ast.unparse(g.test)[:60]+': ' if g is not None and any(g is y for y in ast.walk(loop)) and isinstance(a, ast.stmt) else ''
                key = f'{"lost" if what == "the next line" else "stops"}:{f.short}:{guard}{ast.unparse(a)[:60] if a is not None and not isinstance(a, (ast.For, ast.While, ast.If, ast.With)) else n.kind}'
                out.setdefault(key, (f.where(a) if a is not None else f.where(loop), f'a line of the file can get from here to {what} without being kept, reported or known to be blank or a comment'))
    return [(k, *v) for k, v in out.items()], counts


def run(p, r, tier):
    found, counts = decide(p)
    for k, n in counts.items(): r.count(k, n)
    for key, where, msg in found: r.find(key, where, msg)
    r.floor('loops over lines', 15); r.floor('readers', 10)


_HEAD = "import logging\ndef vPrint(a,b,*c): print(*c)\ndef dPrint(a,b,*c): print(*c)\n"


def _st(body, want, head="      line = line.rstrip('\\n')\n", loop="for line in fl", tail=''):
    def go():
        src = _HEAD+"class B:\n def load(self, path):\n  lastKey = None\n  count = 0\n  with open(path, encoding='utf-8') as fl:\n    "+loop+":\n"+head+''.join('      '+x+'\n' for x in body.split('\n'))+tail
        p = Project.from_sources({'BibleOrgSys/Formats/X.py': src})
        got = sorted(k for k, *_ in decide(p)[0])
        return got == sorted(want) or got
    return go


SELFTESTS = [
    ('good reader', _st("count += 1\nif not line: continue\nif line[0]=='#': continue\nbits = line.split(',')\nif len(bits)!=2:\n  logging.error('bad')\n  continue\nself.d[bits[0]] = bits[1]", [])),
    ('drops short lines', _st("if not line: continue\nbits = line.split(',')\nif len(bits)<2: continue\nself.d[bits[0]] = bits[1]", ['lost:B.load:len(bits) < 2: continue'])),
    ('says so only in debug', _st("bits = line.split(',')\nif len(bits)<2:\n  dPrint('Never', 0, line)\n  continue\nself.d[bits[0]] = bits[1]", ['lost:B.load:len(bits) < 2: continue'])),
    ('no else', _st("if ':' in line:\n  a,b = line.split(':',1)\n  self.d[a]=b\nelif '=' in line:\n  a,b = line.split('=',1)\n  self.d[a]=b", ["lost:B.load:'=' in line"])),
    ('no else, reported', _st("if ':' in line:\n  a,b = line.split(':',1)\n  self.d[a]=b\nelif '=' in line:\n  a,b = line.split('=',1)\n  self.d[a]=b\nelse: vPrint('Quiet', 0, 'unknown', line)", [])),
    ('unused local', _st("if line.startswith('n:'): name = line[2:]\nelse: self.d.append(line)", ["lost:B.load:line.startswith('n:'): name = line[2:]"])),
    ('local used later', _st("if line.startswith('n:'): lastKey = line[2:]\nelse: self.d[lastKey]=line", [])),
    ('stops early', _st("if line=='END':\n  break\nif len(line)>99: break\nself.d.append(line)", ['stops:B.load:len(line) > 99: break'])),
    ('stops early, reported', _st("if len(line)>99:\n  logging.critical('long')\n  break\nself.d.append(line)", [])),
    ('header line', _st("count += 1\nif count==1: continue\nself.d.append(line)", [])),
    ('numbered', _st("if n==1: continue\nself.d.append(line)", [], loop='for n,line in enumerate(fl, start=1)')),
    ('numbered, third', _st("if n>=3000: continue\nself.d.append(line)", ['lost:B.load:n >= 3000: continue'], loop='for n,line in enumerate(fl, start=1)')),
    ('readlines', _st("if len(line)<3: continue\nself.d.append(line)", ['lost:B.load:len(line) < 3: continue'], loop='for line in fl.readlines()')),
    ('text', _st("if len(line)<3: continue\nself.d.append(line)", ['lost:B.load:len(line) < 3: continue'], loop="for line in fl.read().split('\\n')")),
    ('helper keeps', _st("if line: self.keep(line)", [], tail=" def keep(self, x):\n  self.d.append(x)\n")),
    ('helper does nothing', _st("if line[0]=='x': self.d.append(line)\nelse: self.look(line)", ["lost:B.load:line[0] == 'x': self.look(line)"], tail=" def look(self, x):\n  return x=='y'\n")),
    ('helper reports', _st("if line[0]=='x': self.d.append(line)\nelse: self.bad(line)", [], tail=" def bad(self, x):\n  logging.warning('bad %s', x)\n")),
    ('parts', _st("for w in line.split(';'):\n  self.d.append(w)", [])),
    ('some parts', _st("for w in line.split(';'):\n  if w!='x': self.d.append(w)", ["lost:B.load:forhead"])),
    ('asks a helper', _st("if self.isComment(line): continue\nself.d.append(line)", [], tail=" def isComment(self, x):\n  '''Is it?'''\n  return not x or x[0]=='#'\n")),
    ('asks a helper about more', _st("if self.isComment(line): continue\nself.d.append(line)", ['lost:B.load:self.isComment(line): continue'], tail=" def isComment(self, x):\n  return not x or x[0] in '#x'\n")),
    ('cleaned by a helper', _st("line = self.clean(line, count)\nif not line: continue\nself.d.append(line)", [], tail=" def clean(self, x, n):\n  if n==1 and x[0]=='q': x = x[1:]\n  if x and x[-1]=='y': return x[:-1]\n  return x.strip()\n")),
    ('second field', _st("line = self.second(line)\nif line=='x': continue\nself.d.append(line)", ["lost:B.load:line == 'x': continue"], tail=" def second(self, x):\n  return x.split(',')[1]\n")),
    ('swallowed', _st("try: n = int(line)\nexcept ValueError: continue\nself.d.append(n)", ["lost:B.load:continue"])),
]
