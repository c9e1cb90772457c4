"""Facts used by several rules: what counts as a diagnostic, argument mapping, single-definition copies."""
from __future__ import annotations
import ast
from project import *
from cfg import *

LOG_METHODS = {'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'fatal'}
PRINTERS = {'vPrint', 'dPrint', 'fnPrint', 'print'}


def callname(call):
    f = call.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def is_logger(e, f, p, depth=0):
    """does expression e denote the logging module or a logger object"""
    if depth > 4: return False
    if isinstance(e, ast.Call):
        return callname(e) in ('getLogger', 'getChild') and (isinstance(e.func, ast.Name) or is_logger(e.func.value, f, p, depth+1))
    r = p.resolve(e, f)
    if isinstance(r, tuple) and r[0] == 'ext': return r[1] == 'logging'
    if isinstance(r, tuple) and r[0] == 'global':
        return any(v is not None and is_logger(v, f, p, depth+1) for v in r[1].globals.get(r[2], []) if v is not None and isinstance(v, ast.Call))
    if isinstance(e, ast.Name):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                if isinstance(n.value, (ast.Call, ast.Name, ast.Attribute)) and not (isinstance(n.value, ast.Name) and n.value.id == e.id):
                    if is_logger(n.value, f, p, depth+1): return True
    return False


def is_log_call(call, f, p, levels=None):
    """logging.error(...) / logger.warning(...)"""
    if not isinstance(call, ast.Call): return False
    fn = call.func
    if isinstance(fn, ast.Attribute) and fn.attr in (levels or LOG_METHODS): return is_logger(fn.value, f, p)
    if isinstance(fn, ast.Name):
        r = p.resolve(fn, f)
        if isinstance(r, tuple) and r[0] == 'ext' and r[1].startswith('logging.'): return r[1][8:] in (levels or LOG_METHODS)
        # local alias:  logIt = logging.error  /  logging.critical if x else logging.error
        if r is None and p.is_local(fn.id, f):
            vals = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == fn.id for t in n.targets)]
            def alias(v):
                if isinstance(v, ast.IfExp): return alias(v.body) and alias(v.orelse)
                return isinstance(v, ast.Attribute) and v.attr in (levels or LOG_METHODS) and is_logger(v.value, f, p)
            return bool(vals) and all(alias(v) for v in vals)
    return False


def arg_map(call, g, bound=None):
    """parameter name -> argument expression for a call of project function g (best effort; None if *args are used).
       bound: True if the first parameter is bound implicitly (method called on an instance)"""
    params = list(g.params)
    if bound is None:
        bound = g.cls is not None and not g.is_static and isinstance(call.func, ast.Attribute)
        if bound and isinstance(call.func.value, ast.Name) and call.func.value.id == (g.cls.name if g.cls else None): bound = False
    if g.name == '__init__': bound = True
    if bound: params = params[1:]
    m = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred): return m
        if i < len(params): m[params[i]] = a
    for k in call.keywords:
        if k.arg is not None: m[k.arg] = k.value
    return m


def error_list_append(call):
    """loadErrors.append(...), unhandledMarkers.add(...): collected for the end-of-run report"""
    fn = call.func
    if isinstance(fn, ast.Attribute) and fn.attr in ('append', 'add', 'extend', 'update'):
        s = ast.unparse(fn.value).lower()
        return 'error' in s or 'unhandled' in s or 'warning' in s
    return False


class Reporter:
    """Does a CFG node produce a diagnostic?  Interprocedural: a call to a project function all of whose normal paths report."""
    API = {'addPriorityError'}
    def __init__(self, p, levels=None): self.p = p; self.memo = {}; self.levels = levels

    def node_reports(self, n, f):
        if n.kind == 'raise': return True
        return any(self.call_reports(x, f) for x in node_walk(n) if isinstance(x, ast.Call))

    def call_reports(self, call, f):
        if is_log_call(call, f, self.p, self.levels) or error_list_append(call) or callname(call) in self.API: return True
        if callname(call) in PRINTERS: return False
        cs = [c for c in self.p.callees(call, f, cha=False) if isinstance(c, Func)]
        return bool(cs) and all(self.must_report(c) for c in cs)

    def must_report(self, g):
        if g in self.memo: return self.memo[g]
        self.memo[g] = False       # recursion: assume not
        c = cfg_of(g)
        seen = {c.entry}; st = [c.entry]; ok = True
        while st:
            n = st.pop()
            if n is c.exit: ok = False; break
            if self.node_reports(n, g): continue
            for s, l in n.succ:
                if l != 'exc' and s not in seen: seen.add(s); st.append(s)
        if c.exit.pred == [] : ok = False
        self.memo[g] = ok
        return ok


def feeds(p, e, f, depth=6, through_params=False):
    """all expressions that may flow into e by assignment (locals, enclosing locals, self attributes, module globals): a set of
       (expr, func) pairs, flow-insensitive.  Unknown sources (parameters, loop variables) appear as the Name itself."""
    seen = set(); out = []; st = [(e, f, 0)]
    while st:
        x, g, d = st.pop()
        if (id(x), id(g)) in seen: continue
        seen.add((id(x), id(g))); out.append((x, g))
        if d >= depth: continue
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                h = g; found = False
                while h is not None and not found:
                    if y.id in p.locals_of(h):
                        found = True
                        for v in defs_of(h, y.id): st.append((v, h, d+1))
                    h = h.parent
                if not found:
                    r = p.resolve(y, g) if g is not None else None
                    if isinstance(r, tuple) and r[0] == 'global':
                        for v in r[1].globals.get(r[2], []):
                            if v is not None: st.append((v, next(iter(r[1].allfuncs), None), d+1))
            elif isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load):
                r = p.resolve(y, g) if g is not None else None
                if isinstance(r, tuple) and r[0] == 'global':
                    for v in r[1].globals.get(r[2], []):
                        if v is not None: st.append((v, next(iter(r[1].allfuncs), None), d+1))
                elif isinstance(y.value, ast.Name):
                    h = g
                    while h is not None and h.cls is None: h = h.parent
                    if h is not None and h.params and y.value.id == h.params[0]:
                        for k in p.mro(h.cls):
                            for m in k.methods.values():
                                if not m.params: continue
                                for n in own_nodes(m.node):
                                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                            if isinstance(t, ast.Attribute) and t.attr == y.attr and isinstance(t.value, ast.Name) and t.value.id == m.params[0]: st.append((n.value, m, d+1))
    return out


def defs_of(f, name):
    """value expressions assigned to a local name of f (loop iterables, with-items included)"""
    if not hasattr(f, '_defs'):
        ds = {}
        def put(t, v):
            if isinstance(t, ast.Name): ds.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    for a, b in zip(t.elts, v.elts): put(a, b)
                else:
                    for a in t.elts: put(a, v)
            elif isinstance(t, ast.Starred): put(t.value, v)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets: put(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None: put(n.target, n.value)
            elif isinstance(n, ast.AugAssign): put(n.target, n.value)
            elif isinstance(n, ast.NamedExpr): put(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)): put(n.target, n.iter)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None: put(n.optional_vars, n.context_expr)
        f._defs = ds
    return f._defs.get(name, [])
