"""Statement/condition-level control-flow graphs, and a small finite-state dataflow engine with inlining of helpers.

Nodes: one per simple statement and one per atomic branch condition (and/or/not are decomposed), so a path's branch
labels are facts about atomic tests.  Exceptional edges exist inside try bodies; `raise`, `halt`, sys.exit() and the like
leave through the exceptional exit.
"""
from __future__ import annotations
import ast
from project import dotted, HALT

class Node:
    __slots__ = ('id', 'kind', 'ast', 'succ', 'pred', 'info')
    def __init__(self, id, kind, a=None, info=None):
        self.id, self.kind, self.ast, self.info = id, kind, a, info
        self.succ = []   # (Node, label)  label in None, True, False, 'exc'
        self.pred = []
    def __repr__(self): return f'<{self.kind}#{self.id} L{getattr(self.ast,"lineno","?")}>'


def is_noreturn_expr(e):
    if isinstance(e, ast.Name) and e.id == HALT: return True
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        return d in ('sys.exit', 'exit', 'quit', 'os._exit', 'os.abort')
    return False


def const_truth(e):
    """True/False for constant tests (incl. `while True`, `if 0`, `if 1:`), else None"""
    if isinstance(e, ast.Constant): return bool(e.value)
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)) : return None
    return None


class CFG:
    def __init__(self, fnode, body=None):
        self.fnode = fnode
        self.nodes = []
        self.entry = self.new('entry')
        self.exit = self.new('exit')       # normal return
        self.excexit = self.new('excexit') # uncaught exception
        self.loops = []        # stack of (continue_target, break_list)
        self.handlers = []     # stack of lists of handler entry nodes / finally frames
        ends = self.block(body if body is not None else fnode.body, [(self.entry, None)])
        for n, l in ends: self.edge(n, self.exit, l)
        for n in self.nodes:
            for s, l in n.succ: s.pred.append((n, l))

    def new(self, kind, a=None, info=None):
        n = Node(len(self.nodes), kind, a, info); self.nodes.append(n); return n
    def edge(self, a, b, label=None):
        if (b, label) not in a.succ: a.succ.append((b, label))
    def connect(self, fr, node):
        for n, l in fr: self.edge(n, node, l)

    # --- exceptional flow
    def exc_targets(self):
        """where an exception raised here goes: list of nodes"""
        for frame in reversed(self.handlers):
            if frame[0] == 'except':
                return frame[1] + ([] if frame[2] else self._outer_targets(frame))
            if frame[0] == 'finally': return [frame[1]]
        return [self.excexit]
    def _outer_targets(self, frame):
        i = self.handlers.index(frame)
        saved = self.handlers; self.handlers = self.handlers[:i]
        r = self.exc_targets(); self.handlers = saved
        return r

    def may_raise(self, s):
        for n in ast.walk(s):
            if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Import, ast.ImportFrom, ast.Assert, ast.Raise, ast.Name, ast.Await, ast.Yield)): return True
        return False

    def add_exc(self, node, a):
        if self.handlers and self.may_raise(a):
            for t in self.exc_targets(): self.edge(node, t, 'exc')

    # --- statements; fr = list of dangling (node,label); returns new dangling list
    def block(self, stmts, fr):
        for s in stmts:
            if not fr:      # unreachable code: still build nothing
                return fr
            fr = self.stmt(s, fr)
        return fr

    def cond(self, e, fr):
        """build condition; returns (true_dangling, false_dangling)"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                fs = []
                t = fr
                for v in e.values:
                    t, f = self.cond(v, t); fs += f
                    if not t: break
                return t, fs
            ts = []
            f = fr
            for v in e.values:
                t, f = self.cond(v, f); ts += t
                if not f: break
            return ts, f
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, fr)
            return f, t
        ct = const_truth(e)
        n = self.new('test', e)
        self.connect(fr, n)
        self.add_exc(n, e)
        t = [(n, True)] if ct is not False else []
        f = [(n, False)] if ct is not True else []
        return t, f

    def run_finallies(self, fr, upto=0):
        """inline the finally bodies between here and handler-stack depth `upto` (for return/break/continue)"""
        i = len(self.handlers)
        saved = self.handlers
        while i > upto:
            i -= 1
            frame = saved[i]
            if frame[0] == 'finally' and frame[2]:
                self.handlers = saved[:i]
                fr = self.block(frame[2], fr)
        self.handlers = saved
        return fr

    def stmt(self, s, fr):
        if isinstance(s, ast.If):
            t, f = self.cond(s.test, fr)
            out = self.block(s.body, t)
            out = out + (self.block(s.orelse, f) if s.orelse else f)
            return out
        if isinstance(s, ast.While):
            head = self.new('loophead', s); self.connect(fr, head)
            t, f = self.cond(s.test, [(head, None)])
            brk = []
            self.loops.append((head, brk, len(self.handlers)))
            ends = self.block(s.body, t)
            self.connect(ends, head)
            self.loops.pop()
            out = self.block(s.orelse, f) if s.orelse else f
            return out + brk
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.new('foriter', s.iter, s); self.connect(fr, it); self.add_exc(it, s.iter)
            head = self.new('forhead', s); self.edge(it, head)
            self.add_exc(head, s.iter)
            brk = []
            self.loops.append((head, brk, len(self.handlers)))
            ends = self.block(s.body, [(head, True)])
            self.connect(ends, head)
            self.loops.pop()
            out = self.block(s.orelse, [(head, False)]) if s.orelse else [(head, False)]
            return out + brk
        if isinstance(s, ast.Return):
            n = self.new('return', s); self.connect(fr, n)
            if s.value is not None: self.add_exc(n, s.value)
            ends = self.run_finallies([(n, None)])
            self.connect(ends, self.exit)
            return []
        if isinstance(s, ast.Raise):
            n = self.new('raise', s); self.connect(fr, n)
            for t in self.exc_targets(): self.edge(n, t, 'exc')
            return []
        if isinstance(s, ast.Break):
            n = self.new('stmt', s); self.connect(fr, n)
            ends = self.run_finallies([(n, None)], self.loops[-1][2])
            self.loops[-1][1].extend(ends)
            return []
        if isinstance(s, ast.Continue):
            n = self.new('stmt', s); self.connect(fr, n)
            ends = self.run_finallies([(n, None)], self.loops[-1][2])
            self.connect(ends, self.loops[-1][0])
            return []
        if isinstance(s, ast.Assert):
            t, f = self.cond(s.test, fr)
            for n, l in f:
                r = self.new('raise', s)
                self.edge(n, r, l)
                for tt in self.exc_targets(): self.edge(r, tt, 'exc')
            return t
        if isinstance(s, (ast.With, ast.AsyncWith)):
            n = self.new('with_enter', s); self.connect(fr, n)
            for it in s.items: self.add_exc(n, it.context_expr)
            ends = self.block(s.body, [(n, None)])
            x = self.new('with_exit', s); self.connect(ends, x)
            return [(x, None)] if ends else []
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            outer = self.handlers
            fin_exc = None
            if s.finalbody:
                fin_exc = self.new('finally', s)   # exceptional copy of the finally body
                self.handlers = self.handlers + [('finally', fin_exc, s.finalbody)]
            hnodes = []
            catchall = False
            for h in s.handlers:
                hn = self.new('handler', h)
                hnodes.append(hn)
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')): catchall = True
            base = self.handlers
            if s.handlers: self.handlers = self.handlers + [('except', hnodes, catchall)]
            ends = self.block(s.body, fr)
            self.handlers = base
            if s.orelse: ends = self.block(s.orelse, ends)
            for h, hn in zip(s.handlers, hnodes):
                ends = ends + self.block(h.body, [(hn, None)])
            self.handlers = outer
            if s.finalbody:
                ends = self.block(s.finalbody, ends)
                e2 = self.block(s.finalbody, [(fin_exc, None)])
                for t in self.exc_targets():
                    for n, l in e2: self.edge(n, t, 'exc' if l is None else l)
            return ends
        if isinstance(s, ast.Match):
            n = self.new('stmt', ast.Expr(value=s.subject, lineno=s.lineno, col_offset=s.col_offset)); self.connect(fr, n)
            out = []; cur = [(n, None)]
            for c in s.cases:
                m = self.new('case', c, s); self.connect(cur, m)
                t = [(m, True)]
                if c.guard is not None: t, gf = self.cond(c.guard, t)
                else: gf = []
                out += self.block(c.body, t)
                wild = isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None
                cur = gf if wild else [(m, False)] + gf
            return out + cur
        # simple statement
        n = self.new('stmt', s); self.connect(fr, n)
        if isinstance(s, ast.Expr) and is_noreturn_expr(s.value):
            for t in self.exc_targets(): self.edge(n, t, 'exc')
            return []
        self.add_exc(n, s)
        # conditional expressions with side effects are treated as straight-line
        return [(n, None)]


def reachable(start, blocked=None):
    seen = {start}; st = [start]
    while st:
        n = st.pop()
        for s, l in n.succ:
            if blocked and blocked(n, s, l): continue
            if s not in seen: seen.add(s); st.append(s)
    return seen


def cfg_of(f):
    if not hasattr(f, '_cfg'): f._cfg = CFG(f.node)
    return f._cfg


def node_exprs(n):
    """the expressions evaluated AT this node (not nested statement bodies)"""
    a = n.ast
    if a is None: return []
    if n.kind in ('test', 'foriter'): return [a]
    if n.kind == 'forhead': return [a.target]
    if n.kind == 'loophead': return []
    if n.kind == 'with_enter':
        return [x for it in a.items for x in ((it.context_expr, it.optional_vars) if it.optional_vars is not None else (it.context_expr,))]
    if n.kind == 'with_exit': return []
    if n.kind in ('handler', 'finally'): return []
    if n.kind == 'case': return []
    if n.kind == 'return': return [a.value] if a.value is not None else []
    if n.kind == 'raise': return [x for x in ((a.exc, a.cause) if isinstance(a, ast.Raise) else (a.msg,)) if x is not None]
    if isinstance(a, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): return list(a.decorator_list)
    return [a]


def node_walk(n):
    for e in node_exprs(n):
        yield from ast.walk(e)


def flow(cfg, init, transfer, branch=None, limit=200000):
    """Forward finite-state dataflow.  state: hashable; transfer(node, state) -> iterable of states (or None = unchanged);
    branch(node, label, state) -> state or None (edge infeasible).  Returns {node: set(states on entry)}."""
    ins = {cfg.entry: set(init)}
    work = [(cfg.entry, s) for s in init]
    count = 0
    while work:
        n, s = work.pop()
        count += 1
        if count > limit: raise RuntimeError('state explosion')
        outs = transfer(n, s)
        if outs is None: outs = (s,)
        for o in outs:
            for t, l in n.succ:
                # on an exceptional edge the statement may not have taken effect: propagate both
                cands = (o,) if l != 'exc' else (o, s)
                for c in cands:
                    c2 = c if branch is None else branch(n, l, c)
                    if c2 is None: continue
                    st = ins.setdefault(t, set())
                    if c2 not in st:
                        st.add(c2); work.append((t, c2))
    return ins
