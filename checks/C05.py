"""C05: no exporter drops a line of the Bible without a word: what it has no rule for is written or reported, verse text is written.

Rule: an exporter's dispatch is a loop over internal Bible entries that takes entry.getMarker() apart by comparisons.
 - take the path through one iteration on which EVERY comparison of the marker fails and the text is not empty: before the next
   iteration the text must be used (written, appended, accumulated, returned, handed to a helper) or the marker recorded or
   reported (collection of markers, logging, raise);
 - with the marker equal to the internal verse-text marker 'v~' or the continuation marker 'p~', and some text, the text is used on
   every path (a flag that every verse number line sets is taken as set, an inner loop as run at least once);
 - every path through a book (an iteration of the loop over the books, or the helper that is given the book) comes to the dispatch,
   or reports or records the book;
 - the loop over the lines goes through all of them and is not left early without a report;
 - a string in which text is gathered from line to line (and any that takes it over) is never assigned over, nor left at the end,
   while it may hold text that has not been handed on;
 - a collection of unhandled markers or books that is added to is mentioned by a logging call of the exporter, guarded by nothing
   but the collection itself not being empty.
Helpers that are given the entry, or the marker, are followed."""
import re
from common import *

RULE = __doc__
ASSUMPTIONS = ['comparisons are ==, in, startswith and the like on the marker; a collection of ignored markers is the documented way to ignore a marker deliberately']
GETTERS = {'getText', 'getCleanText', 'getFullText', 'getAdjustedText', 'getOriginalText', 'getExtras'}
NEUTRAL = {'len', 'int', 'str', 'isinstance', 'type', 'repr', 'bool', 'ord'}
# not exporters of a whole text: they pick single facts out of the lines
NOT_EXPORTS = {'SwordBibleModule.test': 'demonstration of the module reader'}


def is_exporter(f):
    """methods of the writer class and module-level create*/compose* functions of the format modules, with everything nested"""
    g = f
    while g.parent is not None: g = g.parent
    if g.cls is not None: return g.cls.name == 'BibleWriter' or any(b.endswith('BibleWriter') and g.cls.module.name.endswith('BibleWriter') for b in [g.cls.name])
    return g.module.name.endswith('BibleWriter') or '.Formats.' in g.module.name and not re.search('FileCheck|test|[dD]emo', g.name)


class Dispatch:
    def __init__(self, p): self.p = p; self.rep = Reporter(p); self.memo = {}; self.begun = set()

    # ------------------------------------------------ names
    def names(self, f, body, entries):
        """(marker names, text names) bound from the entries anywhere in body"""
        marks, texts = set(), set()
        nodes = [x for b in body for x in ast.walk(b)]
        for _ in range(4):
            before = len(marks) + len(texts)
            for x in nodes:
                pairs = []
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and len(t.elts) == len(x.value.elts): pairs += zip(t.elts, x.value.elts)
                        else: pairs.append((t, x.value))
                elif isinstance(x, ast.AnnAssign) and x.value is not None: pairs.append((x.target, x.value))
                elif isinstance(x, ast.NamedExpr): pairs.append((x.target, x.value))
                for t, v in pairs:
                    if isinstance(t, (ast.Tuple, ast.List)) and any(self.is_text(y, entries, texts) for y in ast.walk(v)): texts |= {y.id for y in t.elts if isinstance(y, ast.Name)} - entries
                    if not isinstance(t, ast.Name): continue
                    if self.is_mark(v, entries, marks): marks.add(t.id)
                    elif any(self.is_text(y, entries, texts) for y in ast.walk(v)) and t.id not in entries: texts.add(t.id)
            if len(marks) + len(texts) == before: break
        return marks, texts - marks

    def is_mark(self, e, entries, marks):
        if isinstance(e, ast.Name): return e.id in marks
        return isinstance(e, ast.Call) and callname(e) == 'getMarker' and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in entries

    def is_text(self, e, entries, texts):
        if isinstance(e, ast.Name): return e.id in texts
        return isinstance(e, ast.Call) and callname(e) in GETTERS and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in entries

    # ------------------------------------------------ constants
    def strings(self, e, f, depth=0):
        if depth > 8: return None
        if isinstance(e, ast.Constant): return {e.value} if isinstance(e.value, str) else set()
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for x in e.elts:
                if isinstance(x, ast.Starred): s = self.strings(x.value, f, depth+1)
                else: s = self.strings(x, f, depth+1)
                if s is None: return None
                out |= s
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
            a, b = self.strings(e.left, f, depth+1), self.strings(e.right, f, depth+1)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Call) and callname(e) in ('set', 'frozenset', 'tuple', 'list', 'sorted') and len(e.args) == 1: return self.strings(e.args[0], f, depth+1)
        r = self.p.resolve(e, f) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(r, tuple) and r[0] == 'global':
            vals = [v for v in r[1].globals.get(r[2], []) if v is not None]
            if len(vals) != 1: return None
            fake = next(iter(r[1].funcs.values()), f)
            return self.strings(vals[0], fake, depth+1)
        return None

    # ------------------------------------------------ tests
    def forced(self, t, f, entries, marks, texts, value):
        """truth of an atomic test; value None: a marker nobody has heard of, with text; else that marker"""
        sub = lambda e: self.is_mark(e, entries, marks)
        if sub(t): return True
        if self.is_text(t, entries, texts) and (value is None or value in ('v~', 'p~')): return True
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r, o = t.left, t.comparators[0], t.ops[0]
            neg = isinstance(o, (ast.NotEq, ast.IsNot, ast.NotIn))
            if not isinstance(o, (ast.Eq, ast.Is, ast.In)) and not neg: return None
            member = isinstance(o, (ast.In, ast.NotIn))
            part = lambda e: isinstance(e, ast.Subscript) and sub(e.value)
            if value is None:
                if sub(l) or sub(r) or part(l) or part(r): return neg
                return None
            if sub(l):
                s = self.strings(r, f)
                if s is None or not member and len(s) != 1: return None
                return (value in s) != neg
            if sub(r):
                s = self.strings(l, f)
                if s is None or len(s) != 1: return None
                c = next(iter(s))
                return ((c in value) if member else c == value) != neg
            return None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and sub(t.func.value):
            if t.func.attr in ('startswith', 'endswith', 'isdigit'):
                if value is None: return False
                s = self.strings(t.args[0], f) if t.args else None
                if s is None: return None
                return any(getattr(value, t.func.attr)(x) for x in s)
        return None

    # ------------------------------------------------ what a node does with the line
    def does(self, n, f, entries, marks, texts, value, depth):
        """'text' (used), 'mark' (recorded or reported), or None"""
        istext = lambda e: any(self.is_text(y, entries, texts) for y in ast.walk(e))
        ismark = lambda e: any(self.is_mark(y, entries, marks) for y in ast.walk(e))
        if n.kind == 'raise': return 'mark'
        if n.kind in ('test', 'foriter', 'forhead', 'loophead', 'case'): return None
        out = None
        for e in node_exprs(n):
            st = e
            if isinstance(st, ast.Expr): st = st.value
            if isinstance(st, (ast.Yield, ast.YieldFrom)) and istext(st): return 'text'
            if isinstance(st, ast.Call):
                if is_log_call(st, f, self.p): out = out or 'mark'; continue
                if callname(st) in PRINTERS: continue
                r = self.followed(st, f, entries, marks, texts, value, depth)
                if r is not None:
                    if r == 'text': return 'text'
                    if r == 'mark': out = out or 'mark'
                    continue
                if any(istext(a) for a in st.args) or any(istext(k.value) for k in st.keywords): return 'text'
                if any(ismark(a) for a in st.args) or any(ismark(k.value) for k in st.keywords): out = out or 'mark'
                if self.rep.call_reports(st, f): out = out or 'mark'
        a = n.ast
        if isinstance(a, ast.AugAssign):
            if istext(a.value): return 'text'
            if ismark(a.value): out = out or 'mark'
        elif isinstance(a, ast.Assign):
            tn = {t.id for t in a.targets if isinstance(t, ast.Name)}
            if istext(a.value) and (any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in a.targets) or any(isinstance(y, ast.Name) and y.id in tn - texts for y in ast.walk(a.value))): return 'text'
            if istext(a.value) and any(isinstance(y, ast.Name) and y.id in tn for y in ast.walk(a.value)) and self.accumulates(a, tn, entries, texts): return 'text'
            if isinstance(a.value, ast.Call):
                r = self.followed(a.value, f, entries, marks, texts, value, depth)
                if r in ('text', 'mark'): out = out or r
        if n.kind == 'return' and isinstance(a, ast.Return) and a.value is not None and istext(a.value): return 'text'
        return out

    def accumulates(self, a, tn, entries, texts):
        """x = x + text, where x is not simply the text being rewritten"""
        if isinstance(a.value, ast.BinOp) and isinstance(a.value.op, ast.Add) or isinstance(a.value, ast.JoinedStr):
            other = [y for y in ast.walk(a.value) if self.is_text(y, entries, texts) and not (isinstance(y, ast.Name) and y.id in tn)]
            return bool(other)
        return False

    def followed(self, call, f, entries, marks, texts, value, depth):
        """the verdict of a project helper that is given the entry or the marker; None if it is given neither"""
        if depth > 3: return None
        for g in self.p.callees(call, f, cha=False):
            if not isinstance(g, Func) or not is_exporter(g): continue
            am = arg_map(call, g)
            e2 = {k for k, a in am.items() if isinstance(a, ast.Name) and a.id in entries}
            m2 = {k for k, a in am.items() if self.is_mark(a, entries, marks)}
            t2 = {k for k, a in am.items() if any(self.is_text(y, entries, texts) for y in ast.walk(a))}
            if not e2 and not m2: continue
            key = (g, tuple(sorted(e2)), tuple(sorted(m2)), tuple(sorted(t2)), value)
            if key in self.memo: return self.memo[key]
            self.memo[key] = 'mark'
            mm, tt = self.names(g, g.node.body, e2)
            c = cfg_of(g)
            tests = any(isinstance(x, (ast.Compare, ast.Call)) and self.forced(x, g, e2, mm | m2, tt | t2, value) is not None for x in own_nodes(g.node))
            if not tests and not e2: self.memo[key] = None; return None
            if value is None:
                esc = self.escapes(g, [s for s, l in c.entry.succ], {c.exit}, e2, mm | m2, tt | t2, None, depth+1)
                res = 'drop' if esc else 'text'
            else: res = 'text' if self.can_use(g, [s for s, l in c.entry.succ], set(), e2, mm | m2, tt | t2, value, depth+1) else 'drop'
            self.memo[key] = res
            return res
        return None

    # ------------------------------------------------ paths
    def walk(self, f, starts, stops, entries, marks, texts, value, depth, want):
        seen = set(); st = [(s, ()) for s in starts]; outer = {x.ast for x in stops}
        while st:
            n, path = st.pop()
            if n in seen: continue
            seen.add(n)
            if n in stops:
                if want in ('escape', 'lose'): return path + (n,)
                continue
            if n.kind == 'excexit': continue
            d = self.does(n, f, entries, marks, texts, value, depth)
            if want == 'escape' and d is not None: continue
            if want == 'lose' and (d == 'text' or n.kind == 'raise'): continue
            if want == 'text' and d == 'text': return path + (n,)
            for s, l in n.succ:
                if l == 'exc': continue
                if value is not None and l is False and n.kind == 'forhead' and depth == 0 and n.ast not in outer: continue    # inner loops run at least once
                if n.kind == 'test':
                    w = self.forced(n.ast, f, entries, marks, texts, value)
                    if w is None and isinstance(n.ast, ast.Name) and n.ast.id in self.begun: w = True
                    if w is not None and l is not w: continue
                if n.kind == 'case' and self.is_mark(n.info.subject, entries, marks):
                    if value is None:
                        if l is True and not (isinstance(n.ast.pattern, ast.MatchAs) and n.ast.pattern.pattern is None): continue
                    else:
                        pats = n.ast.pattern.patterns if isinstance(n.ast.pattern, ast.MatchOr) else [n.ast.pattern]
                        vals = [x.value.value for x in pats if isinstance(x, ast.MatchValue) and isinstance(x.value, ast.Constant)]
                        if len(vals) == len(pats) and n.ast.guard is None and l is not (value in vals): continue
                st.append((s, path + (n,) if n.kind in ('test', 'return', 'case') else path))
        return None

    def escapes(self, f, starts, stops, entries, marks, texts, value, depth=0): return self.walk(f, starts, stops, entries, marks, texts, value, depth, 'escape')
    def can_use(self, f, starts, stops, entries, marks, texts, value, depth=0): return self.walk(f, starts, stops, entries, marks, texts, value, depth, 'text') is not None

    def loses(self, f, loop, starts, stops, entries, marks, texts, value):
        # 'a verse has begun': names only ever set to a true constant on the way through a verse number line
        sets = {}
        for b in loop.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name): sets.setdefault(t.id, []).append(x)
        self.begun = set()
        for name, xs in sets.items():
            if all(isinstance(x.value, ast.Constant) and x.value.value is True for x in xs) and not self.walk_to(f, starts, stops, entries, marks, texts, 'v', xs): self.begun.add(name)
        try: return self.walk(f, starts, stops, entries, marks, texts, value, 0, 'lose')
        finally: self.begun = set()

    def walk_to(self, f, starts, stops, entries, marks, texts, value, avoid):
        """can a stop be reached without passing one of the statements in avoid"""
        seen = set(); st = list(starts)
        while st:
            n = st.pop()
            if n in seen or n.ast in avoid or n.kind == 'excexit': continue
            seen.add(n)
            if n in stops: return True
            for s, l in n.succ:
                if l == 'exc': continue
                if n.kind == 'test':
                    w = self.forced(n.ast, f, entries, marks, texts, value)
                    if w is None and self.is_text(n.ast, entries, texts): w = True
                    if w is not None and l is not w: continue
                st.append(s)
        return False

    def loops(self, f):
        for n in own_nodes(f.node):
            if not isinstance(n, ast.For): continue
            tv = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            entries = set()
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and callname(x) == 'getMarker' and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in tv: entries.add(x.func.value.id)
            handed = False
            if not entries:      # the entry may be handed on whole
                for b in n.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Call):
                            for g in self.p.callees(x, f, cha=False):
                                if isinstance(g, Func) and is_exporter(g):
                                    for k, a in arg_map(x, g).items():
                                        if isinstance(a, ast.Name) and a.id in tv and any(isinstance(y, ast.Call) and callname(y) == 'getMarker' and isinstance(y.func.value, ast.Name) and y.func.value.id == k for y in own_nodes(g.node)):
                                            entries.add(a.id)
            if entries: yield n, entries

    def comparisons(self, f, body, entries, marks, texts, depth=0):
        k = 0
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Compare, ast.Call)) and not self.is_mark(x, entries, marks) and self.forced(x, f, entries, marks, set(), None) is not None: k += 1
                elif isinstance(x, ast.Match) and self.is_mark(x.subject, entries, marks): k += len(x.cases)
                elif isinstance(x, ast.Call) and depth < 2:
                    for g in self.p.callees(x, f, cha=False):
                        if not isinstance(g, Func) or g is f: continue
                        am = arg_map(x, g)
                        e2 = {q for q, a in am.items() if isinstance(a, ast.Name) and a.id in entries}
                        m2 = {q for q, a in am.items() if self.is_mark(a, entries, marks)}
                        if e2 or m2:
                            mm, tt = self.names(g, g.node.body, e2)
                            k += self.comparisons(g, g.node.body, e2, mm | m2, tt, depth+1)
        return k


def partial(p, f, loop):
    work, seen = [loop.iter], set()
    while work:
        e = work.pop()
        for x in ast.walk(e):
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and not (x.slice.lower is x.slice.upper is x.slice.step is None): return ast.unparse(x)
            if isinstance(x, ast.Call) and callname(x) in ('islice', 'filter'): return ast.unparse(x)
            if isinstance(x, (ast.ListComp, ast.GeneratorExp)) and any(g.ifs for g in x.generators): return ast.unparse(x)
            if isinstance(x, ast.Name) and x.id not in seen:
                seen.add(x.id)
                if x.id in f.params:
                    for g, call in callers(p, f):
                        a = arg_map(call, f).get(x.id)
                        if a is not None and isinstance(a, (ast.Subscript, ast.Call, ast.ListComp, ast.GeneratorExp)): work.append(a)
                else: work += [v for v in defs_of(f, x.id) if isinstance(v, ast.expr)]
    return None


def callers(p, f):
    if not hasattr(p, '_c05_callers'):
        p._c05_callers = {}
        for g in p.functions():
            if not is_exporter(g): continue
            for x in own_nodes(g.node):
                if isinstance(x, ast.Call):
                    for h in p.callees(x, g, cha=False):
                        if isinstance(h, Func): p._c05_callers.setdefault(h, []).append((g, x))
    return p._c05_callers.get(f, [])


def leaves(d, f, loop):
    c = cfg_of(f)
    head = next((h for h in c.nodes if h.kind == 'forhead' and h.ast is loop), None)
    if head is None: return []
    inside = {id(y) for b in loop.body for y in ast.walk(b)}
    out = []
    seen, st = set(), [(s, head) for s, l in head.succ if l is True]
    while st:
        n, prev = st.pop()
        if n is head or n.kind == 'excexit' or n in seen: continue
        if n is c.exit or n.ast is not None and id(n.ast) not in inside: out.append(prev.ast); continue
        seen.add(n)
        if n.kind == 'raise' or d.rep.node_reports(n, f): continue
        st += [(s, n) for s, l in n.succ if l != 'exc']
    return out


def pairs(x):
    """(target, value) of an assignment, tuples taken apart"""
    for t in [x.target] if isinstance(x, ast.AugAssign) else x.targets:
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and len(t.elts) == len(x.value.elts): yield from zip(t.elts, x.value.elts)
        else: yield t, x.value


def gathered(d, f, loop, entries, marks, texts):
    """strings in which the loop gathers the text of verses from line to line"""
    c = cfg_of(f)
    head = next((h for h in c.nodes if h.kind == 'forhead' and h.ast is loop), None)
    if head is None: return set()
    out = {}
    for value in ('v~', 'p~'):
        seen, st = set(), [s for s, l in head.succ if l is True]
        while st:
            n = st.pop()
            if n in seen or n is head or n.kind == 'excexit': continue
            seen.add(n)
            for s, l in n.succ:
                if l == 'exc': continue
                if n.kind == 'test':
                    w = d.forced(n.ast, f, entries, marks, texts, value)
                    if w is not None and l is not w: continue
                st.append(s)
        own = set()         # names that hold text of this very line
        for _ in range(4):
            for n in seen:
                a = n.ast
                if n.kind in ('test', 'forhead', 'foriter') or not isinstance(a, (ast.Assign, ast.AugAssign)): continue
                for t in [a.target] if isinstance(a, ast.AugAssign) else a.targets:
                    ts = t.elts if isinstance(t, ast.Tuple) else [t]
                    vs = a.value.elts if isinstance(t, ast.Tuple) and isinstance(a.value, ast.Tuple) and len(a.value.elts) == len(ts) else [a.value] * len(ts)
                    for x, v in zip(ts, vs):
                        if isinstance(x, ast.Name) and any(d.is_text(y, entries, own - {x.id}) for y in ast.walk(v)):
                            own.add(x.id)
                            if isinstance(t, ast.Name) or v is not a.value: out.setdefault(x.id, set()).add(value)
    return {t for t in set(out) - entries - marks if live(c, head, t)}


def live(c, head, name):
    """what the name holds when the next line is taken can still be read"""
    seen, st = set(), [s for s, l in head.succ if l is True]
    while st:
        n = st.pop()
        if n in seen or n.kind == 'excexit': continue
        seen.add(n)
        a = n.ast
        if isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name) and a.target.id == name: return True
        if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in node_walk(n)): return True
        if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in node_walk(n)): continue
        st += [s for s, l in n.succ if l != 'exc']
    return False


def keeps(e, name):
    """the value of the name becomes part of the value of the expression"""
    if isinstance(e, ast.Name): return e.id == name
    if isinstance(e, ast.IfExp): return keeps(e.body, name) or keeps(e.orelse, name)
    if isinstance(e, ast.Compare): return False
    if isinstance(e, ast.Call) and callname(e) in NEUTRAL - {'str', 'repr'}: return False
    return any(keeps(x, name) for x in ast.iter_child_nodes(e) if isinstance(x, (ast.expr, ast.keyword)))


def empty_when(t, name):
    """the outcome of the test on which the string is known to be empty (None: neither)"""
    me = lambda e: isinstance(e, ast.Name) and e.id == name
    if me(t): return False
    if isinstance(t, ast.Call) and callname(t) in ('len', 'bool') and len(t.args) == 1 and me(t.args[0]): return False
    if isinstance(t, ast.Call) and callname(t) == 'strip' and isinstance(t.func, ast.Attribute) and me(t.func.value): return False
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r, o = t.left, t.comparators[0], t.ops[0]
        k = r.value if isinstance(r, ast.Constant) else 'no'
        if me(l) and k in ('', None): return {ast.Eq: True, ast.Is: True, ast.NotEq: False, ast.IsNot: False}.get(type(o))
        if isinstance(l, ast.Call) and callname(l) == 'len' and len(l.args) == 1 and me(l.args[0]):
            if k == 0: return {ast.Eq: True, ast.LtE: True, ast.NotEq: False, ast.Gt: False}.get(type(o))
            if k == 1: return {ast.Lt: True, ast.GtE: False}.get(type(o))
    return None


def unwritten(d, f, name, entries, texts):
    """statements at which text gathered in the string is forgotten (assigned over, or left at the end) without having been written"""
    c = cfg_of(f)
    istext = lambda e: any(d.is_text(y, entries, texts - {name}) for y in ast.walk(e))
    has = lambda e: keeps(e, name)
    local = name in f.params or not any(isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names for x in own_nodes(f.node))
    readers = {g.name for g in f.nested.values() if any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load) for y in ast.walk(g.node))} if f.nested else set()
    def used(n):
        """handed to something that can write it, stored or returned"""
        if n.kind in ('test', 'forhead', 'loophead'): return False
        if n.kind == 'return': return n.ast.value is not None and has(n.ast.value)
        for e in node_exprs(n):
            for x in ast.walk(e):
                if isinstance(x, ast.Call):
                    if is_log_call(x, f, d.p) or callname(x) in PRINTERS or callname(x) in NEUTRAL: continue
                    if isinstance(x.func, ast.Name) and x.func.id in readers: return True
                    if isinstance(x.func, ast.Attribute) and has(x.func.value) and not x.args and not x.keywords: continue
                    if not (any(has(a) for a in x.args) or any(has(k.value) for k in x.keywords)): continue
                    a = n.ast
                    if isinstance(a, ast.Assign) and all(isinstance(t, ast.Name) and t.id == name for t in a.targets): continue      # rewritten in place
                    return True
                if isinstance(x, (ast.Yield, ast.YieldFrom)) and x.value is not None and has(x.value): return True
        a = n.ast
        if isinstance(a, ast.Assign) and any(has(v) and not (isinstance(t, ast.Name) and t.id == name) for t, v in pairs(a)): return True
        if isinstance(a, ast.AugAssign) and has(a.value) and not (isinstance(a.target, ast.Name) and a.target.id == name): return True
        return False
    bad = []
    pending = {c.entry: False}
    work = [c.entry]; seen_bad = set()
    while work:
        n = work.pop()
        st = pending[n]
        a = n.ast
        out = st
        if n.kind not in ('test', 'forhead', 'foriter', 'loophead', 'excexit'):
            if used(n): out = False
            if isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name) and a.target.id == name:
                if istext(a.value): out = True
            elif isinstance(a, ast.Assign):
                for t, v in pairs(a):
                    if not isinstance(t, ast.Name) or t.id != name: continue
                    if has(v): out = out or istext(v)
                    else:
                        if out and n not in seen_bad: seen_bad.add(n); bad.append(('overwritten', a))
                        out = istext(v)
        for s, l in n.succ:
            if l == 'exc' or s.kind == 'excexit': continue
            o = out
            if n.kind == 'test' and empty_when(a, name) == l: o = False
            if s is c.exit and o and local and n not in seen_bad and n.kind != 'raise':
                seen_bad.add(n); bad.append(('unwritten', a))
            if s not in pending or o and not pending[s]:
                pending[s] = pending.get(s, False) or o; work.append(s)
    return bad


def decide(p, r, funcs):
    d = Dispatch(p)
    for f in funcs:
        for loop, entries in d.loops(f):
            marks, texts = d.names(f, loop.body, entries)
            k = d.comparisons(f, loop.body, entries, marks, texts)
            hands = not marks
            if k < 4 or not texts and not hands: r.count('small_loops'); continue
            part = partial(p, f, loop)
            if part: r.find(f'{f.short}/part', f.where(loop), f'{f.short} goes through only a part of the lines (`{part}`)')
            for at in leaves(d, f, loop): r.find(f'{f.short}/left', f.where(at), f'{f.short} can leave the loop over the lines before the last one without reporting that')
            names = gathered(d, f, loop, entries, marks, texts)
            for _ in range(3):       # and those that take over what was gathered
                for x in own_nodes(f.node):
                    if isinstance(x, (ast.Assign, ast.AugAssign)):
                        for t, v in pairs(x):
                            if isinstance(t, ast.Name) and t.id not in names and not (isinstance(x, ast.Assign) and isinstance(v, ast.Call)) and any(keeps(v, y) for y in names): names.add(t.id)
            for name in sorted(names):
                r.count('gathering_strings')
                for how, at in unwritten(d, f, name, entries, texts | names):
                    r.find(f'{f.short}/{name}/{how}', f.where(at) if at is not None else f.where(), f'in {f.short} text gathered in {name} can be ' + ('assigned over' if how == 'overwritten' else 'left unwritten at the end'))
            c = cfg_of(f)
            for head in [h for h in c.nodes if h.kind == 'forhead' and h.ast is loop]:
                r.count('dispatch_loops'); r.count('marker_comparisons', k)
                r.sample(f'{f.where(loop)} {f.short}')
                starts = [s for s, l in head.succ if l is True]
                stops = {head, c.exit} | {s for s, l in head.succ if l is False}
                esc = d.escapes(f, starts, stops, entries, marks, texts, None)
                if esc:
                    ln = [getattr(q.ast, 'lineno', None) for q in esc]
                    r.find(f'{f.short}/dropped', f.where(loop), f'in {f.short} a line with a marker it has no rule for can vanish: neither written nor reported (path lines {[x for x in ln if x][-6:]})')
                if not d.can_use(f, starts, stops, entries, marks, texts, 'v~'):
                    r.find(f'{f.short}/verse-text', f.where(loop), f"{f.short} never uses the text of verse-text lines (marker 'v~')")
                elif (path := d.loses(f, loop, starts, stops, entries, marks, texts, 'v~')):
                    r.find(f'{f.short}/verse-text-lost', f.where(loop), f"in {f.short} the text of a verse-text line (marker 'v~') can be lost (path lines {[getattr(q.ast, 'lineno', 0) for q in path][-6:]})")
                if not d.can_use(f, starts, stops, entries, marks, texts, 'p~'):
                    r.find(f'{f.short}/continuation-text', f.where(loop), f"{f.short} never uses the text of verse continuation lines (marker 'p~')")
                elif (path := d.loses(f, loop, starts, stops, entries, marks, texts, 'p~')):
                    r.find(f'{f.short}/continuation-text-lost', f.where(loop), f"in {f.short} the text of a verse continuation line (marker 'p~') can be lost (path lines {[getattr(q.ast, 'lineno', 0) for q in path][-6:]})")
    books(p, r, d, funcs)
    # collections of what could not be handled
    tops = {}
    for f in funcs:
        g = f
        while g.parent is not None: g = g.parent
        tops.setdefault(g, []).append(f)
    for top, fs in tops.items():
        added = {}
        for f in fs:
            for x in own_nodes(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('add', 'append', 'update', 'extend') and isinstance(x.func.value, ast.Name) and re.match('unhandled', x.func.value.id, re.I):
                    added.setdefault(x.func.value.id, (f, x))
        for name, (f, x) in sorted(added.items()):
            if name in top.allparams: r.count('collections_of_the_caller'); continue
            r.count('unhandled_collections')
            if not any(reported(d, g, name) for g in fs):
                r.find(f'{top.short}/{name}', f.where(x), f'{top.short} collects {name} but no log message ever mentions them')


def books(p, r, d, funcs):
    per = {}
    for f in funcs:
        for loop, entries in d.loops(f):
            marks, texts = d.names(f, loop.body, entries)
            if d.comparisons(f, loop.body, entries, marks, texts) >= 4: per.setdefault(f, set()).add(loop)
    writers = set(per)       # functions that come to a dispatch
    for _ in range(3):
        for f in funcs:
            if f in writers: continue
            for x in own_nodes(f.node):
                if isinstance(x, ast.Call) and any(g in writers for g in p.callees(x, f, cha=False) if isinstance(g, Func)) and 'bookdata' in ' '.join(f.allparams).lower().replace('_', '').replace('bkdata', 'bookdata').replace('bookobject', 'bookdata').replace('bkobject', 'bookdata'): writers.add(f)
    def comes(n, f):
        if n.kind == 'forhead' and n.ast in per.get(f, ()): return True
        return any(isinstance(x, ast.Call) and any(g in writers for g in p.callees(x, f, cha=False) if isinstance(g, Func)) for x in node_walk(n)) if n.kind not in ('foriter', 'forhead', 'loophead') or n.kind == 'foriter' else False
    def records(n, f, names):
        if d.rep.node_reports(n, f): return True
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add') and any(isinstance(y, ast.Name) and y.id in names for a in x.args for y in ast.walk(a)) for x in node_walk(n))
    def skips(f, starts, stops, names):
        seen = set(); st = [(s, ()) for s in starts]
        while st:
            n, path = st.pop()
            if n in seen or n.kind == 'excexit': continue
            seen.add(n)
            if n in stops: return path + (n,)
            if records(n, f, names): continue
            failing = comes(n, f)
            for s, l in n.succ:
                if failing and s.kind != 'handler' or l == 'exc' and s.kind != 'handler': continue
                st.append((s, path + (n,) if n.kind in ('test', 'return') else path))
        return None
    for f in funcs:
        c = cfg_of(f)
        for h in c.nodes:
            if h.kind != 'forhead' or h.ast in per.get(f, ()): continue
            if 'books' not in ast.unparse(h.ast.iter) and not (isinstance(h.ast.iter, ast.Name) and h.ast.iter.id == 'self'): continue
            body = {y for b in h.ast.body for y in ast.walk(b)}
            if not any(n.ast in body and comes(n, f) for n in c.nodes if n.ast is not None): continue
            r.count('book_loops')
            names = {y.id for y in ast.walk(h.ast.target) if isinstance(y, ast.Name)}
            starts = [s for s, l in h.succ if l is True]
            done = accounted(d, f)
            if done: esc = skips(f, starts, {n for n in c.nodes if n.ast is not None and n.kind not in ('forhead', 'test') and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add') and isinstance(x.func.value, ast.Name) and x.func.value.id in done for x in node_walk(n))}, set())
            else: esc = skips(f, starts, {h, c.exit}, names)
            if esc: r.find(f'{f.short}/book-dropped', f.where(h.ast), f'in {f.short} a book can be passed over without being written or reported (path lines {[getattr(q.ast, "lineno", 0) for q in esc][-6:]})')
        if f in per and any(x in ('BBB', 'bookObject', 'bookData', 'bkData', 'bkObject', 'BibleObject') for x in f.params) and f.name not in ('createEasyWorshipBible',):
            r.count('book_writers')
            esc = skips(f, [s for s, l in c.entry.succ], {c.exit}, set(f.params))
            if esc: r.find(f'{f.short}/book-not-written', f.where(), f'{f.short} can return without having gone through the lines of the book or reported why (path lines {[getattr(q.ast, "lineno", 0) for q in esc][-6:]})')


def accounted(d, f):
    """names of collections of handled books whose complement is reported at the end"""
    out = set()
    for x in own_nodes(f.node):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.NotIn) and isinstance(x.comparators[0], ast.Name):
            st = x
            for a in ancestors(x):
                st = a
                if isinstance(a, (ast.For, ast.Assign)): break
                if a is f.node: break
            if isinstance(st, ast.Assign): us = [t.id for t in st.targets if isinstance(t, ast.Name)]
            elif isinstance(st, ast.For): us = [y.func.value.id for y in ast.walk(st) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('append', 'add') and isinstance(y.func.value, ast.Name)]
            else: us = []
            if any(reported(d, f, u) for u in us): out.add(x.comparators[0].id)
    return out


def reported(d, f, name):
    for x in own_nodes(f.node):
        if not isinstance(x, ast.Call): continue
        hit = is_log_call(x, f, d.p) and any(isinstance(y, ast.Name) and y.id == name for a in x.args + [k.value for k in x.keywords] for y in ast.walk(a))
        if not hit and callname(x) not in PRINTERS:
            for g in d.p.callees(x, f, cha=False):
                if isinstance(g, Func):
                    am = arg_map(x, g)
                    for k, a in am.items():
                        if isinstance(a, ast.Name) and a.id == name and d.rep is not None and reported(d, g, k): hit = True
        if not hit: continue
        child, ok = x, True
        for anc in ancestors(x):
            if anc is f.node: break
            if isinstance(anc, ast.If):
                pos = any(y is child for b in anc.body for y in ast.walk(b)) or child in anc.body
                names = {y.id for y in ast.walk(anc.test) if isinstance(y, ast.Name)} - {'len'}
                if not (pos and names == {name}): ok = False
            elif isinstance(anc, (ast.ExceptHandler,)): ok = False
            child = anc
        if ok: return True
    return False


def run(p, r, tier):
    funcs = [f for f in p.functions() if is_exporter(f) and f.short not in NOT_EXPORTS]
    r.count('exporter_functions', len(funcs))
    decide(p, r, funcs)
    r.floor('dispatch_loops', 20); r.floor('marker_comparisons', 350); r.floor('unhandled_collections', 18); r.floor('book_loops', 16); r.floor('book_writers', 10)


T = '''
import logging
class BibleWriter:
    def toX(self):
        unhandledMarkers, ignoredMarkers = set(), set()
        def notes(text, extras): return text + str(extras)
        def writeBook(xw, BBB, bookData):
            started = False
            for entry in bookData._processedLines:
                marker, text = entry.getMarker(), entry.getAdjustedText()
                if marker in ('id', 'h'): ignoredMarkers.add(marker)
                elif marker == 'c': xw.writeLineOpen('c', text)
                elif marker == 'v':
                    started = True
                    xw.writeLineOpen('v', text)
                elif marker in ('v~', 'p~'):
                    %s
                elif marker in ('s1', 's2'): xw.writeLineText(text)
                else:
                    %s
        for BBB, bookData in self.books.items():
            %s
            writeBook(self, BBB, bookData)
        if %s: logging.warning(f'unhandled {unhandledMarkers}')
'''
T2 = '''
import logging
def createX(self):
    unhandledMarkers = set()
    def emit(xw, marker, text):
        if marker == 'c': xw.write(text)
        elif marker == 'v': xw.write(text)
        elif marker == 'id': xw.write(text)
        elif marker in ('v~', 'p~'): xw.write(text)
        else: %s
    for BBB, bookData in self.books.items():
        for entry in bookData._processedLines:
            m = entry.getMarker()
            t = entry.getText()
            if m == 'b': continue
            emit(self, m, t)
    if len(unhandledMarkers) > 0: logging.error('unhandled %%s', unhandledMarkers)
'''


def _st(src, want, where='BibleOrgSys/Formats/XBible.py'):
    def thunk():
        p = Project.from_sources({where: src}); r = Report5()
        decide(p, r, list(p.functions()))
        return bool(r.findings) == want
    return thunk


class Report5:
    def __init__(self): self.findings = {}; self.counts = {}
    def find(self, k, w, m): self.findings[k] = m
    def count(self, *a): pass
    def sample(self, s): pass


T3 = '''
import logging
class BibleWriter:
    def toX(self):
        ignoredMarkers = set()
        for BBB, bookData in self.books.items():
            lines = bookData._processedLines
            with open(BBB, 'wt', encoding='utf-8') as out:
                buf = ''
                for entry in lines:
                    marker, text = entry.getMarker(), entry.getCleanText()
                    if marker in ('id', 'h'): ignoredMarkers.add(marker)
                    elif marker == 'c':
                        if buf: out.write(buf); buf = ''
                        C = text
                    elif marker == 'v':
                        if buf: out.write(buf); buf = ''
                        out.write(C + text)
                    elif text: buf += (' ' if buf else '') + text
                if len(buf) > 0: out.write(buf)
'''
W = 'BibleOrgSys/BibleWriter.py'
OK4 = ("if text: xw.writeLineText(text)", 'unhandledMarkers.add(marker)', 'pass', 'unhandledMarkers')
SELFTESTS = [
    ('conforming', _st(T % OK4, False, W)),
    ('begun flag', _st(T % (('if started: xw.writeLineText(text)',) + OK4[1:]), False, W)),
    ('log in else', _st(T % (OK4[0], 'logging.error(text)', 'pass', 'unhandledMarkers'), False, W)),
    ('else drops', _st(T % (OK4[0], 'pass', 'pass', 'unhandledMarkers'), True, W)),
    ('verse text lost on a path', _st(T % (("if len(text) > 3: xw.writeLineText(text)",) + OK4[1:]), True, W)),
    ('continuation never written', _st(T % (("if marker == 'v~': xw.writeLineText(text)",) + OK4[1:]), True, W)),
    ('book skipped', _st(T % (OK4[0], OK4[1], "if BBB == 'GLS': continue", 'unhandledMarkers'), True, W)),
    ('book skipped with a word', _st(T % (OK4[0], OK4[1], "if BBB == 'GLS': logging.error(BBB); continue", 'unhandledMarkers'), False, W)),
    ('collection reported under another condition', _st(T % (OK4[0], OK4[1], 'pass', 'self.debug'), True, W)),
    ('helper records', _st(T2 % 'unhandledMarkers.add(marker)', False)),
    ('gathers', _st(T3, False, W)),
    ('gathers, forgets the last', _st(T3.replace('if len(buf) > 0: out.write(buf)', 'pass'), True, W)),
    ('gathers, forgets at a chapter', _st(T3.replace("if buf: out.write(buf); buf = ''\n                        C", "buf = ''\n                        C"), True, W)),
    ('gathers, keeps only the last line', _st(T3.replace("buf += (", "buf = ("), True, W)),
    ('gathers in an f-string', _st(T3.replace("buf += (' ' if buf else '') + text", "buf = f'{buf} {text}'"), False, W)),
    ('leaves the loop', _st(T3.replace("if marker in ('id', 'h'): ignoredMarkers.add(marker)", "if marker in ('id', 'h'): break"), True, W)),
    ('skips the first lines', _st(T3.replace('in lines:', 'in lines[2:]:'), True, W)),
    ('helper drops', _st(T2 % 'pass', True)),
]
