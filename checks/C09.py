"""C09: database modules are read and written with bound values, a statement and its values always fit the table, and everything written is committed.

Rule, over every sqlite execute/executemany call of the library.  The statement text is evaluated abstractly (constants, concatenation, repetition,
.format/f-strings with constant parts, tables of constants), and the function is walked path by path (branches on the same test taken the same way) keeping the text of
statement variables, the length of value lists, the columns of the tables created and the columns of the last query:
 - the statement text contains nothing but program constants: data goes through '?' parameters;
 - the number of '?' is the number of values given, on every path;
 - INSERT INTO T VALUES(...) has as many values as the table T created by that module has columns; a chapter value is never put in a verse column or the reverse;
 - a table is named plainly (no schema prefix) and the columns a query names exist in the table, where the module itself creates it;
 - a fetched row is unpacked into as many names as the query selects, and a name/position taken from it is one the query selects; chapter and verse are not swapped;
 - after a statement that writes, and after a call that hands the cursor to a helper that writes, every normal path commits on the connection before the function ends and
   before the file is packed into an archive."""
import re
from common import *

RULE = __doc__
ASSUMPTIONS = ['sqlite3 keeps an uncommitted transaction out of the file (Python default isolation level)', 'foreign databases have the tables their format documents; only tables this library itself creates are checked column by column']
WRITES = re.compile(r'\s*(INSERT|UPDATE|DELETE|REPLACE)\b', re.I)     # sqlite3 opens a transaction for these only
CONSTRAINT = re.compile(r'\s*(PRIMARY\s+KEY|UNIQUE|FOREIGN\s+KEY|CHECK|CONSTRAINT)\b', re.I)


# ---- abstract strings: a tuple of parts, 's' text or ('rep', text, lengthname, offset); None = depends on data
def cat(a, b):
    if a is None or b is None: return None
    out = list(a)
    for x in b:
        if out and isinstance(out[-1], str) and isinstance(x, str): out[-1] += x
        else: out.append(x)
    return tuple(out)


def length_of(e):
    """len(X) [+-k] -> (X, k)"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and isinstance(e.args[0], ast.Name): return (e.args[0].id, 0)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
        x = length_of(e.left)
        if x: return (x[0], x[1] + (e.right.value if isinstance(e.op, ast.Add) else -e.right.value))
    return None


class Text:
    def __init__(self, p): self.p = p

    def values(self, e, f, depth=0):
        """constant values (str/tuple/...) e may have, ignoring which; None if any is not constant"""
        if depth > 8: return None
        try: return [ast.literal_eval(e)]
        except Exception: pass
        if isinstance(e, ast.IfExp):
            a, b = self.values(e.body, f, depth+1), self.values(e.orelse, f, depth+1)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Subscript):
            a, i = self.values(e.value, f, depth+1), self.values(e.slice, f, depth+1)
            if a is None: return None
            out = []
            for x in a:
                if not isinstance(x, (tuple, list, dict)): return None
                for k in (i if i is not None else (list(x.keys()) if isinstance(x, dict) else range(len(x)))):
                    try: out.append(x[k])
                    except Exception: pass
            return out
        if isinstance(e, (ast.JoinedStr, ast.BinOp, ast.Call)):
            t = self.text(e, f, {}, depth+1)
            if t is None or any(len(x) > 1 or (x and not isinstance(x[0], str)) for x in t): return None
            return [x[0] if x else '' for x in t]
        defs = None
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in self.p.locals_of(g):
                    if e.id in g.allparams: return None
                    defs = [(v, g) for v in defs_of(g, e.id)]
                    for n in own_nodes(g.node):
                        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id: return None
                    its = [n.iter for n in own_nodes(g.node) if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(n.target))]
                    if its:
                        out = []
                        for it in its:
                            v = self.values(it, g, depth+1)
                            if v is None: return None
                            for x in v:
                                if not isinstance(x, (tuple, list, set)): return None
                                out += list(x)
                        return out
                    break
                g = g.parent
        if defs is None and isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve(e, f)
            if isinstance(r, tuple) and r[0] == 'global': defs = [(v, f) for v in r[1].globals.get(r[2], [])]
            elif isinstance(e, ast.Attribute): defs = [(x, g) for x, g in feeds(self.p, e, f, depth=1)[1:] ]
        if not defs: return None
        out = []
        for v, g in defs:
            x = self.values(v, g, depth+1) if v is not None else None
            if x is None: return None
            out += x
        return out

    def text(self, e, f, env, depth=0):
        """set of abstract strings, or None"""
        if depth > 10: return None
        if isinstance(e, ast.Constant): return {(str(e.value),)} if isinstance(e.value, (str, int)) else None
        if isinstance(e, ast.Name) and e.id in env and isinstance(env[e.id], tuple) and env[e.id][0] == 'text': return {env[e.id][1]} if env[e.id][1] is not None else None
        if isinstance(e, ast.JoinedStr):
            out = {()}
            for v in e.values:
                x = self.text(v.value if isinstance(v, ast.FormattedValue) else v, f, env, depth+1)
                if x is None: return None
                out = {cat(a, b) for a in out for b in x}
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.text(e.left, f, env, depth+1), self.text(e.right, f, env, depth+1)
            return None if a is None or b is None else {cat(x, y) for x in a for y in b}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for s, k in ((e.left, e.right), (e.right, e.left)):
                if isinstance(s, ast.List) and len(s.elts) == 1: s = s.elts[0]
                if isinstance(s, ast.Constant) and isinstance(s.value, str):
                    if isinstance(k, ast.Constant) and isinstance(k.value, int): return {(s.value*k.value,)}
                    ln = length_of(k)
                    return {(('rep', s.value, ln[0] if ln else None, ln[1] if ln else 0),)}
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.text(e.body, f, env, depth+1), self.text(e.orelse, f, env, depth+1)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
            base = self.text(e.func.value, f, env, depth+1)
            if base is None: return None
            args = [self.text(a, f, env, depth+1) for a in e.args]; kws = {k.arg: self.text(k.value, f, env, depth+1) for k in e.keywords}
            out = set()
            for b in base:
                if len(b) != 1 or not isinstance(b[0], str): return None
                cur = {()}; auto = 0
                for lit, name in [(m.group(1), m.group(2)) for m in re.finditer(r'([^{}]*)(?:\{([^{}:!]*)[^{}]*\})?', b[0]) if m.group(0)]:
                    cur = {cat(c, (lit,)) for c in cur}
                    if name is None: continue
                    if name == '': name = str(auto); auto += 1
                    v = (args[int(name)] if int(name) < len(args) else None) if name.isdigit() else kws.get(name)
                    if v is None: return None
                    cur = {cat(c, x) for c in cur for x in v}
                out |= cur
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'join' and isinstance(e.func.value, ast.Constant) and len(e.args) == 1:
            a = e.args[0]
            if isinstance(a, (ast.GeneratorExp, ast.ListComp)) and isinstance(a.elt, ast.Constant) and len(a.generators) == 1 and isinstance(a.generators[0].iter, ast.Name): return {((('rep', str(a.elt.value), a.generators[0].iter.id, 0)),)}
            if isinstance(a, ast.BinOp): return self.text(a, f, env, depth+1)
            vs = self.values(a, f, depth+1)
            if vs is not None and all(isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v) for v in vs): return {(e.func.value.value.join(v),) for v in vs}
            return None
        vs = self.values(e, f, depth+1)
        if vs is None or not all(isinstance(v, (str, int)) for v in vs): return None
        return {(str(v),) for v in vs}


def marks(t):
    """number of '?' in an abstract string: (constant, {lengthname: coefficient}) or None if unknown"""
    k, c = 0, {}
    for x in t:
        if isinstance(x, str): k += x.count('?')
        else:
            q = x[1].count('?')
            if not q: continue
            if x[2] is None: return None
            c[x[2]] = c.get(x[2], 0) + q; k += q*x[3]
    return k, c


def flat(t): return ''.join(x if isinstance(x, str) else x[1] for x in t)


def split_columns(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '(': depth += 1
        if ch == ')': depth -= 1
        if ch == ',' and depth == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [re.split(r'\s+', c.strip())[0].strip('"`[]').lower() for c in out if not CONSTRAINT.match(c)]


def created(s):
    m = re.match(r'\s*CREATE\s+(?:TEMP\s+|TEMPORARY\s+)?TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?(["\w.]+)\s*\((.*)\)\s*;?\s*$', s, re.I | re.S)
    return (m.group(1).strip('"').lower(), tuple(split_columns(m.group(2)))) if m else None


def inserted(s):
    m = re.match(r'\s*(?:INSERT(?:\s+OR\s+\w+)?|REPLACE)\s+INTO\s+(["\w.]+)\s*(?:\(([^)]*)\))?\s*VALUES\s*\((.*)\)\s*;?\s*$', s, re.I | re.S)
    return (m.group(1).strip('"').lower(), tuple(split_columns(m.group(2))) if m.group(2) else None) if m else None


def selected(s):
    m = re.match(r'\s*SELECT\s+(.*?)\s+FROM\s+(["\w.]+)(.*)$', s, re.I | re.S)
    if not m: return None
    cols = [c.strip().split()[-1].strip('"').lower() for c in m.group(1).split(',')]
    return m.group(2).strip('"').lower(), tuple(cols), re.findall(r'(\w+)\s*(?:=|<|>|<=|>=|like)\s*\?', m.group(3), re.I), re.findall(r'(\w+)\s*(?:=|<|>|like)', m.group(3), re.I)


def col_role(c):
    c = c.lower()
    return 'verse' if c.startswith('verse') else 'chapter' if c.startswith('chapter') else None


def name_role(e, f, depth=0):
    """the part of a reference a value is, by the library's own naming (C, V and the elements of tuples of them)"""
    if isinstance(e, ast.Name): return {'C': 'chapter', 'V': 'verse', 'c': 'chapter', 'v': 'verse'}.get(e.id)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'str') and len(e.args) == 1: return name_role(e.args[0], f, depth+1)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and depth < 3:
        base = ast.unparse(e.value); rs = set()
        g = f
        while g is not None:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple) and e.slice.value < len(n.value.elts) and any(ast.unparse(t) == base for t in n.targets): rs.add(name_role(n.value.elts[e.slice.value], f, depth+1))
            g = g.parent
        if len(rs) == 1: return rs.pop()
    return None


def clash(a, b): return a is not None and b is not None and a != b


plain = lambda s: re.sub(r'[^a-z0-9]', '', s.lower())


def misplaced(x, c, columns):
    """the value bears the name of another of the columns"""
    if not isinstance(x, (ast.Name, ast.Attribute)): return False
    k = plain(x.id if isinstance(x, ast.Name) else x.attr)
    return len(k) > 2 and k != plain(c) and any(k == plain(o) for o in columns)


def elements(e, f):
    """the element expressions of a tuple or list display, starred parts opened where their length is known; None if not"""
    if not isinstance(e, (ast.Tuple, ast.List)): return None
    out = []
    for x in e.elts:
        if not isinstance(x, ast.Starred): out.append(x); continue
        base = ast.unparse(x.value); found = []
        g = f
        while g is not None:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Assign) and any(ast.unparse(t) == base for t in n.targets): found.append(n.value)
            g = g.parent
        found = [v for v in found if not (isinstance(v, ast.Constant) and v.value is None)]
        if not found or not all(isinstance(v, ast.Tuple) for v in found) or len({len(v.elts) for v in found}) != 1: return None
        out += [y for y in found[0].elts]
    return out


def scalar(p, e, f, depth=0):
    """certainly one value and not a sequence of values"""
    if depth > 4: return False
    if isinstance(e, ast.Constant): return not isinstance(e.value, tuple)
    if isinstance(e, ast.JoinedStr): return True
    if isinstance(e, ast.Call): return isinstance(e.func, ast.Name) and e.func.id in ('int', 'str', 'len', 'float') and not f.cls is e
    if isinstance(e, ast.Name) and p.is_local(e.id, f) and e.id not in f.allparams:
        ds = defs_of(f, e.id)
        return bool(ds) and all(scalar(p, d, f, depth+1) for d in ds)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        vs = [(v, g) for g in f.module.allfuncs for n in own_nodes(g.node) if isinstance(n, ast.Dict) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and k.value == e.slice.value]
        vs += [(n.value, g) for g in f.module.allfuncs for n in own_nodes(g.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == e.slice.value]
        return bool(vs) and all(isinstance(v, ast.Name) and any(isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and any(isinstance(y, ast.Name) and y.id == v.id for y in n.targets[0].elts) and isinstance(n.value, ast.Name) for n in own_nodes(g.node)) or scalar(p, v, g, depth+1) for v, g in vs)
    return False


DOCUMENTED = {'books', 'commentaries', 'info', 'verses', 'books_all', 'details', 'bible'}


class DB:
    def __init__(self, p, r):
        self.p, self.r, self.T = p, r, Text(p)
        self.helpers = {}

    def sql_calls(self, f):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('execute', 'executemany', 'executescript') and n.args and not [g for g in self.p.callees(n, f, cha=False) if isinstance(g, Func)]: yield n

    def module_schema(self, m):
        """tables the module creates with a constant statement: name -> set of column tuples"""
        if not hasattr(m, '_schema'):
            m._schema = {}
            for f in m.allfuncs:
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'execute' and n.args:
                        for t in self.T.text(n.args[0], f, {}) or ():
                            c = created(flat(t))
                            if c: m._schema.setdefault(c[0], set()).add(c[1])
        return m._schema

    def tables(self, m):
        """the tables that the formats document or the module names in a list of table names"""
        if not hasattr(m, '_tables'):
            m._tables = set(DOCUMENTED)
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.List, ast.Tuple, ast.Dict, ast.Set)): m._tables |= {y.value.lower() for y in ast.iter_child_nodes(n) if isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value.isidentifier()}
        return m._tables

    def writes(self, f, call, depth=0):
        """does the call hand a cursor to a project function that writes with it"""
        out = False
        for g in self.p.callees(call, f, cha=False):
            if not isinstance(g, Func) or g is f: continue
            if g not in self.helpers:
                self.helpers[g] = False
                self.helpers[g] = any(WRITES.match(flat(t)) for n in self.sql_calls(g) for t in self.T.text(n.args[0], g, {}) or ()) or depth < 3 and any(self.writes(g, n, depth+1) for n in own_nodes(g.node) if isinstance(n, ast.Call))
            out |= self.helpers[g]
        return out

    def function(self, f):
        p, r, T = self.p, self.r, self.T
        calls = list(self.sql_calls(f))
        owner = any(isinstance(n, ast.Call) and (lambda x: isinstance(x, tuple) and x[0] == 'ext' and x[1] == 'sqlite3.connect')(p.resolve(n.func, f)) for n in own_nodes(f.node))
        if not calls and not owner: return
        c = cfg_of(f)
        sqlnames = {y.id for n in calls for i, a in enumerate(n.args) if i == 0 or isinstance(a, ast.Name) for y in ast.walk(a) if isinstance(y, ast.Name)}
        # names that feed those texts
        for _ in range(3):
            for nm in list(sqlnames):
                for v in defs_of(f, nm): sqlnames |= {y.id for y in ast.walk(v) if isinstance(y, ast.Name)} if not isinstance(v, ast.Call) else set()
        def relevant(s):
            for x in ast.walk(s):
                if x in calls: return True
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Name) and t.id in sqlnames or isinstance(t, ast.Tuple) and isinstance(x.value, (ast.Name, ast.Call)): return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in sqlnames: return True
            return False
        tests = {}
        for s in own_nodes(f.node):
            if isinstance(s, ast.If) and relevant(s):
                for x in ast.walk(s.test):
                    if isinstance(x, ast.expr): tests[ast.unparse(x)] = tests.get(ast.unparse(x), 0) + 1

        def fetch(e):
            return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('fetchone', 'fetchall', 'fetchmany') and e.func.attr

        def transfer(n, s):
            env, facts = dict(s[0]), dict(s[1])
            for x in node_walk(n):
                if not isinstance(x, ast.Call): continue
                if x in calls: self.statement(f, x, env)
                elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in env and x.func.attr in ('append', 'extend', 'clear', 'pop', 'insert', 'remove'):
                    k = env[x.func.value.id]
                    if k[0] == 'len':
                        d = k[1]
                        if d is not None:
                            if x.func.attr in ('append', 'insert'): d += 1
                            elif x.func.attr in ('pop', 'remove'): d -= 1
                            elif x.func.attr == 'clear': d = 0
                            else: d = d + len(x.args[0].elts) if x.args and isinstance(x.args[0], (ast.List, ast.Tuple)) and not any(isinstance(y, ast.Starred) for y in x.args[0].elts) else None
                        env[x.func.value.id] = ('len', d if d is None or d < 80 else None)
            a = n.ast
            if n.kind == 'stmt' or n.kind not in ('test', 'foriter', 'forhead', 'return', 'raise'):
                if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
                    for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                        if isinstance(t, ast.Name): self.assign(f, env, t.id, a.value, sqlnames, fetch)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            self.unpack(f, env, t, a.value, fetch, n)
                            if isinstance(a.value, (ast.Tuple, ast.List)) and len(a.value.elts) == len(t.elts):
                                for u, w in zip(t.elts, a.value.elts):
                                    if isinstance(u, ast.Name): self.assign(f, env, u.id, w, sqlnames, fetch)
                elif isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name) and a.target.id in env:
                    k = env[a.target.id]
                    if k[0] == 'text':
                        x = T.text(a.value, f, env)
                        env[a.target.id] = ('text', cat(k[1], next(iter(x))) if x and len(x) == 1 else None)
                    elif k[0] == 'len': env[a.target.id] = ('len', k[1] + len(a.value.elts) if k[1] is not None and isinstance(a.value, (ast.List, ast.Tuple)) else None)
            if n.kind == 'forhead':
                q = fetch(n.ast.iter); it = n.ast.iter
                cols = env.get('#query') if q == 'fetchall' or q == 'fetchmany' else env[it.id][1:] if isinstance(it, ast.Name) and env.get(it.id, ('',))[0] == 'rows' else None
                if isinstance(it, ast.Call) and callname(it) == 'enumerate': cols = None
                if cols:
                    if isinstance(n.ast.target, ast.Name): env[n.ast.target.id] = ('row',) + tuple(cols)
                    elif isinstance(n.ast.target, (ast.Tuple, ast.List)): self.check_unpack(f, cols, n.ast.target, n)
            for x in node_walk(n):      # row[...] accesses
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and env.get(x.value.id, ('',))[0] == 'row' and isinstance(x.slice, ast.Constant):
                    cols = env[x.value.id][1:]; k = x.slice.value
                    if '*' in cols[1]: continue
                    self.r.count('row_accesses')
                    if isinstance(k, int) and not -len(cols[1]) <= k < len(cols[1]) or isinstance(k, str) and k.lower() not in cols[1]:
                        self.r.find(f'{f.short}/row-{k}', f.where(x), f'{f.short} takes {k!r} from a row of a query that selects {", ".join(cols[1])}')
            # kill facts about changed names
            changed = set()
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): changed.add(x.id)
            if changed: facts = {k: v for k, v in facts.items() if not (set(re.findall(r'\w+', k)) & changed)}
            return [(frozenset(env.items()), frozenset(facts.items()))]

        def branch(n, l, s):
            if n.kind != 'test' or l not in (True, False): return s
            k = ast.unparse(n.ast)
            if tests.get(k, 0) < 2 or any(isinstance(x, ast.Call) for x in ast.walk(n.ast)): return s
            facts = dict(s[1])
            if k in facts: return s if facts[k] == l else None
            facts[k] = l
            return (s[0], frozenset(facts.items()))
        sqlnames = {x for x in sqlnames if p.is_local(x, f) or x in p.locals_of(f)}
        try: flow(c, [(frozenset(), frozenset())], transfer, branch, limit=60000)
        except RuntimeError: raise AnalysisError(f'C09: too many states in {f.short}')
        if owner: self.commits(f, c, calls)

    def assign(self, f, env, name, v, sqlnames, fetch):
        q = fetch(v)
        if q: env[name] = (('row',) if q == 'fetchone' else ('rows',)) + tuple(env.get('#query', (None, ('*',)))); return
        if name not in sqlnames: env.pop(name, None); return
        if isinstance(v, (ast.List, ast.Tuple)): env[name] = ('len', None if any(isinstance(x, ast.Starred) for x in v.elts) else len(v.elts)); return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple') and not v.args: env[name] = ('len', 0); return
        x = self.T.text(v, f, env)
        env[name] = ('text', next(iter(x)) if x and len(x) == 1 else None) if x is None or len(x) == 1 else ('text', None)
        if x and len(x) > 1: env.pop(name)

    def unpack(self, f, env, t, v, fetch, n):
        cols = None
        if isinstance(v, ast.Name) and env.get(v.id, ('',))[0] == 'row': cols = env[v.id][1:]
        elif fetch(v) == 'fetchone': cols = env.get('#query')
        if cols: self.check_unpack(f, cols, t, n)

    def check_unpack(self, f, cols, t, n):
        names = cols[1]
        if '*' in names or any(isinstance(x, ast.Starred) for x in t.elts): return
        self.r.count('row_unpackings')
        if len(t.elts) != len(names): self.r.find(f'{f.short}/unpack', f.where(n.ast), f'{f.short} unpacks {len(t.elts)} names from a row of {len(names)} columns ({", ".join(names)})'); return
        for x, c in zip(t.elts, names):
            if clash(name_role(x, f), col_role(c)) or misplaced(x, c, names): self.r.find(f'{f.short}/unpack-{c}', f.where(n.ast), f'{f.short} takes column {c} as {ast.unparse(x)}')

    def statement(self, f, call, env):
        r, T, p = self.r, self.T, self.p
        r.count('statements')
        e = call.args[0]
        ts = T.text(e, f, env)
        if ts is None:
            r.find(f'{f.short}/{statement_key(e)}/text', f.where(call), f'{f.short} executes an SQL statement whose text is not made of program constants: {ast.unparse(e)[:80]}'); return
        par = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == 'parameters'), None)
        schema = self.module_schema(f.module)
        many = None
        if call.func.attr == 'executemany' and par is not None:
            for d in (defs_of(f, par.id) if isinstance(par, ast.Name) else [par]):
                if isinstance(d, (ast.ListComp, ast.GeneratorExp)): many = d.elt
                elif isinstance(d, (ast.List, ast.Tuple)) and d.elts: many = d.elts[0]
            if isinstance(par, ast.Name):
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Call) and callname(n) == 'append' and isinstance(n.func.value, ast.Name) and n.func.value.id == par.id and n.args: many = n.args[0]
            par = many
        vals = elements(par, f)
        for t in ts:
            s = flat(t); key = f'{f.short}/{" ".join(s.split())[:50]}'
            where = f.where(call)
            q = marks(t)
            bykey = re.findall(r'(?<![\w:]):([A-Za-z_]\w*)', s)
            if bykey:
                ds = defs_of(f, par.id) if isinstance(par, ast.Name) else [par]
                for d in ds:
                    keys = {k.value: v for k, v in zip(d.keys, d.values) if isinstance(k, ast.Constant)} if isinstance(d, ast.Dict) and None not in d.keys else {k.arg: k.value for k in d.keywords} if isinstance(d, ast.Call) and callname(d) == 'dict' else None
                    if keys is None: continue
                    gone = [k for k in bykey if k not in keys]
                    if gone: r.find(f'{key}/arity', where, f'{f.short}: the statement {s[:60]!r} has no value for {", ".join(gone)}')
                    for cc, k in re.findall(r'(\w+)\s*(?:=|<|>|<=|>=|like)\s*:(\w+)', s, re.I):
                        if k in keys and clash(name_role(keys[k], f), col_role(cc)): r.find(f'{key}/{cc}', where, f'{f.short} looks up column {cc} with {ast.unparse(keys[k])}')
            elif call.func.attr in ('execute', 'executemany') and q is not None:
                given = None
                if par is None: given = (0, {}) if call.func.attr == 'execute' else None
                elif vals is not None: given = (len(vals), {})
                elif (q[0] or q[1]) and scalar(p, par, f): r.find(f'{key}/sequence', where, f'{f.short}: the statement {s[:60]!r} is given the single value {ast.unparse(par)[:40]} instead of a tuple')
                elif isinstance(par, ast.Name):
                    k = env.get(par.id)
                    if q[1].get(par.id): given = (0, {par.id: 1})
                    elif k and k[0] == 'len' and k[1] is not None: given = (k[1], {})
                if given is None: r.count('arity_undecided')
                else:
                    r.count('arities_decided')
                    if given != q: r.find(f'{key}/arity', where, f'{f.short}: the statement {s[:60]!r} has {show(q)} place(s) and is given {show(given)} value(s)')
            c = created(s)
            if c: env['#table:'+c[0]] = c[1]
            i = inserted(s)
            if i:
                tab, cols = i
                have = env.get('#table:'+tab)
                options = {have} if have else schema.get(tab)
                if '.' in tab: r.find(f'{key}/table', where, f'{f.short} inserts into {tab}: no database is attached under that name')
                if options:
                    r.count('inserts_checked')
                    if cols is None:
                        n = q[0] if q and not q[1] else None
                        if q and q[1] and isinstance(par, ast.Name) and env.get(par.id, ('', None))[0] == 'len' and env[par.id][1] is not None: n = q[0] + sum(q[1].values())*env[par.id][1]
                        if q and re.search(r'VALUES\s*\((.*)\)', s, re.I | re.S):
                            lits = len([x for x in split_literal(re.search(r'VALUES\s*\((.*)\)', s, re.I | re.S).group(1)) if '?' not in x])
                            if n is not None and not q[1]: n += lits
                        if n is not None and all(n != len(o) for o in options): r.find(f'{key}/columns', where, f'{f.short} inserts {n} values into table {tab}, which is created with {"/".join(str(len(o)) for o in options)} columns')
                    else:
                        bad = [x for x in cols if all(x not in o for o in options)]
                        if bad: r.find(f'{key}/columns', where, f'{f.short} inserts into column(s) {bad} that table {tab} is not created with')
                    if vals is not None:
                        for o in ([cols] if cols else options):
                            if len(o) == len(vals):
                                for x, cc in zip(vals, o):
                                    if clash(name_role(x, f), col_role(cc)) or misplaced(x, cc, o): r.find(f'{key}/{cc}', where, f'{f.short} puts {ast.unparse(x)} into column {cc} of {tab}')
            sel = selected(s)
            if sel:
                tab, cols, bound, named = sel
                r.count('queries')
                env['#query'] = (tab, cols)
                if '.' in tab: r.find(f'{key}/table', where, f'{f.short} queries table {tab}: no database is attached under that name')
                elif tab not in schema and tab not in self.tables(f.module) and not tab.startswith('sqlite_'): r.find(f'{key}/table', where, f'{f.short} queries table {tab}, which no module of this format has')
                if tab in schema:
                    bad = [x for x in list(cols) + [y.lower() for y in named] if x not in ('*',) and re.fullmatch(r'\w+', x) and all(x not in o for o in schema[tab])]
                    if bad: r.find(f'{key}/columns', where, f'{f.short} queries column(s) {bad} that table {tab} is not created with')
                if vals is not None and len(vals) == len(bound):
                    for x, cc in zip(vals, bound):
                        if clash(name_role(x, f), col_role(cc)) or misplaced(x, cc, bound): r.find(f'{key}/{cc}', where, f'{f.short} looks up column {cc} with {ast.unparse(x)}')

    def commits(self, f, c, calls):
        """writes must be followed by a commit"""
        r, p, T = self.r, self.p, self.T
        def is_write(n):
            for x in node_walk(n):
                if isinstance(x, ast.Call):
                    if x in calls:
                        ts = T.text(x.args[0], f, {})
                        if ts is None:
                            ts = {t for v in ([v for v in defs_of(f, x.args[0].id)] if isinstance(x.args[0], ast.Name) else []) for t in (T.text(v, f, {}) or ())}
                        if any(WRITES.match(flat(t)) for t in ts): return x
                    elif self.writes(f, x): return x
            return None
        used = {n.func.value.id for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('cursor', 'execute', 'executemany', 'executescript') and isinstance(n.func.value, ast.Name)}
        def same(x):
            e = x.func.value if isinstance(x.func, ast.Attribute) else None
            if isinstance(e, ast.Call) and callname(e) == 'connect': return False
            if isinstance(e, ast.Name) and e.id not in used and any(isinstance(d, ast.Call) and callname(d) == 'connect' for d in defs_of(f, e.id)): return False
            return True
        def commit(n): return any(isinstance(x, ast.Call) and callname(x) == 'commit' and same(x) for x in node_walk(n)) or n.kind == 'with_exit' and any('connect' in ast.unparse(it.context_expr) for it in getattr(n.ast, 'items', []))
        def packs(n): return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('write', 'add') and any((lambda q: isinstance(q, tuple) and q[0] == 'ext' and q[1].split('.')[0] in ('zipfile', 'tarfile'))(p.resolve(y.func, f)) for v in (defs_of(f, x.func.value.id) if isinstance(x.func.value, ast.Name) else []) for y in ast.walk(v) if isinstance(y, ast.Call)) for x in node_walk(n))
        if any(isinstance(n, ast.Call) and callname(n) == 'connect' and any(k.arg == 'isolation_level' and isinstance(k.value, ast.Constant) and k.value.value is None for k in n.keywords) for n in own_nodes(f.node)): return
        for n in c.nodes:
            x = is_write(n)
            if x is None: continue
            r.count('writes_owned')
            seen, st = {n}, [n]
            while st:
                m = st.pop()
                if m is not n and commit(m): continue
                if m is c.exit or m is not n and packs(m):
                    r.find(f'{f.short}/{callname(x)}/commit/{statement_key(x.args[0]) if x.args and x in calls else "helper"}', f.where(x), f'{f.short}: what {ast.unparse(x)[:60]} writes is not committed on every path before ' + ('the function ends' if m is c.exit else 'the file is packed')); break
                for s, l in m.succ:
                    if l != 'exc' and s not in seen: seen.add(s); st.append(s)


def split_literal(s):
    return [x for x in s.split(',') if x.strip()]


def show(q): return '+'.join(([str(q[0])] if q[0] or not q[1] else []) + [f'{v}*len({k})' for k, v in q[1].items()])


def statement_key(e): return re.sub(r'\W+', '-', ast.unparse(e))[:30]


def decide(p, r):
    db = DB(p, r)
    for m in p.modules.values():
        if not any('sqlite' in ast.unparse(s) for s in m.tree.body if isinstance(s, (ast.Import, ast.ImportFrom))) and not any(isinstance(n, ast.Import) and any(a.name == 'sqlite3' for a in n.names) for n in ast.walk(m.tree)): continue
        r.count('database_modules')
        for f in m.allfuncs:
            if not f.demo: db.function(f)


def run(p, r, tier):
    decide(p, r)
    r.floor('database_modules', 4); r.floor('statements', 30); r.floor('arities_decided', 25); r.floor('inserts_checked', 8); r.floor('queries', 10); r.floor('writes_owned', 7)


class R9:
    def __init__(self): self.findings = {}
    def find(self, k, w, m): self.findings[k] = m
    def count(self, *a): pass


def _st(src, want):
    def thunk():
        p = Project.from_sources({'BibleOrgSys/x.py': 'import sqlite3, zipfile\n' + src}); r = R9(); decide(p, r)
        return bool(r.findings) == want
    return thunk


W = 'def w(fp, x, C, V, css=None):\n c = sqlite3.connect(fp)\n k = c.cursor()\n'
SELFTESTS = [
    ('committed', _st(W + " k.execute('CREATE TABLE T (Chapter INT, Verse INT)')\n k.execute('INSERT INTO T VALUES(?,?)', (C, V))\n c.commit()\n", False)),
    ('not committed', _st(W + " k.execute('CREATE TABLE T (a INT, b INT)')\n c.commit()\n if x: k.execute('INSERT INTO T VALUES(?,?)', (C, V))\n", True)),
    ('packed first', _st(W + " k.execute('CREATE TABLE T (a INT, b INT)')\n k.execute('INSERT INTO T VALUES(?,?)', (C, V))\n z = zipfile.ZipFile(fp+'.z', 'w')\n z.write(fp)\n c.commit()\n", True)),
    ('interpolated', _st(W + " k.execute('SELECT a FROM T WHERE n={}'.format(x))\n", True)),
    ('one value', _st(W + " b = int(x)\n k.execute('CREATE TABLE T (a INT)')\n k.execute('SELECT a FROM T WHERE a=?', (b))\n", True)),
    ('unknown table', _st(W + " k.execute('SELECT a FROM TT WHERE a=?', (x,))\n", True)),
    ('named places', _st(W + " k.execute('CREATE TABLE T (Chapter INT, Verse INT)')\n k.execute('SELECT Verse FROM T WHERE Chapter=:c', {'c':V})\n", True)),
    ('named places, right', _st(W + " k.execute('CREATE TABLE T (Chapter INT, Verse INT)')\n k.execute('SELECT Verse FROM T WHERE Chapter=:c', {'c':C})\n", False)),
    ('column names', _st(W + " longName, shortName = x\n k.execute('CREATE TABLE T (short_name TEXT, long_name TEXT)')\n k.execute('INSERT INTO T VALUES(?,?)', (longName, shortName))\n c.commit()\n", True)),
    ('many', _st(W + " k.execute('CREATE TABLE T (a INT, b INT)')\n k.executemany('INSERT INTO T VALUES(?,?)', [(y,C,V) for y in x])\n c.commit()\n", True)),
    ('other connection', _st(W + " k.execute('CREATE TABLE T (a INT)')\n k.execute('INSERT INTO T VALUES(?)', (x,))\n sqlite3.connect(fp).commit()\n", True)),
    ('constant tables', _st("class A:\n def __init__(self, x): self.t = ('A','B') if x else ('C','D')\n def w(self, fp):\n  k = sqlite3.connect(fp).cursor()\n  k.execute('select * from {}'.format(self.t[0]))\n", False)),
    ('too few values', _st(W + " k.execute('CREATE TABLE T (a INT, b INT)')\n k.execute('INSERT INTO T VALUES(?,?)', (C,))\n c.commit()\n", True)),
    ('too few columns', _st(W + " k.execute('CREATE TABLE T (a INT, b INT, PRIMARY KEY(a,b))')\n k.execute('INSERT INTO T VALUES(?,?,?)', (C,V,x))\n c.commit()\n", True)),
    ('swapped', _st(W + " k.execute('CREATE TABLE T (Chapter INT, Verse INT)')\n k.execute('INSERT INTO T VALUES(?,?)', (V, C))\n c.commit()\n", True)),
    ('optional column kept in step', _st(W + " s='CREATE TABLE D (a TEXT'\n if css: s += ', b TEXT'\n s += ')'\n k.execute(s)\n v=[]\n v.append(1)\n if css: v.append(css)\n q='INSERT INTO D VALUES(' + '?,'*(len(v)-1) + '?)'\n k.execute(q, v)\n c.commit()\n", False)),
    ('optional column out of step', _st(W + " s='CREATE TABLE D (a TEXT'\n if css: s += ', b TEXT'\n s += ')'\n k.execute(s)\n v=[]\n v.append(1)\n if x: v.append(css)\n q='INSERT INTO D VALUES(' + '?,'*(len(v)-1) + '?)'\n k.execute(q, v)\n c.commit()\n", True)),
    ('schema-qualified', _st(W + " k.execute('select a from M.T where b=?', (x,))\n", True)),
    ('row unpack', _st(W + " k.execute('select chapter,verse,text from T')\n for row in k.fetchall():\n  V, C, t = row\n", True)),
    ('row index', _st(W + " k.execute('select chapter from T')\n row = k.fetchone()\n return row[1]\n", True)),
    ('lookup swapped', _st(W + " k.execute('select text from T where Chapter=? and Verse=?', (V, C))\n", True)),
]
