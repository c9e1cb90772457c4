"""C01: no XML attribute and no XML child element is ever dropped without a word.

Rule: wherever the code dispatches on the name of an XML attribute (a loop over element.items()/attrib/keys()) or on the tag
of a child element (a loop whose variable's .tag is compared), take the path on which EVERY comparison of that name fails.
On every such path, before the next iteration, there must be a diagnostic (logging call, error-list entry, raise, or a
helper all of whose paths report), or the name must be kept (stored as a key / the element handed on whole to another
function of the project, which is then responsible for it).
And every element that a loop over children recognises is looked into on every path before the next iteration: its
attributes (a loop over them, checkXMLNoAttributes, the attributes kept whole) and its children (a loop over them,
find/findall/iter, checkXMLNoSubelements, the element kept whole), or it is handed to a function that does so on every
one of its own paths, or a diagnostic is given. The same for an element passed to a function that no caller looks into."""
from common import *

RULE = __doc__
ASSUMPTIONS = ['a default path that hands the whole element (or the attribute name) on to another project function leaves the report to that function, whose own dispatch is checked in turn',
               'conversion (second-pass) loops over files that the validating pass has already walked are exempt, by name, in SECOND_PASS']

# second passes over trees already validated and reported on by an earlier pass of the same class
SECOND_PASS = {
    ('BibleBooksNamesConverter.__str__', 'element'): 'statistics for __str__; the tree was walked by _validateSystem',
    ('BibleBooksNamesConverter.importDataToPython', 'element'): 'second pass; the tree was walked by _validateSystem',
    ('BibleReferencesLinksConverter.importDataToPython', 'subelement'): 'second pass; the tree was walked by __validate',
}


def names_in(e): return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def xml_vars(f):
    """expressions (as source text) used as XML elements in f: x.tag/.tail/.attrib/.text+.tail, or given to a checkXML* helper"""
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ('tag', 'tail', 'attrib'): out.add(ast.unparse(n.value))
        elif isinstance(n, ast.Call):
            if callname(n).startswith('checkXMLNo') and n.args: out.add(ast.unparse(n.args[0]))
    return out


def xml_names(p):
    """{(function, name)} of the variables that hold XML elements, also where nothing in the same function shows it:
       children of an element, arguments of functions that take one and the other way round"""
    xml = set(); fs = list(p.functions())
    def owner(f, name):
        g = f
        while isinstance(g, Func):
            if p.is_local(name, g) or name in g.allparams: return g
            g = g.parent
        return None
    def put(f, e):
        if isinstance(e, ast.Name) and owner(f, e.id) is not None and e.id != 'self' and (owner(f, e.id), e.id) not in xml: xml.add((owner(f, e.id), e.id)); return True
        return False
    def is_xml(f, e):
        if isinstance(e, ast.Name): return (owner(f, e.id), e.id) in xml
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if e.func.attr == 'getroot': return True
            return e.func.attr in ('find', 'findall', 'iter', 'iterfind', 'getchildren') and is_xml(f, e.func.value)
        return False
    calls, loops, sets = [], [], []
    for f in fs:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and n.attr in ('tag', 'tail') and isinstance(n.ctx, ast.Load): put(f, n.value)
            elif isinstance(n, ast.Call):
                if callname(n).startswith('checkXMLNo') and n.args: put(f, n.args[0])
                elif any(isinstance(a, ast.Name) for a in n.args): calls.append((f, n))
            elif isinstance(n, ast.For): loops.append((f, n))
            elif isinstance(n, ast.Assign): sets.append((f, n))
    known = {}
    def links(f, n):
        if id(n) not in known:
            known[id(n)] = [(g, prm, a) for g in p.callees(n, f, cha=False) if isinstance(g, Func) for prm, a in arg_map(n, g).items() if isinstance(a, ast.Name)]
        return known[id(n)]
    go = True
    while go:
        go = False
        for f, n in loops:
            if is_xml(f, n.iter) and put(f, n.target): go = True
            elif isinstance(n.iter, ast.Call) and callname(n.iter) == 'enumerate' and n.iter.args and is_xml(f, n.iter.args[0]) and isinstance(n.target, ast.Tuple) and put(f, n.target.elts[-1]): go = True
        for f, n in sets:
            if is_xml(f, n.value) and any([put(f, t) for t in n.targets]): go = True
        for f, n in calls:
            for g, prm, a in links(f, n):
                if is_xml(f, a) and (g, prm) not in xml and prm != 'self' and any(isinstance(x, ast.Call) and callname(x) in ('items', 'keys') and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == prm for x in ast.walk(g.node)): xml.add((g, prm)); go = True
    return xml, owner


def loop_base(it):
    """element expression whose attributes a loop iterates over, or None"""
    while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('sorted', 'list', 'tuple', 'enumerate', 'iter', 'set', 'reversed') and it.args:
        it = it.args[0]
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys') and not it.args:
        b = it.func.value
        if isinstance(b, ast.Attribute) and b.attr == 'attrib': return b.value, True
        return b, False
    if isinstance(it, ast.Attribute) and it.attr == 'attrib': return it.value, True
    return None, False


class Rule:
    def __init__(self, p):
        self.p = p; self.rep = Reporter(p); self.memo = {}

    def default_path_escapes(self, f, starts, stops, is_subject, var_names, depth=0):
        """Is there a path from `starts` to one of `stops` on which every comparison of the subject fails and nothing is reported/kept?
           returns the offending node's line path or None"""
        p = self.p
        seen = set(); st = [(s, ()) for s in starts]
        while st:
            n, path = st.pop()
            if n in seen: continue
            seen.add(n)
            if n in stops: return path + (n,)
            if n.kind == 'excexit': continue
            if self.rep.node_reports(n, f): continue
            if self.keeps(n, f, is_subject, var_names, depth): continue
            for s, l in n.succ:
                if l == 'exc': continue
                if n.kind == 'test':
                    want = self.forced(n.ast, is_subject)
                    if want is not None and l is not want: continue
                if n.kind == 'case' and is_subject(n.info.subject):
                    if l is True and not self.wild(n.ast.pattern): continue
                st.append((s, path + (n,) if n.kind in ('test', 'return') else path))
        return None

    def wild(self, pat):
        return isinstance(pat, ast.MatchAs) and pat.pattern is None

    def forced(self, t, is_subject):
        """truth value of an atomic test when the subject matches no known name; None if the test is not about the subject"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = t.ops[0]
            l, r = t.left, t.comparators[0]
            if is_subject(l) or is_subject(r):
                if is_subject(l) and isinstance(op, (ast.In, ast.NotIn)):
                    # membership in a growing collection of the function itself is not dispatch
                    if isinstance(r, (ast.Tuple, ast.List, ast.Set, ast.Dict, ast.Constant, ast.BinOp)) or self.constlike(r) or self.registry(r):
                        return isinstance(op, ast.NotIn)
                    return None
                if isinstance(op, (ast.Eq, ast.Is)): return False
                if isinstance(op, (ast.NotEq, ast.IsNot)): return True
        return None

    def constlike(self, e):
        d = dotted(e)
        return d is not None and (d.split('.')[-1].isupper() or d.split('.')[-1][0].isupper())

    def registry(self, e):
        """self.X or self.X[i], with self.X only ever assigned literal tuples/lists"""
        if isinstance(e, ast.Subscript): e = e.value
        if not (isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self'): return False
        if not hasattr(self, 'selfassign'):
            self.selfassign = {}
            for f in self.p.functions():
                if f.cls is None: continue
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            ts, vs = (t.elts, n.value.elts) if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) else ([t], [n.value])
                            for tt, vv in zip(ts, vs):
                                if isinstance(tt, ast.Attribute) and isinstance(tt.value, ast.Name) and tt.value.id == 'self':
                                    self.selfassign.setdefault((f.module.name, tt.attr), []).append(vv)
        for anc in ancestors(e):
            if isinstance(anc, ast.ClassDef) and hasattr(anc, '_cls'):
                vals = self.selfassign.get((anc._cls.module.name, e.attr), [])
                return bool(vals) and all(isinstance(v, (ast.Tuple, ast.List)) and v.elts or isinstance(v, ast.Tuple) for v in vals)
        return False

    def keeps(self, n, f, is_subject, var_names, depth):
        """name stored as a key / element handed on to another project function that deals with names itself"""
        for x in node_walk(n):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and any(is_subject(y) for y in ast.walk(x.slice)): return True
            if isinstance(x, ast.Call):
                if callname(x) in ('append', 'add', 'insert', 'setdefault', 'put') and isinstance(x.func, ast.Attribute) and \
                   any(is_subject(y) for a in x.args for y in ast.walk(a)): return True
                if callname(x).startswith('checkXML') or callname(x) in PRINTERS: continue
                for g in self.p.callees(x, f, cha=False):
                    if not isinstance(g, Func) or g.module.name.endswith('BibleOrgSysGlobals'): continue
                    am = arg_map(x, g)
                    for prm, a in am.items():
                        if (isinstance(a, ast.Name) and a.id in var_names) or is_subject(a):
                            if is_subject(a) and depth < 3:
                                if self.param_default_ok(g, prm, depth+1): return True
                            elif isinstance(a, ast.Name): return True
        return False

    def param_default_ok(self, g, prm, depth):
        """with the name passed as parameter prm of g: the no-match path of g reports or keeps it"""
        key = (g, prm)
        if key in self.memo: return self.memo[key]
        self.memo[key] = False
        c = cfg_of(g)
        sub = lambda e: isinstance(e, ast.Name) and e.id == prm
        has = any(isinstance(x, ast.Compare) and any(sub(y) for y in [x.left] + x.comparators) for x in own_nodes(g.node))
        ok = self.default_path_escapes(g, [s for s, l in c.entry.succ], {c.exit}, sub, set(), depth) is None
        self.memo[key] = ok
        return ok

    def run(self, r):
        p = self.p
        xml, owner = xml_names(p)
        for f in p.functions():
            if not f.module.rel.startswith(('BibleOrgSys/Formats', 'BibleOrgSys/Internals', 'BibleOrgSys/InputOutput', 'BibleOrgSys/Reference',
                                            'BibleOrgSys/OriginalLanguages', 'BibleOrgSys/Online', 'BibleOrgSys/Misc', 'BibleOrgSys/Self')): continue
            fors = [n for n in own_nodes(f.node) if isinstance(n, ast.For)]
            if not fors: continue
            xv = None
            c = None
            for n in fors:
                # --- attributes
                b, sure = loop_base(n.iter)
                if b is not None:
                    if xv is None: xv = xml_vars(f)
                    if sure or ast.unparse(b) in xv or isinstance(b, ast.Name) and (owner(f, b.id), b.id) in xml:
                        t = n.target
                        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and isinstance(t, ast.Tuple): t = t.elts[-1]
                        a = t.elts[0] if isinstance(t, ast.Tuple) else t
                        if isinstance(a, ast.Name): self.instance(f, n, a.id, None, ast.unparse(b), r, 'attribute')
                        continue
                # --- child elements
                tv = names_in(n.target)
                aliases = set()
                used = False
                for x in ast.walk(n):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr == 'tag' and isinstance(x.value.value, ast.Name) and x.value.value.id in tv:
                        aliases |= {y.id for y in x.targets if isinstance(y, ast.Name)}
                for v in sorted(tv):
                    self.instance(f, n, None, v, v, r, 'element', aliases)

    def instance(self, f, loop, name, elem, base, r, kind, aliases=frozenset()):
        if kind == 'attribute':
            sub = lambda e: isinstance(e, ast.Name) and e.id == name
            vn = set()
        else:
            sub = lambda e: (isinstance(e, ast.Attribute) and e.attr == 'tag' and isinstance(e.value, ast.Name) and e.value.id == elem) or \
                            (isinstance(e, ast.Name) and e.id in aliases)
            vn = {elem}
        disp = 0
        for x in ast.walk(loop):
            if isinstance(x, ast.Compare) and self.forced(x, sub) is not None: disp += 1
            elif isinstance(x, ast.Match) and sub(x.subject): disp += len(x.cases)
            elif kind == 'attribute' and isinstance(x, ast.Call) and callname(x) not in PRINTERS:
                if any(sub(a) for a in x.args) and any(isinstance(g, Func) for g in self.p.callees(x, f, cha=False)) and not is_log_call(x, f, self.p): disp += 1
        if not disp: return
        c = cfg_of(f)
        heads = [h for h in c.nodes if h.kind == 'forhead' and h.ast is loop]
        if not heads: r.count('unreachable_loops'); return
        r.count(f'{kind}_dispatch_loops'); r.count('name_comparisons', disp)
        if (f.short, elem or base) in SECOND_PASS: r.count('second_pass_exempt'); return
        for head in heads:
            starts = [s for s, l in head.succ if l is True]
            outs = {s for s, l in head.succ if l is False}
            # `break` leaves the loop: its target is the loop exit, too
            stops = {head, c.exit} | outs
            path = self.default_path_escapes(f, starts, stops, sub, vn)
            if path is not None:
                via = ' -> '.join(f'line {getattr(x.ast,"lineno","?")}' for x in path[:-1][-6:])
                r.find(f'{f.short}/{kind} of {base}', f.where(loop),
                       f'an unrecognised XML {kind} of {base} can pass through this loop in {f.short} without any diagnostic (path {via or "straight through"})')
                break
        else:
            r.sample(f'{f.where(loop)} {f.short}: {kind} names of {base}, {disp} comparisons, default path reports')


class Account:
    """are the attributes and the children of an element looked at?"""
    NOLOOK = {'len', 'str', 'repr', 'type', 'isinstance', 'bool', 'id', 'print'}
    def __init__(self, p):
        self.p = p; self.rep = Reporter(p); self.memo = {}
        self.xml, self.owner = xml_names(p)

    def node(self, n, f, v, what):
        p = self.p
        for x in node_walk(n):
            if isinstance(x, ast.Call):
                cn = callname(x)
                given = [a for a in list(x.args)+[k.value for k in x.keywords] if any(isinstance(y, ast.Name) and y.id == v for y in ([a] if not isinstance(a, (ast.Tuple, ast.List)) else a.elts))]
                if cn.startswith('checkXMLNo'):
                    if given and (cn == 'checkXMLNoAttributes' and what == 'attributes' or cn == 'checkXMLNoSubelements' and what == 'children'): return True
                    continue
                if given and cn not in PRINTERS and cn not in self.NOLOOK and not is_log_call(x, f, p):
                    gs = [g for g in p.callees(x, f, cha=False) if isinstance(g, Func)]
                    if not gs: return True
                    for g in gs:
                        for prm, a in arg_map(x, g).items():
                            if any(a is y for y in given) and self.param(g, prm, what): return True
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == v:
                    if what == 'attributes' and cn in ('items', 'keys'): return True
                    if what == 'children' and cn in ('find', 'findall', 'iter', 'iterfind', 'getchildren', 'itertext', 'findtext'): return True
            if what == 'attributes' and isinstance(x, ast.Attribute) and x.attr == 'attrib' and isinstance(x.value, ast.Name) and x.value.id == v: return True
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and what == 'children' and any(isinstance(g.iter, ast.Name) and g.iter.id == v for g in x.generators): return True
            if isinstance(x, ast.Yield) and isinstance(x.value, ast.Name) and x.value.id == v: return True
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == v and what == 'children': return True
        if n.kind in ('foriter', 'forhead') and what == 'children':
            it = n.ast.iter if n.kind == 'forhead' else n.ast
            if any(isinstance(y, ast.Name) and y.id == v for y in ([it] if isinstance(it, ast.Name) else it.args if isinstance(it, ast.Call) else [])): return True
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, ast.Assign) and isinstance(a.value, ast.Name) and a.value.id == v: return True
        if n.kind == 'return' and isinstance(a, ast.Return) and isinstance(a.value, ast.Name) and a.value.id == v: return True
        return False

    def tags(self, e, v):
        """(the tags that a test names, the answer that says the tag is one of them)"""
        if not (isinstance(e, ast.Compare) and len(e.ops) == 1): return None
        l, op, r = e.left, e.ops[0], e.comparators[0]
        is_tag = lambda x: isinstance(x, ast.Attribute) and x.attr == 'tag' and isinstance(x.value, ast.Name) and x.value.id == v
        if not is_tag(l): l, r = r, l
        if not is_tag(l): return None
        yes = True if isinstance(op, (ast.Eq, ast.In)) else False if isinstance(op, (ast.NotEq, ast.NotIn)) else None
        if yes is None: return None
        if isinstance(op, (ast.In, ast.NotIn)):
            if not isinstance(r, (ast.Tuple, ast.List, ast.Set)): return None
            return frozenset(ast.unparse(x) for x in r.elts), yes
        return frozenset([ast.unparse(r)]), yes

    def walk(self, f, starts, stop, v, what):
        """{tag: path} of the paths to `stop` on which the element is not looked into"""
        c = cfg_of(f); seen = set(); par = {}; out = {}
        st = [((s, None, frozenset()), None) for s in starts]
        while st:
            s, fr = st.pop()
            if s in seen: continue
            seen.add(s); par[s] = fr
            n, only, no = s
            if n is stop:
                path = []
                while fr is not None: path.append(fr[0]); fr = par[fr]
                out.setdefault('any' if only is None else ' '.join(sorted(only)), path[::-1])
                continue
            if n in (c.exit, c.excexit) or n.kind == 'raise' or self.rep.node_reports(n, f) or self.node(n, f, v, what): continue
            t3 = self.tags(n.ast, v) if n.kind == 'test' else None
            for t, l in n.succ:
                if l == 'exc': continue
                # an element that is known to have no children or attributes
                if n.kind == 'test' and what == 'children' and self.counts(n.ast, v) is l: continue
                if n.kind == 'test' and self.comment(n.ast, v) is l and l is not None: continue
                o, x = only, no
                if t3 is not None and l in (True, False):
                    names, yes = t3
                    if l is yes:
                        o = names-no if only is None else only & names
                        if not o: continue
                    else:
                        if only is not None:
                            o = only-names
                            if not o: continue
                        else: x = no | names
                st.append(((t, o, x), s))
        return out

    def counts(self, e, v):
        """the answer that says that the element has no children"""
        is_len = lambda x: isinstance(x, ast.Call) and callname(x) == 'len' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == v
        if is_len(e): return False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and is_len(e.left) and isinstance(e.comparators[0], ast.Constant):
            k = e.comparators[0].value
            if isinstance(e.ops[0], ast.Eq) and k == 0 or isinstance(e.ops[0], ast.Lt) and k == 1: return True
            if isinstance(e.ops[0], (ast.NotEq, ast.Gt)) and k == 0 or isinstance(e.ops[0], ast.GtE) and k == 1: return False
        return 'no'

    def comment(self, e, v):
        """is it an XML comment?"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.Eq)) and isinstance(e.left, ast.Attribute) and e.left.attr == 'tag' and isinstance(e.left.value, ast.Name) and e.left.value.id == v:
            d = dotted(e.comparators[0])
            if d is not None and d.split('.')[-1] in ('Comment', 'ProcessingInstruction'): return True
        return None

    def param(self, g, prm, what):
        """does g look into the element given as prm on every normal path?"""
        k = (g, prm, what)
        if k not in self.memo:
            self.memo[k] = True    # recursion: elements inside elements
            c = cfg_of(g)
            self.memo[k] = self.walk(g, [s for s, l in c.entry.succ], c.exit, prm, what) == {}
        return self.memo[k]

    def loops(self, f, all=False):
        for loop in own_nodes(f.node):
            if not isinstance(loop, ast.For): continue
            t = loop.target
            if isinstance(t, ast.Tuple) and isinstance(loop.iter, ast.Call) and callname(loop.iter) == 'enumerate': t = t.elts[-1]
            if not isinstance(t, ast.Name) or (self.owner(f, t.id), t.id) not in self.xml: continue
            if not all and not any(isinstance(x, ast.Attribute) and x.attr in ('text', 'tag', 'tail') and isinstance(x.value, ast.Name) and x.value.id == t.id for y in loop.body for x in ast.walk(y)): continue
            yield loop, t.id

    def run(self, r):
        p = self.p; found = {}; fine = {}
        for f in p.functions():
            if f.module.rel.endswith('BibleOrgSysGlobals.py'): continue   # the helpers themselves
            for loop, v in self.loops(f):
                c = cfg_of(f)
                for h in [h for h in c.nodes if h.kind == 'forhead' and h.ast is loop][:1]:
                    for what in ('attributes', 'children'):
                        r.count(f'elements_looked_into_for_{what}')
                        for tag, path in self.walk(f, [t for t, l in h.succ if l is True], h, v, what).items():
                            found.setdefault(f, []).append((loop, v, what, tag, path))
                fine.setdefault(f, 0)
        for f, fs in found.items():
            if self.second_pass(f, found, fine): r.count('second_pass_loops', len(fs)); continue
            for loop, v, what, tag, path in fs:
                base = ast.unparse(loop.iter); inside = self.inside(loop)
                r.find(f'{f.short}/{what} of each {v} in {base}{" inside " + inside if inside else ""}: {tag}', f.where(loop), f'the {what} of an element {v} (tag {tag}) of {base} in {f.short} can go unseen (via line {" -> ".join(str(getattr(q.ast, "lineno", "?")) for q in path[-6:])})')
        # the parameters that no loop above accounts for
        called = {}
        for f in p.functions():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    for g in p.callees(n, f, cha=False):
                        if isinstance(g, Func): called.setdefault(g, []).append((f, n))
        for g in p.functions():
            if g.module.rel.endswith('BibleOrgSysGlobals.py'): continue
            for prm in g.allparams:
                if (g, prm) not in self.xml: continue
                kids = any(isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == prm for n in own_nodes(g.node))
                if not kids: continue
                for what in ('attributes', 'children'):
                    r.count(f'arguments_looked_into_for_{what}')
                    if self.param(g, prm, what): continue
                    # does each caller look into it itself?
                    cs = called.get(g, [])
                    if cs and all(any(isinstance(a, ast.Name) and q == prm and self.caller(f, n, a.id, what) for q, a in arg_map(n, g).items()) for f, n in cs): continue
                    c = cfg_of(g)
                    for tag, path in self.walk(g, [s for s, l in c.entry.succ], c.exit, prm, what).items():
                        r.find(f'{g.short}/{what} of {prm}: {tag}', g.where(g.node), f'the {what} of the element {prm} given to {g.short} can go unseen (via line {" -> ".join(str(getattr(q.ast, "lineno", "?")) for q in path[-6:])})')

    def caller(self, f, call, v, what):
        """does f look into v in another statement?"""
        c = cfg_of(f)
        return any(self.node(n, f, v, what) for n in c.nodes if not any(x is call for x in node_walk(n)))

    def inside(self, loop):
        """the tags of the elements that the loop is about, from the outside in"""
        out = []; child = loop
        for a in ancestors(loop):
            if isinstance(a, ast.If) and isinstance(a.test, ast.Compare) and len(a.test.ops) == 1 and isinstance(a.test.left, ast.Attribute) and a.test.left.attr == 'tag' and any(child is x for x in a.body):
                out.append(ast.unparse(a.test.comparators[0]))
            if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)): break
            child = a
        return ' '.join(out[::-1])

    def trees(self, f):
        """the attributes of the object whose trees f goes through, itself or as arguments"""
        out = set()
        for loop, _ in self.loops(f, True):
            b = loop.iter.args[0] if isinstance(loop.iter, ast.Call) and callname(loop.iter) == 'enumerate' and loop.iter.args else loop.iter
            while isinstance(b, ast.Subscript): b = b.value
            if isinstance(b, ast.Attribute): out.add(ast.unparse(b))
        for g in self.p.functions():
            if f.cls is None or g.cls is not f.cls: continue
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call) and f in self.p.callees(n, g, cha=False):
                    for a in n.args:
                        while isinstance(a, ast.Subscript): a = a.value
                        if isinstance(a, ast.Attribute): out.add(ast.unparse(a))
                        elif isinstance(a, ast.Name):   # put into the object by the same function
                            for m in own_nodes(g.node):
                                if isinstance(m, ast.Assign) and isinstance(m.value, ast.Name) and m.value.id == a.id:
                                    for t in m.targets:
                                        while isinstance(t, ast.Subscript): t = t.value
                                        if isinstance(t, ast.Attribute): out.add(ast.unparse(t))
        return out

    def second_pass(self, f, found, fine):
        """another method of the same class goes through the same tree and looks into everything"""
        mine = self.trees(f)
        if f.cls is None or not mine: return False
        own = {ast.unparse(t) for n in own_nodes(f.node) if isinstance(n, ast.Assign) for t in n.targets}
        if mine & own: return False    # f loads the tree itself: the others have seen another one
        for g in fine:
            if g is not f and g.cls is f.cls and g not in found and mine <= self.trees(g): return True
        return False


def run(p, r, tier):
    Rule(p).run(r)
    Account(p).run(r)
    r.floor('elements_looked_into_for_attributes', 200)
    r.floor('arguments_looked_into_for_children', 20)
    r.floor('attribute_dispatch_loops', 270)
    r.floor('element_dispatch_loops', 240)


def _mini(body):
    src = 'import logging\nclass X:\n def load(self, tree):\n' + body
    p = Project.from_sources({'BibleOrgSys/Formats/m.py': src})
    from framework import Report
    r = Report('C01'); Rule(p).run(r); return r

def _mini2(body):
    src = 'import logging\nfrom BibleOrgSys import BibleOrgSysGlobals\nclass X:\n def load(self, tree):\n' + body
    p = Project.from_sources({'BibleOrgSys/Formats/m.py': src, 'BibleOrgSys/BibleOrgSysGlobals.py': 'import logging\ndef checkXMLNoAttributes(e, l):\n for a in e.items(): logging.warning(a)\ndef checkXMLNoSubelements(e, l):\n for a in e: logging.warning(a)\ndef checkXMLNoText(e, l):\n if e.text: logging.warning(l)\n'})
    from framework import Report
    r = Report('C01'); Account(p).run(r); return r

def _a(body, *what):
    def go():
        got = sorted({k.split('/')[1].split(' of ')[0] for k in _mini2(body).findings})
        return got == sorted(what) or got
    return go

def _t(body, bad):
    return lambda: bool(_mini(body).findings) == bad

SELFTESTS = [
    ('dropped attribute', _t('  for e in tree:\n   t=e.tail\n   for a,v in e.items():\n    if a=="x": y=v\n', True)),
    ('reported attribute', _t('  for e in tree:\n   t=e.tail\n   for a,v in e.items():\n    if a=="x": y=v\n    else: logging.error(a)\n', False)),
    ('attribute reported only sometimes', _t('  for e in tree:\n   t=e.tail\n   for a,v in e.items():\n    if a=="x": y=v\n    elif v: logging.error(a)\n', True)),
    ('reported by helper', _t('  for e in tree:\n   t=e.tail\n   for a,v in e.items():\n    if a=="x": y=v\n    else: self.bad(a)\n def bad(self,a): logging.error(a)\n', False)),
    ('match statement', _t('  for e in tree:\n   t=e.tail\n   for a,v in e.items():\n    match a:\n     case "x": y=v\n     case _: logging.error(a)\n', False)),
    ('match statement without default', _t('  for e in tree:\n   t=e.tail\n   for a,v in e.items():\n    match a:\n     case "x": y=v\n', True)),
    ('dropped element', _t('  for e in tree:\n   if e.tag=="p": x=1\n   elif e.tag in ("q","r"): x=2\n', True)),
    ('reported element', _t('  for e in tree:\n   if e.tag=="p": x=1; continue\n   if not self.ok: pass\n   logging.warning(e.tag)\n', False)),
    ('attributes and children not looked at', _a('  for e in tree:\n   if e.tag=="p": self.x=e.text\n   else: logging.error(e.tag)\n', 'attributes', 'children')),
    ('both checked', _a('  for e in tree:\n   BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n   BibleOrgSysGlobals.checkXMLNoSubelements(e,"")\n   if e.tag=="p": self.x=e.text\n   else: logging.error(e.tag)\n')),
    ('the text check is not enough', _a('  for e in tree:\n   BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n   BibleOrgSysGlobals.checkXMLNoText(e,"")\n   if e.tag=="p": self.x=1\n   else: logging.error(e.tag)\n', 'children')),
    ('attributes of the parent instead', _a('  for e in tree:\n   if e.tag=="p":\n    for a,v in tree.items():\n     logging.error(a)\n    for k in e: logging.error(k.tag)\n   else: logging.error(e.tag)\n', 'attributes')),
    ('attributes walked in a helper', _a('  for e in tree:\n   if e.tag=="p": self.p(e)\n   else: logging.error(e.tag)\n def p(self, e):\n  BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n  for k in e: logging.error(k.tag)\n')),
    ('helper that only sometimes looks', _a('  for e in tree:\n   if e.tag=="p": self.p(e)\n   else: logging.error(e.tag)\n def p(self, e):\n  if self.q: BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n  for k in e: logging.error(k.tag)\n', 'attributes')),
    ('branches that know the tag', _a('  for e in tree:\n   if e.tag!="p": BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n   if e.tag=="p":\n    for a in e.items(): logging.error(a)\n   for k in e: logging.error(k.tag)\n')),
    ('one tag of several is not looked into', _a('  for e in tree:\n   if e.tag in ("p","q"):\n    if e.tag=="q": BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n    for k in e: logging.error(k.tag)\n   else: logging.error(e.tag)\n', 'attributes')),
    ('nothing inside', _a('  for e in tree:\n   BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n   if len(e)==0: self.x=e.text\n   else: logging.error(e.tag)\n')),
    ('second pass over the same tree', _a('  self.tree=tree\n def check(self):\n  for e in self.tree:\n   t=e.tag\n   BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n   BibleOrgSysGlobals.checkXMLNoSubelements(e,"")\n def use(self):\n  for e in self.tree:\n   self.x=e.text+e.tail\n')),
    ('second pass over another tree', _a('  self.tree=tree\n def check(self):\n  for e in self.tree:\n   t=e.tag\n   BibleOrgSysGlobals.checkXMLNoAttributes(e,"")\n   BibleOrgSysGlobals.checkXMLNoSubelements(e,"")\n def use(self):\n  self.tree = ElementTree().parse("x")\n  for e in self.tree:\n   self.x=e.text+e.tail\n', 'attributes', 'children')),
    ('the element comes as an argument', _a('  for e in tree:\n   self.p(e)\n def p(self, e):\n  t=e.tag\n  for k in e:\n   logging.error(k.tag)\n', 'attributes')),
]
