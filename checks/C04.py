"""C04: a format detector only counts unless asked to load, and when it found exactly one Bible it loads that one, as much as asked.

Rule: the flow of every detector (module-level *FileCheck function of the format modules) is analysed with helpers in line,
Bible constructors opaque, once for each setting of its two auto-load flags.
 - nothing asked: no Bible is constructed or loaded and no Bible object is returned;
 - something asked: a Bible of the detector's own module is constructed exactly where the state says the count is one, a Bible
   is returned there, and its books are loaded if and only if loading the books was asked for; a class with a preload step is
   preloaded before its books are;
 - the folder given to the constructor derives from the folder given; once subfolders have been listed it is not the given folder
   itself;
 - a bare name found by listing one folder is never joined or passed together with another folder, and what the constructor gets is
   what was noted where the Bible was found, not what a search loop happened to look at last;
 - a path that cannot be read, or is not a folder, gives False before anything is listed (ARCHIVES lists the detectors that also accept
   a single file)."""
import re
from common import *
from absint import *

RULE = __doc__
ASSUMPTIONS = ['how many Bibles a detector counts is not examined', 'load(), loadBooks(), loadBook...() and loadAll...() of a Bible class load its books']
ARCHIVES = {'PickledBibleFileCheck': 'a zip file', 'GoBibleFileCheck': 'a jar file'}
NESTED = {'SwordBibleFileCheck': 'a Sword module keeps its files in subfolders of its own'}
LISTERS = {'listdir', 'scandir', 'walk', 'iterdir', 'glob', 'rglob'}


def is_bible(p, c):
    return any(k.name in ('InternalBible', 'Bible', 'BibleWriter') or 'Bible' in k.name and k is not c for k in p.mro(c)) or 'Bible' in c.name or 'Commentary' in c.name


def all_leaves(v, out=None, depth=0):
    out = set() if out is None else out
    if depth > 12: return out
    for a in v:
        if a[0] == 'name': out.add(a[1])
        elif a[0] == 'mix':
            for x in a[1]: all_leaves(one(x), out, depth+1)
        elif a[0] in ('seq', 'op'):
            for x in a[2]: all_leaves(x, out, depth+1)
        elif a[0] == 'map':
            for _, x in a[1]: all_leaves(x, out, depth+1)
    return out


def objs(v, depth=0):
    out = set()
    if depth > 8: return out
    for a in v:
        if a[0] == 'obj': out.add(a[1])
        elif a[0] == 'mix': out |= objs(a[1], depth+1)
    return out


def canon(v, depth=0):
    """the components of a path, from the given folder on; None if not known"""
    if depth > 40 or not v: return None
    got = {canon1(a, depth) for a in v}
    return got.pop() if len(got) == 1 else None


def canon1(a, depth=0):
    if a == ('name', 'param:GIVEN'): return ('GIVEN',)
    if a[0] == 'const' and isinstance(a[1], str):
        t = a[1].strip('/')
        return (('lit', t),) if t not in ('', '.') else ()
    if a[0] != 'op': return None
    if a[1] == 'Div' or a[1].endswith('path.join') or a[1] == 'call:join': return canons(a[2], depth)
    if a[1] == 'concat':
        if all(len(x) == 1 for x in a[2]) and len(a[2]) == 2 and next(iter(a[2][1])) in (('const', '/'), ('const', os_sep)): return canon(a[2][0], depth+1)
        return None
    if re.search(r'(?:^|[:.])(?:Path|str|abspath|realpath|normpath|expanduser|fspath)$', a[1]) and a[2]: return canon(a[2][0], depth+1)
    o = origins(one(a), depth+1)
    if len(o) == 1 and None not in o and 'PATH' not in o: return (('in', next(iter(o))),)
    return None


os_sep = '\\'


def canons(vs, depth=0):
    out = ()
    for v in vs:
        c = canon(v, depth+1)
        if c is None: return None
        out += c
    return out


def origins(v, depth=0):
    """the folders (canonical) in whose listing a bare name was found; None among them: not known; 'PATH': it is not a bare name"""
    out = set()
    if depth > 40: return {None}
    for a in v:
        if a[0] == 'mix': out |= origins(a[1], depth+1)
        elif a[0] == 'seq':
            for x in a[2]: out |= origins(x, depth+1)
        elif a[0] == 'op':
            nm = a[1].split(':')[-1].split('.')[-1]
            if a[1].startswith('call:') and nm == 'listdir': out.add(canon(a[2][0], depth+1) if a[2] else ('GIVEN',))
            elif a[1].startswith('call:') and nm == 'join' or a[1] == 'Div': out.add('PATH')
            elif a[1] in ('elem', 'item', 'slice'): out |= origins(a[2][0], depth+1)
            elif nm in ('sorted', 'list', 'set', 'tuple', 'reversed', 'frozenset', 'enumerate', 'filter', 'str'):
                for x in a[2]: out |= origins(x, depth+1)
            else: out.add(None)
        elif a[0] in ('name', 'undef', 'const'): pass
        else: out.add(None)
    return out


def peel(v, depth=0):
    """the values that a selection out of a collection can be"""
    out = set()
    for a in v:
        if a[0] == 'mix' and depth < 8: out |= peel(a[1], depth+1)
        elif a[0] == 'seq' and depth < 8:
            for x in a[2]: out |= peel(x, depth+1)
        elif a[0] == 'op' and a[1] in ('item', 'elem') and a[2] and depth < 8: out |= peel(a[2][0], depth+1)
        else: out.add(a)
    return out


def strayed(args, call=False, nested=False):
    """a bare name put together with a folder other than the one in whose listing it was found"""
    if not call:
        for i in range(1, len(args)):
            o = origins(args[i])
            if not o or None in o or 'PATH' in o: continue
            c = canons(args[:i])
            if c is not None and c and c[0] == 'GIVEN' and c not in o: return True
        return False
    for i, x in enumerate(args):
        o = origins(x) - {'PATH'}
        if not o or None in o: continue
        for j, y in enumerate(args):
            if i == j: continue
            atoms = peel(y)
            cs = {canon1(a) for a in atoms if not (a[0] == 'op' and a[1].endswith('listdir'))} - {()}
            cs = {c for c in cs if c is None or not (len(c) == 1 and c[0][0] == 'in')}        # bare names kept in the same collection
            if cs and None not in cs and all(c[0] == 'GIVEN' for c in cs) and not cs & o and not (nested and any(q[:len(c)] == c for c in cs for q in o)): return True
    return False


def unrecorded(f, call):
    """names used to construct the Bible which are left over from a loop, rather than noted where the Bible was found"""
    cfg = cfg_of(f)
    tested = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Compare) and any(isinstance(x, ast.Constant) and x.value == 1 for x in [n.left] + n.comparators):
            tested |= {y.id for x in [n.left] + n.comparators for y in ast.walk(x) if isinstance(y, ast.Name) and y.id != 'len'}
    def finds(n):
        for x in node_walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in tested: return True
            if isinstance(x, ast.Call) and callname(x) in ('append', 'add', 'extend') and isinstance(x.func.value, ast.Name): return True
        return isinstance(n.ast, ast.AugAssign) and isinstance(n.ast.target, ast.Name) and n.ast.target.id in tested
    out = set()
    loops_of_call = [a for a in ancestors(call) if isinstance(a, (ast.For, ast.While))]
    def names(e): return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    work = [(x, call) for a in list(call.args) + [k.value for k in call.keywords] for x in sorted(names(a))]
    done = set()
    while work:
        nm, at = work.pop()
        if (nm, id(at)) in done: continue
        done.add((nm, id(at)))
        # what that was made from, where it was made
        for node in cfg.nodes:
            if any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in node_walk(node)) and isinstance(node.ast, ast.Assign) and reaches(cfg, node, nm, at):
                work += [(x, node.ast) for x in names(node.ast.value)]
            for x in node_walk(node):
                if isinstance(x, ast.Call) and callname(x) == 'append' and isinstance(x.func.value, ast.Name) and x.func.value.id == nm and reaches(cfg, node, nm, at):
                    work += [(y, x) for b in x.args for y in names(b)]
        loops_of_call = [a for a in ancestors(at) if isinstance(a, (ast.For, ast.While))]
        for node in cfg.nodes:
            if not any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in node_walk(node)): continue
            loop = node.ast if isinstance(node.ast, ast.For) and node.kind == 'forhead' else next((a for a in ancestors(node.ast) if isinstance(a, (ast.For, ast.While))), None)
            if loop is None or loop in loops_of_call or finds(node): continue
            inside = {id(x) for b in loop.body for x in ast.walk(b)}
            def ok(m): return m.ast is not None and (id(m.ast) in inside or m is node)
            # an iteration through this definition without a find: neither before it nor after it
            def free(start, nxt):
                seen, st = set(), [start]
                while st:
                    m = st.pop()
                    for s_, l in nxt(m):
                        if l == 'exc' or s_ in seen: continue
                        if s_.ast is loop or s_.ast is not None and s_.ast is getattr(loop, 'iter', None) or s_.kind == 'loophead' and s_.ast is loop: return True
                        if not ok(s_):
                            return True      # leaves the loop
                        if finds(s_): continue
                        seen.add(s_); st.append(s_)
                return False
            used = reaches(cfg, node, nm, at)
            if used and free(node, lambda m: m.succ) and free(node, lambda m: m.pred): out.add(nm)
    return out


def reaches(cfg, d, nm, call):
    """the definition at d can be the one in force at the call"""
    seen, st = {d}, [d]
    while st:
        m = st.pop()
        for s_, l in m.succ:
            if l == 'exc' or s_ in seen: continue
            if s_.ast is call or any(x is call for x in node_walk(s_)): return True
            if any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in node_walk(s_)): continue
            seen.add(s_); st.append(s_)
    return False


def scanner(p, c):
    """an object that lists the folder it is made for"""
    if is_bible(p, c): return False
    g = p.find_method(c, '__init__')
    if g is None: return False
    prm = [x for x in g.params if x != 'self'][:1]
    if any(isinstance(x, ast.Call) and callname(x) in LISTERS and x.args and isinstance(x.args[0], (ast.Name, ast.Attribute)) for m in c.methods.values() for x in own_nodes(m.node)): return bool(prm)
    return False


def analyse(p, f, load, books, extra=None):
    """-> events: list of (kind, data, state, node, func)"""
    ev = []
    prm = f.params
    def on_call(ip, call, atom, args, kw, st):
        r_ = map_methods(ip, call, atom, args, kw, st)
        if r_ is not None: return r_
        nm = callname(call)
        if nm == 'join' and (atom[0] == 'name' and atom[1].endswith('path.join')) and strayed(args): ev.append(('stray', 'join', st, call, ip.f))
        if atom[0] in ('func', 'cls') and nm not in ('vPrint', 'fnPrint', 'dPrint') and strayed(list(args) + list(kw.values()), call=True, nested=f.name in NESTED): ev.append(('stray', nm, st, call, ip.f))
        if atom == ('name', 'len'): return op('call:len', *args)
        if atom[0] == 'op' and atom[1] == 'attr' and len(atom[2]) == 2 and atom[2][0] and all(a[0] == 'op' and a[1] == 'call:scan' for a in atom[2][0]):
            return op('call:listdir', *[a[2][0] for a in atom[2][0]][:1])
        if atom[0] == 'cls':
            c = ip.classes.get(atom[1])
            if c is not None and args and scanner(p, c):
                st.env['$.listed'] = st.env.get('$.listed', frozenset()) | args[0]
                return op('call:scan', args[0])
            if c is not None and is_bible(p, c):
                ev.append(('new', (c, list(args) + [v for v in kw.values()]), st.copy(), call, ip.f))
                st.env['$.loaded'] = FALSE; st.env['$.preloaded'] = FALSE
                return one(('obj', c.qual))
        if atom[0] == 'op' and atom[1] == 'attr' and len(atom[2]) == 2:
            base, attr = atom[2]; attr = next(iter(attr))[1]
            if objs(base):
                if re.match(r'load(?!Error)', attr):
                    ev.append(('load', attr, st.copy(), call, ip.f)); st.env['$.loaded'] = TRUE
                elif attr == 'preload': ev.append(('preload', attr, st.copy(), call, ip.f)); st.env['$.preloaded'] = TRUE
        if nm in LISTERS:
            a = args[0] if args else (atom[2][0] if atom[0] == 'op' and len(atom[2]) else UNDEF)
            ev.append(('list', a, st.copy(), call, ip.f))
            st.env['$.listed'] = st.env.get('$.listed', frozenset()) | a if '$.listed' in st.env else a
        if extra:
            r_ = extra(ip, call, atom, args, kw, st)
            if r_ is not None: return r_
        return None
    def on_return(ip, v, st, node):
        if len(ip.frames) == 1: ev.append(('return', v, st.copy(), node, ip.f))
    def policy(g): return g.module is f.module and g.cls is None and g is not f
    class IP(Interp):
        def s_AugAssign(self, s, st):          # counters stay opaque
            if isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                st.env[s.target.id] = one(('name', f'counter {s.lineno}')); return st
            return Interp.s_AugAssign(self, s, st)
        def e_BinOp(self, e, st):
            x, y = self.eval(e.left, st), self.eval(e.right, st)
            if isinstance(e.op, (ast.Div, ast.Add)) and strayed([x, y]): ev.append(('stray', 'path', st, e, self.f))
            return self.binop(e.op, x, y)
        def branch(self, t, st):
            a, b = Interp.branch(self, t, st)
            if a is not None and isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and any(isinstance(x, ast.Constant) and x.value == 1 for x in (t.left, t.comparators[0])):
                a = a.copy(); a.env['$.one'] = TRUE
            return a, b
    ip = IP(p, assume={'BibleOrgSysGlobals.debugFlag': FALSE}, on_call=on_call, policy=policy, on_return=on_return)
    args = {prm[0]: one(('name', 'param:GIVEN'))}
    for x in f.allparams[1:]:
        if x == 'autoLoad': args[x] = load
        elif x == 'autoLoadBooks': args[x] = books
    val, st = ip.run(f, args)
    return ev, val


def exactly_one(st):
    if st.env.get('$.one') == TRUE: return True
    for key, truth in st.facts:
        if key[0] == 'cmp' and truth and key[1] in ('Eq', 'Is') and const(1) in key[2:4]: return True
    return False


GIVEN = one(('name', 'param:GIVEN'))


def strays(r, n, ev):
    for kind, d, st, node, g in ev:
        if kind == 'stray': r.find(f'{n}/stray/{d}', g.where(node), f'{n} uses a name found in one folder with another folder (`{ast.unparse(node)[:80]}`)')


def decide(p, r, f, own):
    n = f.name
    w = lambda node, g: g.where(node)
    # nothing asked
    ev, val = analyse(p, f, FALSE, FALSE)
    for kind, d, st, node, g in ev:
        if kind in ('new', 'load', 'preload'): r.find(f'{n}/unasked', w(node, g), f'{n} constructs or loads a Bible although no loading was asked for')
    strays(r, n, ev)
    # asked
    for load, books in ((TRUE, FALSE), (FALSE, TRUE), (TRUE, TRUE)):
        cfg = f'autoLoad={show(load)}, autoLoadBooks={show(books)}'
        ev, val = analyse(p, f, load, books)
        strays(r, n, ev)
        news = [e for e in ev if e[0] == 'new']
        r.count('constructions', len(news))
        if not news: r.find(f'{n}/never/{cfg}', f.where(), f'{n} never constructs a Bible with {cfg}')
        for kind, (c, args), st, node, g in news:
            archive = n in ARCHIVES and '$.listed' not in st.env and args and args[0] == GIVEN
            if not exactly_one(st) and not archive: r.find(f'{n}/count', w(node, g), f'{n} constructs a Bible where it is not established that exactly one was found')
            if c.module is not f.module: r.find(f'{n}/class/{c.name}', w(node, g), f'{n} constructs {c.name}, which is not the class of its own format')
            if args and 'param:GIVEN' not in set().union(*[all_leaves(a) for a in args]):
                r.find(f'{n}/folder', w(node, g), f'the Bible constructed by {n} does not get a location derived from the folder given')
            for nm in unrecorded(g, node):
                r.find(f'{n}/left-over/{nm}', w(node, g), f'{n} constructs the Bible from {nm}, which holds what the loop looked at last, not what was found')
            listed = st.env.get('$.listed', frozenset())
            if args and listed - GIVEN - UNDEF:
                r.count('subfolder_constructions')
                if args[0] == GIVEN and n not in NESTED: r.find(f'{n}/subfolder', w(node, g), f'{n} found the Bible in a subfolder but constructs it on the given folder itself')
        for kind, d, st, node, g in ev:
            v = d
            if kind == 'return':
                ob = objs(v)
                if ob:
                    r.count('returned_bibles')
                    want = books
                    if st.env.get('$.loaded') != want:
                        r.find(f'{n}/books/{cfg}', w(node, g), f'with {cfg}, {n} returns a Bible whose books are ' + ('not ' if want is TRUE else '') + 'loaded' + (' on some path' if len(st.env.get('$.loaded', ())) > 1 else ''))
                    if any(a[0] != 'obj' for a in v): r.find(f'{n}/return', w(node, g), f'{n} may return something other than the Bible it constructed')
            if kind == 'load':
                r.count('book_loads')
                if has_preload(p, f, d) and st.env.get('$.preloaded') != TRUE:
                    r.find(f'{n}/preload', w(node, g), f'with {cfg}, {n} loads the books of a Bible that has not been preloaded')
        for kind, v, st, node, g in ev:
            if kind == 'return' and TRUE <= st.env.get('$.one', frozenset()):
                r.count('single_find_returns')
                if not objs(v) or any(a[0] != 'obj' for a in v): r.find(f'{n}/lost/{cfg}', w(node, g), f'with {cfg}, {n} may find exactly one Bible and yet not return it')
    # unusable paths
    for what in ('access', 'isdir'):
        if what == 'isdir' and n in ARCHIVES: continue
        def extra(ip, call, atom, args, kw, st, what=what):
            nm = callname(call)
            if nm == what == 'access':
                if not args or args[0] != GIVEN: return None
                return const(not (len(args) > 1 and any(x.endswith('R_OK') for x in all_leaves(args[1]) | {str(a[1]) for a in args[1]}) or const(4) in args[1:] or not args[1:] and 'R_OK' in ast.unparse(call)))
            if nm == what or what == 'isdir' and nm == 'is_dir':
                if (args and args[0] == GIVEN) or nm == 'is_dir': return FALSE
            if what == 'isdir' and nm == 'access': return TRUE
            if what == 'isdir' and nm in ('isfile', 'is_file') : return op('call:isfile', *args)
            return None
        ev, val = analyse(p, f, TRUE, TRUE, extra)
        r.count('unusable_path_obligations')
        for kind, d, st, node, g in ev:
            if kind == 'list': r.find(f'{n}/unusable/{what}', w(node, g), f'{n} lists a path although it ' + ('cannot be read' if what == 'access' else 'is not a folder'))
        if val is None or any(a[0] != 'const' or a[1] not in (False, None, 0) for a in val): r.find(f'{n}/unusable/{what}/answer', f.where(), f'{n} answers {show(val or NONE)} for a path that ' + ('cannot be read' if what == 'access' else 'is not a folder'))


def show(v): return ' | '.join(sorted(str(a[1]) for a in v))[:60]


def has_preload(p, f, meth):
    """the class has a preload step which its own loading method does not take care of"""
    for c in f.module.classes.values():
        if 'preload' in c.methods:
            m = p.find_method(c, meth)
            if m is None: return True
            seen, st = set(), [m]
            while st:
                g = st.pop()
                if g in seen: continue
                seen.add(g)
                for x in own_nodes(g.node):
                    if isinstance(x, ast.Call):
                        if callname(x) == 'preload': return False
                        if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self':
                            h = p.find_method(c, x.func.attr)
                            if h is not None: st.append(h)
            return True
    return False


def detectors(p):
    return [g for m in p.modules.values() if '.Formats.' in m.name for nm, g in m.funcs.items() if re.match(r'\w+FileCheck$', nm) and not g.demo]


def run(p, r, tier):
    for f in detectors(p):
        r.count('detectors'); r.sample(f.qual)
        decide(p, r, f, None)
    r.floor('detectors', 28); r.floor('constructions', 80); r.floor('returned_bibles', 80)


T = '''
import os
def XBibleFileCheck(folder, strictCheck=True, autoLoad=False, autoLoadBooks=False):
 if not os.access(folder, os.R_OK): return False
 if not os.path.isdir(folder): return False
 n = 0; subs = []
 for x in os.listdir(folder):
  if x.endswith('.x'): n += 1
  else: subs.append(x)
 if n:
  if n == 1 and (autoLoad %s autoLoadBooks):
   b = XBible(folder)
   if %s: b.load()
   return b
  return n
 n = 0; found = []
 for s in subs:
  t = os.path.join(folder, s)
  for x in os.listdir(t):
   if x.endswith('.x'):
    n += 1; found.append(t)
 if n:
  if %s and (autoLoad or autoLoadBooks):
   b = XBible(%s)
   if autoLoadBooks: b.load()
   return b
  return n
class XBible:
 def load(self): pass
'''
T2 = '''
import os
def usable(folder): return os.access(folder, os.R_OK) and os.path.isdir(folder)
def openIt(folder, wanted, books):
 if not wanted: return None
 b = XBible(folder)
 if books: b.load()
 return b
def XBibleFileCheck(folder, strictCheck=True, autoLoad=False, autoLoadBooks=False):
 if not usable(folder): return False
 found = [folder for x in os.listdir(folder) if x.endswith('.x')]
 only = len(found) == 1 and (autoLoad or autoLoadBooks)
 if only: return openIt(found[0], True, autoLoadBooks)
 return len(found)
class XBible:
 def load(self): pass
'''
T3 = T % ('or', 'autoLoadBooks', 'n == 1', '*found[0]')
T3 = T3.replace('found.append(t)', 'last = x; found.append((t, x))').replace("if x.endswith('.x'):\n    n", "if os.path.isfile(os.path.join(t, x)):\n    n").replace('XBible(*found[0])', 'XBible(found[0][0], found[0][1])')
def _st(src, bad):
    def t():
        from framework import Report
        p = Project.from_sources({'BibleOrgSys/Formats/X.py': src})
        r = Report('C04')
        for f in detectors(p): decide(p, r, f, None)
        return bool(r.findings) == bad
    return t
SELFTESTS = [
    ('conforming', _st(T % ('or', 'autoLoadBooks', 'n == 1', 'found[0]'), False)),
    ('helpers', _st(T2, False)),
    ('both flags needed', _st(T % ('and', 'autoLoadBooks', 'n == 1', 'found[0]'), True)),
    ('books loaded unasked', _st(T % ('or', 'autoLoad', 'n == 1', 'found[0]'), True)),
    ('several found', _st(T % ('or', 'autoLoadBooks', 'n >= 1', 'found[0]'), True)),
    ('wrong folder', _st(T % ('or', 'autoLoadBooks', 'n == 1', 'folder'), True)),
    ('unreadable path listed', _st((T % ('or', 'autoLoadBooks', 'n == 1', 'found[0]')).replace(' if not os.access(folder, os.R_OK): return False\n', ''), True)),
    ('file noted with its folder', _st(T3, False)),
    ('file looked for elsewhere', _st(T3.replace('join(t, x)', 'join(folder, x)'), True)),
    ('file noted with another folder', _st(T3.replace('append((t, x))', 'append((folder, x))'), True)),
    ('last one noted', _st(T3.replace('found[0][1]', 'last'), False)),
    ('last one looked at', _st(T3.replace('found[0][1]', 'x'), True)),
    ('last one looked at, copied', _st(T3.replace('last = x; ', '').replace('  if os.path.isfile', '  last = x\n   if os.path.isfile').replace('found[0][1]', 'last'), True)),
]
