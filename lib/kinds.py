"""kinds.py: which built-in kind (or class of the library) a value certainly has, from every assignment that it can come from.

Kinds().of(e, f) is a frozenset of Python types / Cls objects, or None when some source is not known. The sources of a local variable are
all assignments to it in its function, those of an attribute of self all assignments to that attribute in the family of classes (and it is
unknown as soon as anybody sets an attribute of that name on something else), those of a module variable all its assignments."""
import types, builtins
from common import *

NONE = type(None)
FUN, METH, MOD, GEN = types.FunctionType, types.MethodType, types.ModuleType, types.GeneratorType
NUM = {int, float, bool}
STRM = {n: str for n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'replace', 'join', 'format', 'capitalize', 'zfill', 'ljust', 'rjust', 'center', 'swapcase', 'casefold', 'translate', 'removeprefix', 'removesuffix', 'expandtabs')}
STRM |= {n: bool for n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower', 'isspace', 'isalnum', 'istitle')} | {'split': list, 'rsplit': list, 'splitlines': list, 'find': int, 'rfind': int, 'index': int, 'count': int, 'encode': bytes, 'partition': tuple, 'rpartition': tuple}
METHODS = {str: STRM, list: {'append': NONE, 'extend': NONE, 'sort': NONE, 'reverse': NONE, 'insert': NONE, 'clear': NONE, 'copy': list, 'index': int, 'count': int, 'remove': NONE},
           dict: {'update': NONE, 'clear': NONE, 'copy': dict, 'keys': type({}.keys()), 'values': type({}.values()), 'items': type({}.items())},
           set: {'add': NONE, 'update': NONE, 'discard': NONE, 'remove': NONE, 'clear': NONE, 'copy': set, 'union': set, 'intersection': set, 'difference': set},
           bytes: {'decode': str}}
CALLS = {'str': str, 'repr': str, 'len': int, 'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'sorted': list, 'int': int, 'float': float, 'bool': bool, 'isinstance': bool, 'ord': int, 'chr': str,
         'range': range, 'enumerate': enumerate, 'zip': zip, 'reversed': reversed, 'any': bool, 'all': bool, 'callable': bool, 'hasattr': bool, 'hex': str, 'bytes': bytes, 'frozenset': frozenset, 'input': str, 'print': NONE, 'map': map, 'filter': filter}
EXT = {'os.path.join': str, 'os.path.exists': bool, 'os.path.isdir': bool, 'os.path.isfile': bool, 'os.listdir': list, 'os.getcwd': str, 'os.path.basename': str, 'os.path.dirname': str, 'os.path.splitext': tuple,
       'os.path.split': tuple, 'os.makedirs': NONE, 'os.remove': NONE, 'os.access': bool, 'os.path.getsize': int, 'os.path.abspath': str, 'os.path.expanduser': str, 'shutil.rmtree': NONE, 'os.rename': NONE, 'os.mkdir': NONE}
NAMES = {FUN: 'function', METH: 'method', MOD: 'module', NONE: 'None'}


def kname(k): return k.name if isinstance(k, Cls) else NAMES.get(k, getattr(k, '__name__', str(k)))


class Kinds:
    def __init__(s, p):
        s.p = p; s.memo = {}; s.busy = set(); s.cut = set(); s.g = {}
        s.elsewhere = set()                # attributes stored on something other than the object itself
        s.written = {}                     # (class, attribute) -> values (None = not known)
        s.glob = {}                        # (module, name) -> values stored under a global statement
        for f in p.functions(demo=True):
            me = s.me(f); c = s.owner(f)
            gl = {x for n in own_nodes(f.node) if isinstance(n, ast.Global) for x in n.names}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1: s.elsewhere.add(n.args[1].value if isinstance(n.args[1], ast.Constant) else '*')
                if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    v = s.stored(n)
                    if isinstance(n, ast.Name):
                        if n.id in gl: s.glob.setdefault((f.module.name, n.id), []).append((v, f))
                        continue
                    if isinstance(n.value, ast.Name) and n.value.id == me and c is not None: s.written.setdefault((c, n.attr), []).append((v, f))
                    else: s.elsewhere.add(n.attr)
        for m in p.modules.values():
            for st in m.tree.body:
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    for x in ast.walk(st):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store): s.elsewhere.add(x.attr)

    @staticmethod
    def me(f):
        g = f
        while g is not None and g.cls is None: g = g.parent
        return g.params[0] if g is not None and g.params and not g.is_static else None

    @staticmethod
    def owner(f):
        g = f
        while g is not None and g.cls is None: g = g.parent
        return g.cls if g is not None and not g.is_static else None

    @staticmethod
    def stored(n):
        """the value expression stored into this target, or None if it is not just one expression"""
        q = n._parent; path = n
        if isinstance(q, ast.Assign) and any(n is t for t in q.targets): return q.value
        if isinstance(q, ast.AnnAssign): return q.value if q.value is not None else 'declared'
        if isinstance(q, ast.NamedExpr): return q.value
        if isinstance(q, ast.AugAssign): return ('aug', q)
        if isinstance(q, (ast.Tuple, ast.List)) and isinstance(getattr(q, '_parent', None), ast.Assign):
            a = q._parent
            if any(q is t for t in a.targets) and isinstance(a.value, (ast.Tuple, ast.List)) and len(a.value.elts) == len(q.elts) and not any(isinstance(e, ast.Starred) for e in q.elts + a.value.elts):
                return a.value.elts[q.elts.index(n)]
        if isinstance(n.ctx, ast.Del): return 'declared'
        return None

    def values(s, vs, f0=None):
        out = set()
        for v, f in vs:
            if v == 'declared': continue
            if v is None: return None
            k = s.aug(v[1], f) if isinstance(v, tuple) else s.of(v, f)
            if k is None: return None
            out |= k
        return frozenset(out)

    def aug(s, q, f):
        """what x op= v can turn x into, besides what it was"""
        k = s.of(q.value, f)
        if k is None: return None
        if isinstance(q.op, (ast.Add, ast.Sub, ast.Mult)): return frozenset(k & {float}) if k <= NUM else frozenset()
        return None if not (k <= {set, frozenset, dict}) else frozenset()

    def of(s, e, f):
        key = (id(e), id(f))
        if key in s.memo: return s.memo[key]
        if key in s.busy: s.cut.add(key); return frozenset()
        s.busy.add(key)
        try: r = s.of1(e, f)
        finally: s.busy.discard(key)
        s.cut.discard(key)
        if not s.cut or r is None: s.memo[key] = r       # not cut short inside a circle that goes on outside
        return r

    def of1(s, e, f):
        K = lambda *t: frozenset(t)
        if isinstance(e, ast.Constant): return K(type(e.value))
        if isinstance(e, ast.JoinedStr): return K(str)
        if isinstance(e, (ast.List, ast.ListComp)): return K(list)
        if isinstance(e, (ast.Dict, ast.DictComp)): return K(dict)
        if isinstance(e, (ast.Set, ast.SetComp)): return K(set)
        if isinstance(e, ast.Tuple): return K(tuple)
        if isinstance(e, ast.GeneratorExp): return K(GEN)
        if isinstance(e, ast.Lambda): return K(FUN)
        if isinstance(e, ast.NamedExpr): return s.of(e.value, f)
        if isinstance(e, ast.IfExp): return s.join(e.body, e.orelse, f)
        if isinstance(e, ast.BoolOp): return s.join(*e.values, f)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not): return K(bool)
            k = s.of(e.operand, f)
            return frozenset(int if q is bool else q for q in k) if k is not None and k <= NUM else None
        if isinstance(e, ast.Compare): return K(bool) if all(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops) else None
        if isinstance(e, ast.BinOp):
            a, b = s.of(e.left, f), s.of(e.right, f)
            if isinstance(e.op, ast.Mod) and a == {str}: return K(str)
            if isinstance(e.op, ast.Add):
                for t in (str, list, bytes):
                    if a == {t} or b == {t}: return K(t)
            if a is not None and b is not None and a and b and a <= NUM and b <= NUM: return K(float) if float in a | b or isinstance(e.op, ast.Div) else K(int)
            return None
        if isinstance(e, ast.Subscript):
            k = s.of(e.value, f)
            if k == {str}: return K(str)
            if k in ({list}, {bytes}, {tuple}) and isinstance(e.slice, ast.Slice): return k
            return None
        if isinstance(e, ast.Name): return s.name(e, f)
        if isinstance(e, ast.Attribute): return s.attribute(e, f)
        if isinstance(e, ast.Call): return s.call(e, f)
        return None

    def join(s, *a):
        *es, f = a; out = set()
        for e in es:
            k = s.of(e, f)
            if k is None: return None
            out |= k
        return frozenset(out)

    def name(s, e, f):
        p = s.p
        if f not in s.g:
            st = {}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): st.setdefault(n.id, []).append(n)
                elif isinstance(n, ast.ExceptHandler) and n.name: st.setdefault(n.name, []).append(None)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: st.setdefault(n.name, []).append(None)
                elif isinstance(n, ast.ClassDef): st.setdefault(n.name, []).append(None)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names: st.setdefault(a.asname or a.name.split('.')[0], []).append('import')
            nl = {z for g in f.nested.values() for x in ast.walk(g.node) if isinstance(x, ast.Nonlocal) for z in x.names}
            s.g[f] = {x for n in own_nodes(f.node) if isinstance(n, ast.Global) for x in n.names}, st, nl
        gl, st, nl = s.g[f]
        if e.id not in gl:
            if e.id in f.allparams: return None
            if e.id in p.locals_of(f):
                ns = st.get(e.id, [])
                if 'import' in ns: return s.thing(e, f)
                if None in ns or e.id in nl: return None
                vs = [(s.stored(n), f) for n in ns]
                if e.id in f.nested and not vs: return frozenset({FUN})
                if e.id in f.nested or not vs: return None
                return s.values(vs)
            g = f.parent
            while g is not None:
                if p.is_local(e.id, g) and e.id in p.locals_of(g): return None
                g = g.parent
        return s.thing(e, f)

    def thing(s, e, f):
        """what a name or dotted name at module level is"""
        r = s.p.resolve(e, f)
        if isinstance(r, Module): return frozenset({MOD})
        if isinstance(r, tuple) and r[0] == 'global':
            m, n = r[1], r[2]
            if n in m.imports or n in m.funcs or n in m.classes or (isinstance(e, ast.Attribute) and False): return None
            if n in s.elsewhere or '*' in s.elsewhere and False: return None
            vs = [(v, None) for v in m.globals.get(n, [])]
            out = set()
            for v, _ in vs:
                k = s.static(v)
                if k is None: return None
                out |= k
            k = s.values(s.glob.get((m.name, n), []))
            if k is None: return None
            return frozenset(out | k) or None
        if isinstance(r, tuple) and r[0] == 'ext' and isinstance(e, ast.Name):
            return None
        return None

    def static(s, v):
        """kind of a module-level value"""
        if v is None: return None
        if isinstance(v, ast.Constant): return frozenset({type(v.value)})
        for t, k in (((ast.List, ast.ListComp), list), ((ast.Dict, ast.DictComp), dict), ((ast.Set, ast.SetComp), set), (ast.Tuple, tuple), (ast.JoinedStr, str)):
            if isinstance(v, t): return frozenset({k})
        return None

    def family(s, c):
        fam = set(s.p.mro(c))
        for k in s.p.subclasses(c): fam |= set(s.p.mro(k))
        return fam

    def attribute(s, e, f):
        c = s.owner(f)
        if isinstance(e.value, ast.Name) and c is not None and e.value.id == s.me(f) and not (e.value.id in s.p.locals_of(f) and e.value.id not in f.allparams):
            if e.attr in s.elsewhere: return None
            vs = []; fam = {c} if e.attr.startswith('__') and not e.attr.endswith('__') else s.family(c)
            for k in fam:
                if any(not isinstance(b, Cls) and b != ('ext', 'builtins.object') for b in k.bases): return None
                vs += s.written.get((k, e.attr), [])
            ms = [k.methods[e.attr] for k in fam if e.attr in k.methods]
            if ms:
                if vs: return None
                if all(not m.node.decorator_list for m in ms): return frozenset({METH})
                if all(m.is_property for m in ms):
                    out = set()
                    for m in ms:
                        k = s.returns(m)
                        if k is None: return None
                        out |= k
                    return frozenset(out)
                return None
            for k in fam:
                if '__slots__' in k.attrs and not vs: return None
                if e.attr in k.attrs:
                    q = s.static(k.attrs[e.attr]) if isinstance(k.attrs[e.attr], ast.AST) else None
                    if q is None: return None
                    r = s.values(vs)
                    return None if r is None else frozenset(r | q)
                if '__getattr__' in k.methods or '__setattr__' in k.methods: return None
            return (s.values(vs) or None) if vs else None
        return s.thing(e, f)

    def returns(s, g, depth=0):
        key = ('ret', id(g), 0)
        if key in s.memo: return s.memo[key]
        if key in s.busy: s.cut.add(key); return frozenset()
        s.busy.add(key); out = set()
        try:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(g.node)): out = {GEN}
            elif isinstance(g.node, ast.AsyncFunctionDef) or [d for d in g.node.decorator_list if ast.unparse(d) not in ('staticmethod', 'classmethod', 'property')]: out = None
            else:
                cf = cfg_of(g); ok = reachable(cf.entry)
                if not any(n in ok for n, l in cf.exit.pred): out = None                 # does not come back, or abstract
                else:
                    for n, l in cf.exit.pred:
                        if n not in ok or l == 'exc': continue
                        v = n.ast.value if n.kind == 'return' else None
                        if v is None: out.add(NONE); continue
                        k = s.of(v, g)
                        if k is None: out = None; break
                        out |= k
        finally: s.busy.discard(key)
        r = None if out is None else frozenset(out)
        s.cut.discard(key)
        if not s.cut or r is None: s.memo[key] = r
        return r

    def call(s, e, f):
        if isinstance(e.func, ast.Attribute):
            k = s.of(e.func.value, f) if not isinstance(s.p.resolve(e.func, f), (Func, Cls)) else None
            if k:
                out = set()
                for t in k:
                    r = METHODS.get(t, {}).get(e.func.attr) if not isinstance(t, Cls) else None
                    if r is None: out = None; break
                    out.add(r)
                if out: return frozenset(out)
        r = s.p.resolve(e.func, f) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if isinstance(e.func, ast.Name) and not s.p.is_local(e.func.id, f) and e.func.id in CALLS and (r is None or r == ('ext', 'builtins.' + e.func.id)): return frozenset({CALLS[e.func.id]})
        if isinstance(r, tuple) and r[0] == 'ext' and r[1] in EXT:
            if EXT[r[1]] is str and not (e.args and s.of(e.args[0], f) == {str}): return None
            return frozenset({EXT[r[1]]})
        if isinstance(r, Cls) and not s.rebound(r): return frozenset({r}) if all(isinstance(b, Cls) or b == ('ext', 'builtins.object') for q in s.p.mro(r) for b in q.bases) else None
        cs = [c for c in s.p.callees(e, f) if isinstance(c, (Func, Cls))]
        if not cs or any(isinstance(c, Cls) for c in cs): return None
        if not s.p.callees(e, f, cha=False): return None
        if isinstance(e.func, ast.Attribute) and not isinstance(r, Func):
            own = isinstance(e.func.value, ast.Name) and e.func.value.id == s.me(f)
            k = s.of(e.func.value, f)
            if not own and not (k and all(isinstance(t, Cls) for t in k)): return None
        if any((c.module.name, c.name) in s.redefined() for c in cs): return None
        out = set()
        for c in cs:
            k = s.returns(c)
            if k is None: return None
            out |= k
        return frozenset(out)

    def redefined(s):
        if not hasattr(s, '_red'): s._red = {(m.name, n) for m in s.p.modules.values() for n in set(m.globals) & (set(m.imports) | set(m.classes) | set(m.funcs))}
        return s._red

    def rebound(s, c): return (c.module.name, c.name) in s.redefined() or any(n == c.name for _, n in s.redefined())

    # ---- what a kind can do
    def has(s, t, a):
        if isinstance(t, Cls):
            if any(not isinstance(b, Cls) and b != ('ext', 'builtins.object') for k in s.p.mro(t) for b in k.bases): return True
            return s.p.find_method(t, a) is not None or hasattr(object, a) or any(a in k.attrs for k in s.p.mro(t))
        if a == '__call__': return t in (FUN, METH, type)
        if t is MOD: return True if not a.startswith('__') else hasattr(types.ModuleType, a)
        return hasattr(t, a)

    def binop(s, op, a, b):
        """can a op b work (True if not sure)"""
        if isinstance(a, Cls) or isinstance(b, Cls): return True
        try:
            x, y = SAMPLE[a], SAMPLE[b]
        except KeyError: return not (a in (FUN, METH, MOD) or b in (FUN, METH, MOD)) if not isinstance(op, ast.Mod) else True
        if isinstance(op, ast.Mod) and a in (str, bytes): return True
        try: OPS[type(op)](x, y); return True
        except TypeError: return False
        except Exception: return True


SAMPLE = {str: 'a', int: 2, float: 2.0, bool: True, list: [1], dict: {1: 1}, set: {1}, tuple: (1,), NONE: None, bytes: b'a', range: range(1), frozenset: frozenset({1})}
import operator as _o
OPS = {ast.Add: _o.add, ast.Sub: _o.sub, ast.Mult: _o.mul, ast.Div: _o.truediv, ast.FloorDiv: _o.floordiv, ast.BitOr: _o.or_, ast.BitAnd: _o.and_, ast.BitXor: _o.xor, ast.Pow: _o.pow, ast.Mod: _o.mod,
       ast.LShift: _o.lshift, ast.RShift: _o.rshift, ast.Lt: _o.lt, ast.LtE: _o.le, ast.Gt: _o.gt, ast.GtE: _o.ge}
IOPS = {ast.Add: _o.iadd, ast.BitOr: _o.ior, ast.Sub: _o.isub, ast.BitAnd: _o.iand}


class Reach:
    """kinds at a place: only the assignments that reach it"""
    def __init__(s, K, f): s.K, s.f, s.p = K, f, K.p; s.ins = {}; s.me = K.me(f); s.node = {}

    def text(s, e):
        if isinstance(e, ast.Name): return e.id
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == s.me: return f'{s.me}.{e.attr}'
        return None

    def stores(s, t):
        """node -> stores to t"""
        if not hasattr(s, 'st'):
            s.st, s.calls = {}, set()
            for n in cfg_of(s.f).nodes:
                call = False
                for x in node_walk(n):
                    if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        q = s.text(x)
                        if q: s.st.setdefault(q, {}).setdefault(n, []).append(x)
                    elif isinstance(x, (ast.Call, ast.Yield, ast.Await)): call = True
                if call and s.touched(n): s.calls.add(n)
        return s.st.get(t, {})

    def touched(s, n):
        """may something called here assign the attribute"""
        for x in node_walk(n):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Name) and (x.func.id in CALLS or x.func.id in PRINTERS) and not s.p.is_local(x.func.id, s.f): continue
                if is_log_call(x, s.f, s.p): continue
                if isinstance(x.func, ast.Attribute) and x.func.attr in MUTE: continue
                return True
            if isinstance(x, (ast.Yield, ast.Await)): return True
        return False

    def reaching(s, t):
        if t in s.ins: return s.ins[t]
        cfg = cfg_of(s.f); attr = '.' in t
        ins = {cfg.entry: frozenset({'entry'})}; st = [cfg.entry]; gen = {}
        for n, w in s.stores(t).items(): gen[n] = frozenset(w)
        while st:
            n = st.pop(); i = ins[n]
            if n in gen:
                o = gen[n] | (i if any(isinstance(w._parent, ast.AugAssign) for w in gen[n]) or n.kind in ('foriter', 'forhead', 'handler', 'case') or any(isinstance(q, ast.comprehension) for w in gen[n] for q in ancestors(w)) else frozenset())
            else: o = i
            if attr and n in s.calls: o = o | {'entry'}
            for q, l in n.succ:
                v = o if l != 'exc' else i | o
                old = ins.get(q)
                if old is None or not v <= old:
                    ins[q] = v if old is None else old | v; st.append(q)
        s.ins[t] = ins
        return ins

    def of(s, e, n):
        """kind of e at node n"""
        K, f = s.K, s.f
        k = K.of(e, f)
        t = s.text(e)
        if t is None:
            if isinstance(e, ast.BinOp) or isinstance(e, ast.IfExp): return k
            return k
        if '.' not in t and (t in f.allparams and not s.anywhere(t) or t not in f.allparams and t not in s.p.locals_of(f)): return k
        if not s.anywhere(t): return k
        if '.' not in t:
            K.name(ast.Name(t, ast.Load()), f)
            st = K.g[f]
            if t in st[0] or t in st[2] or None in st[1].get(t, []) or 'import' in st[1].get(t, []): return k
        elif e.attr in K.elsewhere: return k
        r = s.reaching(t).get(n)
        if r is None: return k
        if 'entry' in r:
            if '.' in t or t in f.allparams: return k
            r = r - {'entry'}
        out = K.values([(K.stored(w), f) for w in r])
        return out if out else k

    def anywhere(s, t):
        return bool(s.stores(t))


MUTE = {n for t in (str, list, dict, set) for n in dir(t) if not n.startswith('_')} | {'exists', 'isfile', 'isdir', 'listdir', 'makedirs', 'getcwd'}


class Misuse:
    """uses that none of the possible kinds of a value allows"""
    def __init__(s, p, guarded=None, attrs=None): s.K = Kinds(p); s.p = p; s.guarded = guarded or (lambda x: False); s.attrs = attrs

    def uses(s, f):
        """(node, what is wrong or '')"""
        K = s.K; R = Reach(K, f); ok = reachable(cfg_of(f).entry)
        def say(ks): return ' or '.join(sorted(kname(k) for k in ks))
        for n in cfg_of(f).nodes:
            if n not in ok: continue
            if n.kind == 'stmt' and isinstance(n.ast, ast.Assert): continue
            for x in node_walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    k = R.of(x.value, n)
                    if not k or MOD in k: continue
                    def fits(t):
                        if isinstance(t, Cls):
                            a = s.attrs(t) if s.attrs else None
                            return a is None or x.attr in a or x.attr in K.elsewhere
                        return K.has(t, x.attr) or t is FUN
                    yield x, '' if any(fits(t) for t in k) or s.guarded(x) or s.tested(x.value, x, f) else f'reads {ast.unparse(x)[:60]}, but {ast.unparse(x.value)[:40]} is always {say(k)}'
                elif isinstance(x, ast.Call):
                    k = R.of(x.func, n) if isinstance(x.func, (ast.Name, ast.Attribute, ast.Constant, ast.Dict, ast.List, ast.JoinedStr)) else None
                    if k and not s.tested(x.func, x, f):
                        yield x, '' if any(K.has(t, '__call__') and t is not MOD for t in k) else f'calls {ast.unparse(x.func)[:60]}, which is always {say(k)}'
                    if isinstance(x.func, ast.Name) and x.func.id in ('len', 'sorted', 'enumerate', 'sum', 'iter', 'list', 'set', 'tuple') and len(x.args) >= 1 and not s.p.is_local(x.func.id, f) and not isinstance(x.args[0], ast.Starred):
                        k = R.of(x.args[0], n)
                        if k and not s.tested(x.args[0], x, f):
                            need = '__len__' if x.func.id == 'len' else '__iter__'
                            yield x, '' if any(K.has(t, need) or need == '__iter__' and K.has(t, '__getitem__') for t in k) else f'takes {x.func.id}({ast.unparse(x.args[0])[:40]}), which is always {say(k)}'
                elif isinstance(x, ast.Subscript):
                    k = R.of(x.value, n)
                    if not k or s.tested(x.value, x, f): continue
                    need = {ast.Load: '__getitem__', ast.Store: '__setitem__', ast.Del: '__delitem__'}[type(x.ctx)]
                    if any(t is type for t in k): continue
                    yield x, '' if any(K.has(t, need) for t in k) else f'uses {ast.unparse(x)[:60]}, but {ast.unparse(x.value)[:40]} is always {say(k)}'
                elif isinstance(x, ast.BinOp):
                    a, b = R.of(x.left, n), R.of(x.right, n)
                    if a and b and not s.tested(x.left, x, f) and not s.tested(x.right, x, f):
                        yield x, '' if any(K.binop(x.op, t, u) for t in a for u in b) else f'computes {ast.unparse(x)[:60]} of {say(a)} and {say(b)}'
                elif isinstance(x, ast.Compare) and len(x.ops) == 1:
                    a, b = R.of(x.left, n), R.of(x.comparators[0], n)
                    if isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and a and b and not s.tested(x.left, x, f) and not s.tested(x.comparators[0], x, f):
                        yield x, '' if any(K.binop(x.ops[0], t, u) for t in a for u in b) else f'compares {ast.unparse(x)[:60]}: {say(a)} and {say(b)}'
                    if isinstance(x.ops[0], (ast.In, ast.NotIn)) and b and not s.tested(x.comparators[0], x, f):
                        yield x, '' if any(any(K.has(t, w) for w in ('__contains__', '__iter__', '__getitem__')) for t in b) else f'looks for something in {ast.unparse(x.comparators[0])[:60]}, which is always {say(b)}'
                elif isinstance(x, ast.comprehension) or n.kind == 'foriter' and x is (n.ast.iter if isinstance(n.ast, ast.For) else n.ast):
                    it = x.iter if isinstance(x, ast.comprehension) else x
                    k = R.of(it, n)
                    if k and not s.tested(it, x, f): yield it, '' if any(K.has(t, '__iter__') or K.has(t, '__getitem__') for t in k) else f'goes through {ast.unparse(it)[:60]}, which is always {say(k)}'
            if n.kind == 'stmt' and isinstance(n.ast, ast.AugAssign):
                a, b = R.of(load(n.ast.target), n), R.of(n.ast.value, n)
                if a and b and not s.tested(n.ast.target, n.ast, f):
                    good = any(K.binop(n.ast.op, t, u) or inplace(n.ast.op, t, u) for t in a for u in b)
                    yield n.ast, '' if good else f'computes {ast.unparse(n.ast)[:60]} of {say(a)} and {say(b)}'

    def tested(s, e, x, f):
        """under a test of what kind of thing it is"""
        t = ast.unparse(e)
        for q in ancestors(x):
            if isinstance(q, (ast.If, ast.IfExp, ast.While, ast.BoolOp)):
                for y in ast.walk(q.test if not isinstance(q, ast.BoolOp) else q):
                    if isinstance(y, ast.Call) and callname(y) in ('isinstance', 'type', 'hasattr', 'callable') and y.args and ast.unparse(y.args[0]) == t: return True
                    if isinstance(y, (ast.Name, ast.Attribute)) and ast.unparse(y) == t and not (isinstance(q, ast.BoolOp) and any(y is z for z in ast.walk(x))): return True
            if isinstance(q, (ast.FunctionDef, ast.Lambda)): break
        return False


_loads = {}
def load(t):
    """the target of an augmented assignment as it is read"""
    if id(t) not in _loads:
        import copy
        par = getattr(t, '_parent', None)
        n = ast.copy_location(type(t)(**{k: getattr(t, k) for k in t._fields if k != 'ctx'}, ctx=ast.Load()), t)
        n._parent = par
        _loads[id(t)] = (n, t)
    return _loads[id(t)][0]


def inplace(op, a, b):
    if type(op) not in IOPS or a not in SAMPLE or b not in SAMPLE: return False
    import copy
    try: IOPS[type(op)](copy.copy(SAMPLE[a]), SAMPLE[b]); return True
    except TypeError: return False
