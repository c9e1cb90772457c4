"""C03: identifying an unknown folder consults every supported format and loads with the format that was found.

Rule: the flow of the identification method is analysed with helpers in line and every format detector opaque.
 - every detector defined by the format modules (EXEMPT lists those outside the automatic search) is consulted about the given
   folder with the same strictness as all the others, and its answer flows into the total that decides whether exactly one Bible
   was found;
 - wherever a detector is asked to load, the state says that the same detector's count was exactly one, and the folder, strictness
   and both auto-load options of the caller are passed on; each format has such a place, with a type label of its own;
 - the more specific formats (PRECEDENCE, from the source's own MUST-be-ahead remarks) have been ruled out before a general one is
   chosen;
 - for every detector alone, every pair of them and none at all, with each combination of the caller's options, given a folder or a
   file (constant propagation, detectors opaque): the search ends as it should - the one format's own label, or a load by it with
   the options of the caller; after a strict search without result the lenient one decides, after a lenient one with several kinds
   the strict one; otherwise nothing is loaded unless loading was insisted on - and no bookkeeping assertion fails."""
import re
from common import *
from absint import *

RULE = __doc__
ASSUMPTIONS = ['what a detector answers is not examined here (C04 covers the detectors)']
EXEMPT = {'LEBXMLBibleFileCheck': 'single-publication format', 'uWNotesBibleFileCheck': 'notes, not a Bible', 'uWOBSBibleFileCheck': 'Bible stories, not a Bible',
          'BCVBibleFileCheck': "the library's own intermediate export format"}
PRECEDENCE = {'USFM2BibleFileCheck': ('ESFMBibleFileCheck', 'PTX8BibleFileCheck', 'PTX7BibleFileCheck', 'ScriptureBurritoBibleFileCheck'),
              'USFMBibleFileCheck': ('ESFMBibleFileCheck', 'PTX8BibleFileCheck', 'PTX7BibleFileCheck', 'ScriptureBurritoBibleFileCheck'),
              'USXXMLBibleFileCheck': ('ScriptureBurritoBibleFileCheck', 'DBLBibleFileCheck')}


def dets_in(v, names, depth=0):
    out = set()
    if depth > 14: return out
    for a in v:
        if a[0] == 'mix':
            for x in a[1]: out |= dets_in(one(x), names, depth+1)
        elif a[0] == 'seq':
            for x in a[2]: out |= dets_in(x, names, depth+1)
        elif a[0] == 'map':
            for _, x in a[1]: out |= dets_in(x, names, depth+1)
        elif a[0] == 'op':
            if a[1].startswith('call:'):
                n = a[1][5:].split('.')[-1]
                if n in names: out.add(n); continue
            for x in a[2]: out |= dets_in(x, names, depth+1)
    return out


def dets_must(v, names):
    """detectors whose answer is part of the number v whatever path made it (an answer known to be zero on a path counts)"""
    out = None
    for a in v:
        d = set()
        if a[0] == 'mix':
            for x in a[1]: d |= dets_must(one(x), names)
        elif a[0] == 'seq':
            for x in a[2]: d |= dets_must(x, names)
        elif a[0] == 'map':
            for _, x in a[1]: d |= dets_must(x, names)
        elif a[0] == 'op':
            n = a[1][5:].split('.')[-1] if a[1].startswith('call:') else None
            if n in names: d.add(n)
            else:
                for x in (a[2][:1] if a[1] == 'Sub' else a[2]): d |= dets_must(x, names)
        out = d if out is None else out & d
    return out or set()


def decide(p, r, f, supported, precedence):
    names = set(supported)
    asked = {}           # strict value -> set of detectors (no auto-load)
    askedargs = {}
    loads = []           # (detector, args, state, node)
    tests = []

    def norm(args, kw, g):
        prm = [x for x in g.params]
        m = dict(zip(prm, args)); m.update(kw); return prm, m

    def on_call(ip, call, atom, args, kw, st):
        if atom[0] == 'name' and atom[1].endswith('path.isdir') or atom[0] == 'op' and callname(call) == 'is_dir': return TRUE
        r_ = map_methods(ip, call, atom, args, kw, st)
        if r_ is not None: return r_
        if atom[0] == 'func':
            g = ip.functions[atom[1]]
            if g.name in names:
                prm, m = norm(args, kw, g)
                loading = [k for k in prm[2:] if k in m and ip.truth(m[k]) is not False]
                folder = m.get(prm[0]); strict = m.get(prm[1], NONE)
                if loading: loads.append((g.name, prm, m, st.copy(), call, ip.f))
                else:
                    asked.setdefault(strict, set()).add(g.name); askedargs.setdefault((g.name, strict), (folder, call, ip.f))
                return op('call:' + g.name, folder or NONE, strict, seq('tuple', [m.get(k, FALSE) for k in prm[2:]]))
        return None

    def on_return(ip, v, st, node): pass
    def policy(g): return g.module is f.module and g is not f
    orig_branch = Interp.branch
    class IP(Interp):
        def branch(self, t, st):
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                for x, y in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
                    v, w = self.eval(x, st), self.eval(y, st)
                    if not all(a[0] == 'const' and isinstance(a[1], int) for a in w) or any(a[0] == 'op' and a[1] == 'call:len' for a in v): continue
                    d = dets_in(v, names)
                    if len(d) >= 2: tests.append((dets_must(v, names), t, self.f, v, st))
            return orig_branch(self, t, st)

    ip = IP(p, assume={'self.folderReadable': TRUE, 'BibleOrgSysGlobals.debugFlag': FALSE}, on_call=on_call, policy=policy)
    val, st = ip.run(f, {})
    prm = [x for x in f.params if x != 'self']
    P = {x: one(('name', f'param:{x}')) for x in prm}
    strictp = next((x for x in prm if 'strict' in x.lower()), None)
    # 1. every format consulted, alike
    first = asked.get(P.get(strictp), set())
    r.count('formats_supported', len(supported)); r.count('detector_calls', sum(map(len, asked.values())))
    for n in sorted(names - first):
        r.find(f'not-consulted/{n}', f.where(), f'{n} is not consulted with the caller\'s strictness')
    for strict, ds in asked.items():
        if strict == P.get(strictp): continue
        for n in sorted(names - ds): r.find(f'recheck/{n}', f.where(), f'{n} is left out of (or asked differently in) the second search with strictness {show(strict)}')
    folders = {}
    for (n, strict), (folder, call, g) in askedargs.items(): folders.setdefault(folder, []).append((n, call, g))
    if len(folders) > 1:
        common = max(folders, key=lambda k: len(folders[k]))
        for fo, l in folders.items():
            if fo != common:
                for n, call, g in l: r.find(f'folder/{n}', g.where(call), f'{n} is asked about {show(fo)}, the others about {show(common)}')
    # 2. the totals
    big = [t for t in tests if len(dets_in(t[3], names)) > len(names) // 2]
    r.count('total_tests', len(big))
    if not big: r.find('total', f.where(), 'no decision is taken on the number of Bibles found')
    for d, t, g, _v, _s in big:
        for n in sorted(names - d):
            r.find(f'total/{n}', g.where(t), f'the answer of {n} is not part of the total tested by `{ast.unparse(t)[:60]}`')
    # 3. loading
    labels = {}
    seen = {}
    strict_first = P.get(strictp)
    for n, gp, m, s, call, g in loads:
        r.count('loading_calls')
        ok = False
        known_false = set()
        for (key, truth) in s.facts:
            if key[0] == 'cmp' and key[3] == const(1):
                ds = dets_in(key[2], names)
                if key[1] == 'Eq' and len(ds) == 1:
                    if truth: ok = ok or ds == {n}
                    else: known_false |= ds
                    if truth and ds != {n}: r.find(f'load/{n}/wrong-count', g.where(call), f'{n} is asked to load when {next(iter(ds))} found one Bible')
            elif key[0] == 'cmp' and key[2] == const(1) and key[1] == 'Eq':
                ds = dets_in(key[3], names)
                if len(ds) == 1 and truth: ok = ok or ds == {n}
        if not ok: r.find(f'load/{n}/unguarded', g.where(call), f'{n} is asked to load although it is not established that it found exactly one Bible')
        for other in precedence.get(n, ()):
            if other in names and other not in known_false:
                r.find(f'precedence/{n}/{other}', g.where(call), f'{n} is chosen before {other} has been ruled out')
            r.count('precedence_pairs')
        for k in gp[1:]:
            want = [x for x in prm if x == k]
            if not want: continue
            got = m.get(k)
            if got is None: r.find(f'load/{n}/{k}', g.where(call), f'the loading call of {n} does not pass on {k}')
            elif not (P[k] <= got and all(a in P[k] or a[0] == 'const' and a[1] is True for a in got)):
                r.find(f'load/{n}/{k}', g.where(call), f'the loading call of {n} passes {show(got)} for {k}')
        fo = m.get(gp[0])
        if folders and fo not in folders: r.find(f'load/{n}/folder', g.where(call), f'{n} is asked to load {show(fo)}')
        lab = s.env.get('self.foundType')
        if lab is None or not all(a[0] == 'const' and isinstance(a[1], str) for a in lab) or len(lab) != 1:
            r.find(f'label/{n}', g.where(call), f'the found type is not set to one label when {n} loads')
        else: labels.setdefault(next(iter(lab))[1], set()).add(n)
        seen[n] = True
    for n in sorted(names - set(seen)): r.find(f'load/{n}/missing', f.where(), f'nothing loads the Bible when {n} is the one that found it')
    for lab, ns in labels.items():
        if len(ns) > 1: r.find(f'label/{"+".join(sorted(ns))}', f.where(), f'{sorted(ns)} share the type label {lab!r}')
        else: r.sample(f'{lab}: {next(iter(ns))}')


class Scenario:
    """the identification method on one combination of detector answers and options, every value a constant, detectors opaque"""
    def __init__(self, p, f, names):
        self.p, self.f, self.names = p, f, names
        self.opts = [x for x in f.params if x != 'self']
        self.strictp = next((x for x in self.opts if 'strict' in x.lower()), None)
        self.autos = [x for x in self.opts if x != self.strictp and x.startswith('auto')]
        self.count = 0

    def run(self, answers, strict, flags, isdir=True, checking=False, depth=0):
        """-> (set of outcomes, problems); outcome: ('text', s) | ('load', detector, folder, strict, loads, books) | ('other',)"""
        names, f, p = self.names, self.f, self.p
        problems = []
        def on_call(ip, call, atom, args, kw, st):
            if atom[0] == 'name' and atom[1].endswith('path.isdir') or atom[0] == 'op' and callname(call) == 'is_dir': return const(isdir)
            r_ = map_methods(ip, call, atom, args, kw, st)
            if r_ is not None: return r_
            if atom[0] in ('func', 'meth'):
                g = ip.functions.get(atom[1] if atom[0] == 'func' else atom[2])
                if g is not None and (g.name in names or g is f):
                    m = dict(zip([x for x in g.params if x != 'self'], args)); m.update(kw)
                    for k, dv in defaults(g).items(): m.setdefault(k, dv)
                    if g is f: return op('restart', *[m.get(k, NONE) for k in self.opts])
                    prm = [x for x in g.params]
                    if any(ip.truth(m.get(k, FALSE)) is not False for k in self.autos if k in prm): return op('load:' + g.name, m.get(prm[0], NONE), m.get(prm[1], NONE), *[m.get(k, FALSE) for k in self.autos])
                    sv = single(m.get(prm[1]))
                    if sv is None: return None
                    return const(answers(g.name, bool(sv[1])))
            return None

        class IP(Interp):
            def e_Name(self, e, st):
                if e.id not in st.env and self.f is f and p.is_local(e.id, f) and e.id not in f.nested: problems.append(('undef', e))
                return Interp.e_Name(self, e, st)
        def on_branch(ip, kind, info, node, st):
            if kind == 'assert-false': problems.append((kind, node))
        ip = IP(p, assume={'self.folderReadable': TRUE, 'BibleOrgSysGlobals.debugFlag': FALSE, 'BibleOrgSysGlobals.strictCheckingFlag': const(checking)},
                on_call=on_call, policy=lambda g: g.module is f.module and g is not f, on_branch=on_branch)
        env = {self.strictp: const(strict)}; env.update({k: const(v) for k, v in flags.items()})
        val, st = ip.run(f, env)
        self.count += 1
        out = set()
        for a in val or ():
            if a[0] == 'const' and isinstance(a[1], str): out.add(('text', a[1]))
            elif a[0] == 'op' and a[1].startswith('load:'):
                fo, sv, *more = a[2]
                loads = [single(x) for x in more]
                out.add(('load', a[1][5:], fo, *[x[1] if x else '?' for x in [single(sv)] + loads]))
            elif a[0] == 'op' and a[1] == 'restart' and depth < 2 and all(single(x) for x in a[2]):
                m = {k: single(x)[1] for k, x in zip(self.opts, a[2])}
                o, pr = self.run(answers, bool(m[self.strictp]), {k: m[k] for k in self.autos}, isdir, checking, depth+1)
                out |= o; problems += pr
            elif a[0] == 'op' and a[1] == 'restart': out.add(('text', '(restarts for ever)' if depth >= 2 else '?')) if depth >= 2 else out.add(('other',))
            elif a[0] == 'op' and (a[1] in ('JoinedStr', 'concat', 'Mod') or a[1] == 'call:attr' and single(a[2][0]) is None and 'format' in str(a[2][0])): out.add(('text', '(composed)'))
            elif a[0] == 'name' and a[1].startswith('self.'): out.add(('stale', a[1]))
            else: out.add(('other',))
        return out, problems


def single(v):
    if v is not None and len(v) == 1 and next(iter(v))[0] == 'const': return next(iter(v))
    return None


def defaults(g):
    a = g.node.args; names = [x.arg for x in a.posonlyargs + a.args]
    return {n: const(d.value) for n, d in zip(names[len(names)-len(a.defaults):], a.defaults) if isinstance(d, ast.Constant)}


def outcomes(p, r, f, supported, precedence, pairs=True):
    """the outcome of the search for every detector alone, every pair of detectors, none at all; each with the options of the caller"""
    S = Scenario(p, f, set(supported))
    order = sorted(supported)
    if not S.strictp or not S.autos: return
    always = [x for x in S.autos if 'always' in x.lower()]
    books = [x for x in S.autos if 'book' in x.lower()]
    load = [x for x in S.autos if x not in always and x not in books]
    def fl(*on): return {x: x in on for x in S.autos}
    combos = [dict(zip(S.autos, [bool(i >> k & 1) for k in range(len(S.autos))])) for i in range(2 ** len(S.autos))]
    plain, auto = fl(), fl(*load)
    labels = {}
    folder = None

    def tell(key, out, problems, ok, what):
        """report only what is certain"""
        r.count('scenarios')
        for kind, node in problems:
            if kind == 'undef': r.find(f'outcome/undefined/{node.id}', f.where(node), f'{node.id} has no value when {what}')
            else: r.find('outcome/assertion', f.where(node), f'`{ast.unparse(node)[:70]}` fails when {what}')
        if not out or ('other',) in out or any(o[0] == 'load' and '?' in o[2:] for o in out): return
        r.count('scenarios_decided')
        if not any(ok(o) for o in out): r.find(key, f.where(), f'when {what} the search ends with {text(out)}')

    def text(out):
        o = sorted(out, key=str)[0]
        return repr(o[1]) if o[0] == 'text' else 'a type left over from before' if o[0] == 'stale' else f'a load by {o[1]} with {o[3:]}' if o[0] == 'load' else 'something else'

    def loaded(d, strict, flags):
        g = supported[d]; prm = g.params
        def ok(o):
            if o[0] != 'load' or o[1] != d or o[3] is not strict: return False
            for k, v in zip(S.autos, o[4:]):
                if k in books and k in prm and v is not flags.get(k): return False
                if k in load and k in prm and not v: return False
            return True
        return ok

    def on(flags): return ', '.join(k for k, v in flags.items() if v) or 'no loading'
    # none at all
    for strict in (True, False):
        for flags in (plain, auto):
            out, pr = S.run(lambda n, s: 0, strict, flags)
            tell('outcome/none', out, pr, lambda o: o[0] == 'text', 'nothing is found')
            labels.setdefault('(none)', set()).update(o[1] for o in out if o[0] == 'text')
    for flags in combos:
        out, pr = S.run(lambda n, s: 0, True, flags, False)
        tell('outcome/none/file', out, pr, lambda o: o[0] == 'text', f'a file is given, nothing is found in it and {on(flags)} is asked for')
    none = labels.get('(none)', set())
    for d in order:
        alone = lambda n, s, d=d: int(n == d)
        out, pr = S.run(alone, True, plain)
        tell(f'outcome/{d}/label', out, pr, lambda o: o[0] == 'text' and o[1] not in none, f'only {d} finds one Bible and nothing is to be loaded')
        labels[d] = {o[1] for o in out if o[0] == 'text'}
        for flags in combos:
            if not any(flags.values()): continue
            for strict in (True, False):
                out, pr = S.run(alone, strict, flags)
                tell(f'outcome/{d}/load', out, pr, loaded(d, strict, flags), f'only {d} finds one Bible and {on(flags)} is asked for')
        # found by the lenient search only
        lenient = lambda n, s, d=d: int(n == d and not s)
        for flags in [c for c in combos if sum(c.values()) <= 1]:
            out, pr = S.run(lenient, True, flags)
            want = loaded(d, False, flags) if any(flags.values()) else (lambda o: o[0] == 'text' and o[1] in labels[d])
            tell(f'outcome/{d}/lenient', out, pr, want, f'only {d} finds one Bible, but not strictly, and {on(flags)} is asked for')
        out, pr = S.run(lenient, True, auto, True, True)
        tell(f'outcome/{d}/strictly-none', out, pr, lambda o: o[0] == 'text' and o[1] in none, f'only {d} finds one Bible, not strictly, and strict checking is insisted on')
        # two of the same type
        out, pr = S.run(lambda n, s, d=d: 2 * (n == d), True, auto)
        tell(f'outcome/{d}/two', out, pr, lambda o: o[0] == 'text' and o[1] not in labels[d] | none, f'{d} finds two Bibles')
        # something that is not a folder
        out, pr = S.run(alone, True, auto, False)
        tell(f'outcome/{d}/file', out, pr, lambda o: loaded(d, True, auto)(o) or o[0] == 'text' and o[1] in none, f'a file is given and {d} would find one Bible')
    for i, d in enumerate(order):
        for j, e in enumerate(order):
            if i == j: continue
            both = lambda n, s: int(n in (d, e))
            if i < j and (pairs or j == i + 1 or e in precedence.get(d, ()) or d in precedence.get(e, ())):
                out, pr = S.run(both, True, auto)
                tell(f'outcome/{d}+{e}/load', out, pr, lambda o: o[0] == 'text' and o[1] not in labels[d] | labels[e] | none, f'{d} and {e} each find one Bible')
                for a in always:
                    out, pr = S.run(both, True, fl(a))
                    first = [x for x, y in ((d, e), (e, d)) if x in precedence.get(y, ())] or [d, e]
                    tell(f'outcome/{d}+{e}/{a}', out, pr, lambda o: any(loaded(x, True, fl(a))(o) for x in first), f'{d} and {e} each find one Bible and {a} is asked for')
            if j == (i + 1) % len(order):
                strictly = lambda n, s: int(n == d or n == e and not s)
                for flags in [c for c in combos if sum(c.values()) <= 1 and not any(c[a] for a in always)]:
                    out, pr = S.run(strictly, False, flags)
                    want = loaded(d, True, flags) if any(flags.values()) else (lambda o: o[0] == 'text' and o[1] in labels[d])
                    tell(f'outcome/{d}/strict', out, pr, want, f'{d} and {e} each find one Bible, only {d} strictly, and {on(flags)} is asked for')


def show(v):
    return ' | '.join(sorted(str(a[1]) for a in v))[:80]


def supported_formats(p):
    out = {}
    for m in p.modules.values():
        if '.Formats.' not in m.name: continue
        for n, g in m.funcs.items():
            if re.match(r'\w+FileCheck$', n) and n not in EXEMPT and not g.demo: out[n] = g
    return out


def run(p, r, tier):
    m = p.modules.get('BibleOrgSys.UnknownBible')
    if m is None or 'UnknownBible' not in m.classes: raise AnalysisError('the identifying class has vanished')
    f = p.find_method(m.classes['UnknownBible'], 'search')
    if f is None: raise AnalysisError('the identification method has vanished')
    decide(p, r, f, supported_formats(p), PRECEDENCE)
    outcomes(p, r, f, supported_formats(p), PRECEDENCE)
    r.floor('formats_supported', 25); r.floor('detector_calls', 25)


T = '''
from BibleOrgSys.Formats.A import AFileCheck
from BibleOrgSys.Formats.B import BFileCheck
from BibleOrgSys.Formats.C import CFileCheck
class U:
 def search(self, strictCheck=True, autoLoad=False, autoLoadBooks=False):
  total = 0
  a = AFileCheck(self.d, strictCheck=strictCheck)
  if a: total += a
  b = BFileCheck(self.d, strictCheck=strictCheck)
  if b: total += %s
  c = CFileCheck(self.d, strictCheck=%s)
  if c: total += c
  if total == 1:
   if a == 1:
    self.foundType = 'A'
    if autoLoad: return AFileCheck(self.d, strictCheck=strictCheck, autoLoad=autoLoad, autoLoadBooks=autoLoadBooks)
   elif %s == 1:
    self.foundType = 'B'
    if autoLoad: return BFileCheck(self.d, strictCheck=strictCheck, autoLoad=autoLoad, autoLoadBooks=%s)
   elif c == 1:
    self.foundType = 'C'
    if autoLoad: return CFileCheck(self.d, strictCheck=strictCheck, autoLoad=autoLoad, autoLoadBooks=autoLoadBooks)
  return self.foundType
'''
T2 = '''
from BibleOrgSys.Formats.A import AFileCheck
from BibleOrgSys.Formats.B import BFileCheck
from BibleOrgSys.Formats.C import CFileCheck
FORMATS = (('A', AFileCheck), ('B', BFileCheck), ('C', CFileCheck))
class U:
 def search(self, strictCheck=True, autoLoad=False, autoLoadBooks=False):
  counts = {}
  total = 0
  for name, check in FORMATS:
   counts[name] = check(self.d, strictCheck=strictCheck)
   total += counts[name]
  if total == 1:
   for name, check in FORMATS:
    if counts[name] == 1:
     self.foundType = name
     if autoLoad: return check(self.d, strictCheck=strictCheck, autoLoad=autoLoad, autoLoadBooks=autoLoadBooks)
     return name
  return self.foundType
'''
def _st(src, bad):
    def t():
        from framework import Report
        srcs = {f'BibleOrgSys/Formats/{x}.py': f'def {x}FileCheck(folder, strictCheck=True, autoLoad=False, autoLoadBooks=False): return 0\n' for x in 'ABC'}
        srcs['BibleOrgSys/U.py'] = src
        p = Project.from_sources(srcs)
        r = Report('C03'); c = p.modules['BibleOrgSys.U'].classes['U']
        decide(p, r, c.methods['search'], supported_formats(p), {'CFileCheck': ('AFileCheck',)})
        return bool(r.findings) == bad
    return t
SELFTESTS = [
    ('conforming', _st(T % ('b', 'strictCheck', 'b', 'autoLoadBooks'), False)),
    ('table driven', _st(T2, False)),
    ('answer not totalled', _st(T % ('a', 'strictCheck', 'b', 'autoLoadBooks'), True)),
    ('other strictness', _st(T % ('b', 'True', 'b', 'autoLoadBooks'), True)),
    ('wrong count tested', _st(T % ('b', 'strictCheck', 'c', 'autoLoadBooks'), True)),
    ('option not passed on', _st(T % ('b', 'strictCheck', 'b', 'autoLoad'), True)),
]
SELFTESTS.append(('answer counted on some paths only', _st((T % ('b', 'strictCheck', 'b', 'autoLoadBooks')).replace('if b: total', 'if b and self.z: total'), True)))
SELFTESTS.append(('counted with a conditional expression', _st((T % ('b', 'strictCheck', 'b', 'autoLoadBooks')).replace('if b: total += b', 'total += b if b else 0'), False)))

FULL = '''
from BibleOrgSys.Formats.A import AFileCheck
from BibleOrgSys.Formats.B import BFileCheck
from BibleOrgSys.Formats.C import CFileCheck
FORMATS = (('A', AFileCheck), ('B', BFileCheck), ('C', CFileCheck))
class U:
 def count(self, strict):
  return {name: check(self.d, strictCheck=strict) for name, check in FORMATS}
 def search(self, strictCheck=True, autoLoad=False, autoLoadAlways=False, autoLoadBooks=False):
  if autoLoadAlways or autoLoadBooks: autoLoad = True
  counts = self.count(strictCheck)
  total = counts['A'] + counts['B'] + counts['C']
  if total == 0:
   self.foundType = 'nothing'
   if strictCheck and not BibleOrgSysGlobals.strictCheckingFlag:
    counts = self.count(False); total = counts['A'] + counts['B'] + counts['C']
    %s
  elif total > 1:
   self.foundType = 'several'
   if not strictCheck:
    other = self.count(True)
    if other['A'] + other['B'] + other['C'] == 1: return self.search(strictCheck=True, autoLoad=autoLoad, autoLoadAlways=autoLoadAlways, autoLoadBooks=autoLoadBooks)
  if total == 1 or %s:
   for name, check in FORMATS:
    if counts[name] == 1:
     self.foundType = name
     if autoLoad: return check(self.d, strictCheck=strictCheck, autoLoad=autoLoad, autoLoadBooks=autoLoadBooks)
     return name
  return self.foundType
'''
def _full(a, b, bad):
    def t():
        from framework import Report
        srcs = {f'BibleOrgSys/Formats/{x}.py': f'def {x}FileCheck(folder, strictCheck=True, autoLoad=False, autoLoadBooks=False): return 0\n' for x in 'ABC'}
        srcs['BibleOrgSys/U.py'] = 'from BibleOrgSys import BibleOrgSysGlobals\n' + FULL % (a, b); srcs['BibleOrgSys/BibleOrgSysGlobals.py'] = 'strictCheckingFlag = False\n'
        p = Project.from_sources(srcs)
        r = Report('C03'); c = p.modules['BibleOrgSys.U'].classes['U']
        outcomes(p, r, c.methods['search'], supported_formats(p), {})
        return bool(r.findings) == bad and (bad or r.counts['scenarios_decided'] == r.counts['scenarios'])
    return t
SELFTESTS += [
    ('second search decides', _full('strictCheck = False', 'autoLoadAlways', False)),
    ('second search loads with the first strictness', _full('pass', 'autoLoadAlways', True)),
    ('second search without effect', _full('total = 0', 'autoLoadAlways', True)),
    ('loads one of several', _full('strictCheck = False', 'autoLoad', True)),
]
