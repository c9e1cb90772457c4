"""C02: exporting everything runs the same exporters whatever the running mode, reports each one's own result, and one failing
exporter does not take the others down.

Rule: the flow of the export-everything method is analysed once per configuration (debugging / one process / several processes /
several processes with a timeout), with helpers in line and every exporter call opaque.  In the dictionary returned:
 - every key carries the result of exactly one exporter, called with that exporter's own folder, the same in every configuration;
    An optional export that was not asked for is not run and reports None;
 - no two keys share an exporter, no two exporters share a folder, and every exporter that is run is reported;
 - every public exporter method of the class is run (EXEMPT lists those that are not part of it);
 - when not debugging, every exporter call is inside a handler for all exceptions that goes on and yields a false result."""
import re
from common import *
from absint import *

RULE = __doc__
ASSUMPTIONS = ['the three optional exports are requested (their want-flags are true); they are exempt from nothing else',
               'when the parallel run times out the code documents that success is assumed: only the number of results is checked there',
               'pool.map / map_async / imap / starmap apply the helper to the elements in order and keep the order of the results']
EXEMPT = {'toBOSJSONBible': 'a service for Bible-app back ends with its own source parameters; not one of the export-all formats'}
ANCHOR = ('BibleOrgSys.BibleWriter', 'BibleWriter', 'doAllExports')
G = 'BibleOrgSysGlobals.'


def catches_all(handlers):
    for h in handlers:
        t = h.type
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        if t is None or any(isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException') for x in ts): return True
    return False


class Exports:
    def __init__(self, p, cls, f):
        self.p, self.cls, self.f = p, cls, f
        self.exporters = {m for m in self.methods(cls) if re.match(r'to[A-Zt]\w*|make[A-Z]\w*s$', m) and self.takes_folder(m)}

    def optional(self):
        """{exporter: its want-flag}: exporters run only if asked for; wantX parameters of the driver name them"""
        alias = {'pdf': 'tex'}
        out = {}
        for prm in self.f.params:
            if not prm.startswith('want'): continue
            w = prm[4:].lower().rstrip('s')
            for m in self.exporters:
                if m[2:].lower() == alias.get(w, w): out[m] = prm
        return out

    def types(self):
        """the kinds of Bible that the driver tells apart"""
        out = set()
        for n in own_nodes(self.f.node):
            if isinstance(n, ast.Compare) and any(isinstance(x, ast.Attribute) and x.attr == 'objectTypeString' for x in [n.left] + n.comparators):
                out |= {c.value for x in [n.left] + n.comparators for c in ast.walk(x) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
        return sorted(out)

    def methods(self, c):
        out = {}
        for k in reversed(self.p.mro(c)): out.update(k.methods)
        return out

    def takes_folder(self, m):
        g = self.p.find_method(self.cls, m)
        return len(g.params) >= 2 and 'outputFolder' in g.params[1]

    def analyse(self, mode, wants=None, kind='USFM3'):
        """wants: the want-flags that are set (None: all)"""
        p = self.p
        a = {}
        debug = mode.startswith('debugging'); procs = mode.startswith('parallel')
        for k, v in (('debugFlag', debug), ('maxProcesses', 4 if procs else 1), ('alreadyMultiprocessing', False) ):
            a[G + k] = const(v)
        a['self.objectTypeString'] = const(kind); a['self.projectName'] = const('x'); a['self.doneSetupGeneric'] = FALSE
        runs = []; problems = []; guards = set(); raises = []

        def on_call(ip, call, atom, args, kw, st):
            r = map_methods(ip, call, atom, args, kw, st)
            if r is not None: return r
            if atom[0] == 'meth' and atom[1] in self.exporters:
                guarded = any(catches_all(h) for h in ip.try_stack)
                guards.update(id(h) for hs in ip.try_stack for h in hs)
                folder = args[0] if args else kw.get('outputFolderpath', NONE)
                r = op(f'call:{atom[1]}', folder, const('guarded' if guarded else 'unguarded'))
                runs.append((atom[1], folder, guarded, call))
                return r
            if atom[0] == 'op' and atom[1] == 'attr':
                base, attr = atom[2]; attr = next(iter(attr))[1]
                if attr in ('map', 'map_async', 'imap', 'starmap', 'starmap_async') and len(args) >= 2:
                    s = args[1]
                    if len(s) == 1 and next(iter(s))[0] == 'seq':
                        # run in a worker: handlers of the parent do not help there
                        saved, ip.try_stack = ip.try_stack, []
                        try:
                            res = []
                            for x in next(iter(s))[2]:
                                xs = list(next(iter(x))[2]) if attr.startswith('star') and len(x) == 1 and next(iter(x))[0] == 'seq' else [x]
                                res.append(ip.apply(args[0], xs, {}, call, st))
                        finally: ip.try_stack = saved
                        l = seq('list', res)
                        return l if attr in ('map', 'imap', 'starmap') else op('async', l)
                    return mix(*args)
                for b in base:
                    if b[0] == 'op' and b[1] == 'async':
                        if attr == 'ready': return const(mode != 'parallel-timeout')
                        if attr == 'get': return b[2][0]
                        if attr in ('wait',): return NONE
            return None

        def on_branch(ip, kind, info, node, st):
            if kind == 'raise': raises.append((node, ip.f))
            if kind in ('unpack', 'zip', 'assert-false'): problems.append((kind, info, node, ip.f))

        def policy(g):
            if g.name in self.exporters or g.cls is None and g.parent is None: return False
            if g.cls is not None and g.module.name == self.f.module.name:
                # helpers of the driver: those that take part in running exporters (called with a function or a folder)
                return self.mentions_exporter(g)
            return g.parent is not None

        ip = Interp(p, assume=a, on_call=on_call, policy=policy, on_branch=on_branch)
        args = {prm: const(wants is None or prm in wants) for prm in self.f.params if prm.startswith('want')}
        args.update({self.f.params[1]: op('folder', const('given'))} if len(self.f.params) > 1 else {})
        val, st = ip.run(self.f, args)
        maps = [x for x in val if x[0] == 'map'] if val else []
        if any(x[0] not in ('const', 'undef', 'map') for x in val or ()): maps = []
        for node, g in raises:
            n = node
            while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                if isinstance(n, ast.ExceptHandler) and id(n) in guards and not debug: problems.append(('raise', None, node, g)); break
                n = getattr(n, '_parent', None)
        return maps, runs, problems

    def mentions_exporter(self, g, depth=0):
        """a driver helper: it is reached from the driver and calls a function it was given, or calls an exporter itself"""
        if not hasattr(self, '_me'): self._me = {}
        if g in self._me: return self._me[g]
        self._me[g] = False
        ok = False
        prms = set(g.params)
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and self.p.is_local(n.func.id, g): ok = True
                if isinstance(n.func, ast.Call) and callname(n.func) == 'getattr': ok = True
                if isinstance(n.func, ast.Subscript): ok = True
            if isinstance(n, ast.Attribute) and n.attr in self.exporters: ok = True
        if not ok:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call):
                    for c in self.p.callees(n, g, cha=False):
                        if isinstance(c, Func) and c.cls is not None and c is not g and c.name not in self.exporters and self.mentions_exporter(c, depth+1): ok = True
        if g.name == 'doAllExports': ok = False
        self._me[g] = ok
        return ok


def is_res(a): return a[0] == 'op' and a[1].startswith('call:') and len(a[2]) == 2
def falsy(a): return a[0] == 'const' and not a[1]


def decide(p, r, cls, f, modes, kinds=True):
    """modes: of 'debugging', 'single process', 'parallel', 'parallel-timeout'"""
    ex = Exports(p, cls, f)
    r.count('exporter_methods', len(ex.exporters))
    optional = ex.optional()
    byname = {}
    for mode in modes:
        maps, runs, problems = ex.analyse(mode)
        trouble(r, mode, problems)
        if len(maps) != 1:
            r.find(f'{mode}/result', f.where(), f'in the {mode} configuration the method does not always return the same one dictionary of results'); continue
        d = dict(maps[0][1])
        r.count(f'result_keys[{mode}]', len(d))
        reported = {}
        if mode == 'parallel-timeout': continue
        for key, v in d.items():
            res = {a for a in v if is_res(a)}
            names = {(a[1][5:], a[2][0]) for a in res}
            others = [a for a in v if not is_res(a)]
            if len(names) != 1:
                r.find(f'{mode}/{key}', f.where(), f'in the {mode} configuration result {key!r} is ' + (f'that of {sorted(n for n,_ in names)}' if names else f'not the result of any exporter ({sorted(map(str, others))[:3]})')); continue
            (nm, folder), = names
            reported.setdefault(nm, []).append(key)
            byname.setdefault(key, {})[mode] = (nm, folder)
            r.count('key_results')
            if any(a[0] == 'undef' for a in others):
                r.find(f'{mode}/{key}/undefined', f.where(), f'in the {mode} configuration result {key!r} can be left unassigned')
            if mode != 'debugging':
                if any(next(iter(a[2][1]))[1] == 'unguarded' for a in res):
                    r.find(f'{mode}/{nm}/unguarded', f.where(), f'in the {mode} configuration {nm} runs outside any handler for all exceptions: its failure stops the other exports')
                elif not any(falsy(a) and a[1] is not None for a in others):
                    r.find(f'{mode}/{nm}/failure', f.where(), f'in the {mode} configuration a failure of {nm} is not turned into a False result')
            if ('const', None) in others:
                r.find(f'{mode}/{nm}/skipped', f.where(), f'in the {mode} configuration {nm} is asked for but there are conditions in which None is reported instead of running it')
        ran = {n for n, _, _, _ in runs}
        for n in sorted(ex.exporters - ran - set(EXEMPT)):
            r.find(f'{mode}/{n}/not-run', f.where(), f'in the {mode} configuration the exporter {n} is never run')
        for n in sorted(ran - set(reported)):
            r.find(f'{mode}/{n}/unreported', f.where(), f'in the {mode} configuration the result of {n} is not in the returned dictionary')
        for n, keys in reported.items():
            if len(keys) > 1: r.find(f'{mode}/{n}/shared', f.where(), f'in the {mode} configuration {sorted(keys)} all report the result of {n}')
        same_folder(r, f, mode, runs)
        r.count('exporters_run', len(ran))
    # each subset of the optional exports: what was not asked for is not run and reports None, what was asked for is run
    wants = sorted(set(optional.values()))
    subsets = [(), *((w,) for w in wants)] if wants else []
    for mode in modes:
        for ws in subsets:
            label = f'{mode}, ' + (f'only {ws[0]} set' if ws else 'optional exports declined')
            maps, runs, problems = ex.analyse(mode, ws)
            trouble(r, label, problems)
            if len(maps) != 1:
                r.find(f'{label}/result', f.where(), f'in the {label} configuration the method does not always return the same one dictionary of results'); continue
            d = dict(maps[0][1])
            ran = {n for n, _, _, _ in runs}
            for key, ms in byname.items():
                nm = next(iter(ms.values()))[0]
                if key not in d: r.find(f'{label}/{key}', f.where(), f'result {key!r} is missing ({label})'); continue
                if nm not in optional: continue
                r.count('optional_results')
                if optional[nm] not in ws:
                    if d[key] != NONE: r.find(f'{label}/{key}', f.where(), f'result {key!r} is not None although the optional export {nm} was not wanted ({label})')
                    if nm in ran: r.find(f'{label}/{nm}', f.where(), f'the optional export {nm} is run although it is not wanted ({label})')
                elif mode != 'parallel-timeout':
                    if nm not in ran: r.find(f'{label}/{nm}/not-run', f.where(), f'the optional export {nm} is not run although it is wanted ({label})')
                    elif not any(is_res(a) and a[1] == f'call:{nm}' for a in d[key]) or ('const', None) in d[key]:
                        r.find(f'{label}/{key}', f.where(), f'result {key!r} is not the result of {nm} ({label})')
                elif ('const', None) in d[key]:
                    r.find(f'{label}/{key}', f.where(), f'result {key!r} can be None although the optional export {nm} was wanted ({label})')
    # each kind of Bible the driver tells apart: still one folder per exporter, still the same exporter under each key
    for kind in ex.types() if kinds else []:
        for mode in [m for m in modes if m in ('single process', 'parallel')]:
            label = f'{mode}, {kind} Bible'
            maps, runs, problems = ex.analyse(mode, kind=kind)
            r.count('kinds_of_bible')
            trouble(r, label, problems)
            if len(maps) != 1:
                r.find(f'{label}/result', f.where(), f'in the {label} configuration the method does not always return the same one dictionary of results'); continue
            same_folder(r, f, label, runs)
            d = dict(maps[0][1])
            for key, ms in byname.items():
                nm = next(iter(ms.values()))[0]
                got = {a[1][5:] for a in d.get(key, ()) if is_res(a)}
                if got != {nm}: r.find(f'{label}/{key}', f.where(), f'result {key!r} is not the result of {nm} for a {kind} Bible ({mode})')
                elif any(next(iter(a[2][1]))[1] == 'unguarded' for a in d[key] if is_res(a)):
                    r.find(f'{label}/{nm}/unguarded', f.where(), f'{nm} runs outside any handler for all exceptions for a {kind} Bible ({mode})')
    for key, ms in sorted(byname.items()):
        if len({(n, fo) for n, fo in ms.values()}) > 1:
            what = {m: n for m, (n, fo) in ms.items()}
            r.find(f'parity/{key}', f.where(), f'result {key!r} is not the same export in every configuration: {what if len(set(what.values()))>1 else "different folders"}')
        missing = [m for m in modes if m != 'parallel-timeout' and m not in ms]
        if missing and not any(k.startswith(f'{m}/{key}') for m in missing for k in r.findings):
            r.find(f'parity/{key}', f.where(), f'result {key!r} is missing in {missing}')
        r.sample(f'{key}: {next(iter(ms.values()))[0]} in {len(ms)} configurations')


def trouble(r, mode, problems):
    for kind, info, node, g in problems:
        txt = {'unpack': f'{info[0] if info else "?"} values are unpacked into {info[1] if info else "?"} names', 'zip': f'lists of lengths {info} are paired', 'assert-false': 'an assertion is certain to fail',
               'raise': 'the handler of a failing exporter raises again, which stops the other exports'}[kind]
        r.find(f'{mode}/{kind}', g.where(node), f'in the {mode} configuration {txt} ({ast.unparse(node)[:80]})')


def same_folder(r, f, mode, runs):
    folders = {}
    for n, fo, _, call in runs: folders.setdefault(fo, set()).add(n)
    for fo, ns in folders.items():
        if len(ns) > 1: r.find(f'{mode}/folder/{"+".join(sorted(ns))}', f.where(), f'in the {mode} configuration {sorted(ns)} write into the same folder')


MODES = ('debugging', 'single process', 'parallel', 'parallel-timeout')


def run(p, r, tier):
    m = p.modules.get(ANCHOR[0])
    if m is None or ANCHOR[1] not in m.classes: raise AnalysisError('the exporting class has vanished')
    cls = m.classes[ANCHOR[1]]
    f = p.find_method(cls, ANCHOR[2])
    if f is None: raise AnalysisError('the export-everything method has vanished')
    decide(p, r, cls, f, MODES)
    r.floor('exporter_methods', 24)
    r.floor('key_results', 60)


SRC = '''
class W:
 def toA(self, outputFolder=None): return True
 def toB(self, outputFolder=None): return True
 def helper(self, ff):
  fn, folder = ff
  try: r = fn(folder)
  except Exception as e: r = False
  return r
 def go(self, out=None):
  a = out + 'A/'
  b = out + 'B/'
  if BibleOrgSysGlobals.debugFlag:
   ra = self.toA(a); rb = self.toB(b)
  elif BibleOrgSysGlobals.maxProcesses > 1:
   pool = multiprocessing.Pool()
   ra, rb = pool.map(self.helper, zip([self.toA, self.toB], [%s]))
  else:
   try: ra = self.toA(a)
   except Exception: ra = False
   %s
  return {'a': ra, 'b': %s}
'''
def _st(folders, last, key, bad):
    def t():
        from framework import Report
        src = 'import multiprocessing\nfrom BibleOrgSys import BibleOrgSysGlobals\n' + SRC % (folders, last, key)
        p = Project.from_sources({'BibleOrgSys/W.py': src, 'BibleOrgSys/BibleOrgSysGlobals.py': 'debugFlag=False\nmaxProcesses=1\n'})
        r = Report('C02'); c = p.modules['BibleOrgSys.W'].classes['W']
        decide(p, r, c, c.methods['go'], ('debugging', 'single process', 'parallel'))
        return bool(r.findings) == bad
    return t
OKB = 'rb = self.helper((self.toB, b))'
SELFTESTS = [
    ('conforming driver', _st('a, b', OKB, 'rb', False)),
    ('folders swapped when parallel', _st('b, a', OKB, 'rb', True)),
    ('unguarded exporter', _st('a, b', 'rb = self.toB(b)', 'rb', True)),
    ('handler raises again', _st('a, b', 'try: rb = self.toB(b)\n   except Exception:\n    if BibleOrgSysGlobals.strictCheckingFlag: raise\n    rb = False', 'rb', True)),
    ('exporter skipped on some inputs', _st('a, b', 'rb = None\n   if self.books: rb = self.helper((self.toB, b))', 'rb', True)),
    ('wrong result under a key', _st('a, b', OKB, 'ra', True)),
    ('list too short', _st('a', OKB, 'rb', True)),
]
