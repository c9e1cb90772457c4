"""Driver shared by all the checks: findings, known findings, floors, self-tests, evidence, exit codes."""
from __future__ import annotations
import json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from project import Project, AnalysisError


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.findings = {}     # key -> (where, message)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.rule = ''

    def find(self, key, where, message):
        """key: rule + construct, never a line number"""
        k = key
        if k not in self.findings: self.findings[k] = (where, message)

    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        """fewer instances than confirmed by hand = the analysis has lost its anchors"""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError(f'{self.pid}: only {self.counts.get(name,0)} {name} found, at least {minimum} were confirmed by hand')

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path, encoding='utf-8') as f: return json.load(f)


def main(module, pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, a in enumerate(sys.argv):
        if a.startswith('--tier='): tier = a[7:]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        # 1. the rules must still recognise their own positive (violating) and negative (clean) examples
        n_self = 0
        for name, thunk in getattr(module, 'SELFTESTS', []):
            ok = thunk()
            n_self += 1
            if not ok: raise AnalysisError(f'{pid}: self-test {name!r} failed: the rule no longer decides its own example')
        # 2. the real tree
        p = Project()
        r = Report(pid)
        try: module.run(p, r, tier)
        except AnalysisError as err:
            # a construct that was reported can also take the analysis' anchors with it: the report stands
            if not set(r.findings) - {e['key'] for e in load_known()['findings'] if e['property'] == pid}: raise
            r.notes.append(f'the analysis stopped early: {err}')
    except AnalysisError as err:
        print(f'ANALYSIS-BROKEN property={pid} {err}'); sys.exit(2)
    except Exception:
        traceback.print_exc(); print(f'ANALYSIS-BROKEN property={pid}'); sys.exit(2)
    known = {e['key']: e for e in load_known()['findings'] if e['property'] == pid}
    new = {k: v for k, v in r.findings.items() if k not in known}
    old = [k for k in r.findings if k in known]
    for k in sorted(old): print(f'KNOWN-FINDING: property={pid} {k}: {known[k]["what"]}')
    cov = {'explanation': module.RULE, 'modules_parsed': len(p.modules), 'modules_skipped_unparsable': p.skipped,
           'functions_in_tree': sum(len(m.allfuncs) for m in p.modules.values()),
           'counts': r.counts, 'samples': r.samples or ['(no instances to show)'], 'selftests_passed': n_self,
           'known_findings_seen': sorted(old), 'known_findings_not_seen': sorted(set(known) - set(old)), 'notes': r.notes}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time()-t0, 2),
          'violations': len(new),
          'assumptions': getattr(module, 'ASSUMPTIONS', [])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    rep = os.path.join(VERIF, 'evidence', f'{pid}.violations.txt')
    if new:
        with open(rep, 'w', encoding='utf-8') as f:
            for k, v in sorted(new.items()): f.write(f'{v[0]}: [{k}] {v[1]}\n')
        for k, v in sorted(new.items()): print(f'{v[0]}: [{k}] {v[1]}')
        print(f'VIOLATION property={pid} replay={rep}')
        sys.exit(1)
    if os.path.exists(rep): os.remove(rep)
    print(f'OK property={pid} ' + ' '.join(f'{k}={v}' for k, v in r.counts.items()) + f' known={len(old)} wall={time.time()-t0:.1f}s')
    sys.exit(0)
