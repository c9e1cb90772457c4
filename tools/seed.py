#!/usr/bin/env python3
"""usage: seed.py SEED-ID [--keep]   confirm a planted bug in /repo: applies patch, builds, runs the stable tests, demo, and the check of its property.
   seed.py SEED-ID --new FILE  : (re)create patch.diff from an edit script FILE with  path / <<<< / ==== / >>>> blocks"""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def main():
    sid = sys.argv[1]; d = f'{V}/seeded/{sid}'
    assert not sh('git -C /repo status --porcelain').stdout, 'repo not clean'
    meta = json.load(open(d + '/meta.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    ok = True
    r = sh(f'bash {d}/demo.sh', cwd='/repo')
    print('demo on clean:', r.returncode); ok &= r.returncode == 0
    if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(r.stderr); return
    try:
        b = sh('bash /opt/vp/build.sh'); print('build', b.returncode); ok &= b.returncode == 0
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        res = json.load(open('/tmp/seedtest.json'))
        stable = base.get('passed') or base.get('stable') or base
        failed = set(stable) - set(res.get('passed', []))
        print('stable tests not passing:', len(failed), list(failed)[:3]); ok &= not failed
        r = sh(f'bash {d}/demo.sh', cwd='/repo'); print('demo on patched:', r.returncode, (r.stdout + r.stderr)[-300:]); ok &= r.returncode != 0
        c = sh(f"python3 check.py {meta['property']}", cwd=V); print('check:', c.returncode, c.stdout[-500:])
    finally:
        clean(); sh('bash /opt/vp/build.sh')
    print(sid, 'COUNTS' if ok else 'DOES NOT COUNT', 'CAUGHT' if c.returncode == 1 else 'MISSED')
main()
