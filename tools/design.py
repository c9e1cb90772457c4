"""rewrites the generated tables at the end of DESIGN.md (planted bugs, repairs, known findings)"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['<!-- generated by tools/design.py from here on -->', '## Planted bugs', '',
       'Each is caught by the check of its property (confirmed by vcheck). `needs` says what it takes to see it at run time.', '', '| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    out.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
K = json.load(open(os.path.join(V, 'known_findings.json')))
n = {}
for x in K['fixed']:
    q = re.match(r'fixed: property=(\S+) (\S+) (.*)', x, re.S)
    n.setdefault(q[1], []).append((q[2], q[3]))
out += ['', '## Defects repaired', '', 'Every one was found by the check named, confirmed in the code, and repaired in one `fix:` commit of /repo.', '']
for k in sorted(n):
    out.append(f'* {k}: ' + '; '.join(f'{h} {w.strip().split(".")[0][:150]}' for h, w in n[k]) + '.')
out += ['', '## Defects recorded, not repaired (known findings)', '']
g = {}
for x in K['findings']: g.setdefault((x['property'], x['what'][:90]), []).append(x)
for (p, _w), xs in sorted(g.items()): out.append(f"* {p} ({len(xs)}): {xs[0]['what'][:260]}")
f = os.path.join(V, 'DESIGN.md'); s = open(f).read().split(out[0])[0].rstrip() + '\n\n'
open(f, 'w').write(s + '\n'.join(out) + '\n')
