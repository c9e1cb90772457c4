"""mkseed(id, prop, edits, demo, needs, breaks)"""
import os, subprocess, json, sys
V='/verif'
SH='''#!/bin/bash
# run with cwd = the repository; all effects stay in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/home" "$work/cwd"
export HOME="$work/home" PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pyc" LANG=C.UTF-8 LC_ALL=C.UTF-8 SCRATCH="$work"
cd "$work/cwd"
timeout 250 /opt/venv/bin/python "$here/demo.py" </dev/null
'''
def mkseed(sid, prop, edits, demo, needs, breaks):
    d=f'{V}/seeded/{sid}'; os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C /repo status --porcelain',shell=True,capture_output=True,text=True).stdout
    try:
        for fn, old, new, *cnt in edits:
            fp='/repo/'+fn; s=open(fp,encoding='utf-8').read()
            n=s.count(old)
            assert n==(cnt[0] if cnt else 1), (fn, old[:60], n)
            s=s.replace(old,new); open(fp,'w',encoding='utf-8').write(s)
        diff=subprocess.run('git -C /repo diff',shell=True,capture_output=True,text=True).stdout
    finally: subprocess.run('git -C /repo checkout -- .',shell=True)
    open(d+'/patch.diff','w',encoding='utf-8').write(diff)
    open(d+'/demo.sh','w').write(SH)
    open(d+'/demo.py','w',encoding='utf-8').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(['python3',V+'/tools/seed.py',sid],capture_output=True,text=True); print(r.stdout[-2500:], r.stderr[-1500:])
