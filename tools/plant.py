#!/usr/bin/env python3
# Builds /verif/seeded/<id>/ from tools/plants/<id>.py-style definitions and confirms each planted bug:
# applies, builds, keeps the stable tests, demo passes without and fails with it.  usage: plant.py [filter]
import subprocess,sys,os,json,tempfile,glob,runpy
V=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')); R='/repo'
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
HOST='''#!/bin/bash
# exits 0 when the property holds, nonzero when it is broken. Run in the repository's root.
d="$(cd "$(dirname "$0")" && pwd)"; t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -Iinclude "$d/demo.cpp" -o "$t/demo" || exit 4
timeout 120 "$t/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,cwd=R,capture_output=True,text=True,**k)
def tests():
    f=tempfile.mktemp(suffix='.json'); sh(f'bash /opt/vp/build.sh && bash /opt/vp/test.sh {f}')
    try: p=set(json.load(open(f))['passed'])
    except Exception: p=set()
    if os.path.exists(f): os.remove(f)
    return p
def main():
    flt=sys.argv[1] if len(sys.argv)>1 else ''
    assert not sh('git status --porcelain').stdout.strip(),'repo not clean'
    for f in sorted(glob.glob(V+'/tools/plants/*.py')):
        id=os.path.basename(f)[:-3]
        if flt not in id: continue
        g=runpy.run_path(f); d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True)
        try:
            for file,old,new in g['edits']:
                p=f'{R}/{file}'; s=open(p).read(); assert s.count(old)>=1,(id,'pattern not found',old)
                open(p,'w').write(s.replace(old,new,1))
            open(d+'/patch.diff','w').write(sh('git diff').stdout)
        finally: sh('git checkout -- .')
        open(d+'/demo.sh','w').write(g.get('sh',HOST))
        for n,t in g.get('files',{}).items():
            open(f'{d}/{n}','w').write(t)
        if 'fw' in g:
            for n,src in (('chip.hpp',V+'/avr/chip.hpp'),('sim.hpp',V+'/tools/avrdemo/sim.hpp'),('host.h',V+'/fw/host.h'),('demo.sh',V+'/tools/avrdemo/demo.sh')): open(f'{d}/{n}','w').write(open(src).read())
            open(d+'/demo_fw.cpp','w').write(g['fw'])
        if 'demo' in g: open(d+'/demo.cpp','w').write(g['demo'])
        json.dump({'property':g['property'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
        r0=sh(f'bash {d}/demo.sh')
        sh(f'git apply {d}/patch.diff')
        try: t=tests(); r1=sh(f'bash {d}/demo.sh'); b=sh('bash /opt/vp/build.sh')
        finally: sh('git checkout -- .')
        miss=base-t
        ok=r0.returncode==0 and r1.returncode!=0 and r1.returncode not in(3,4) and b.returncode==0 and not miss
        print(id,'OK' if ok else 'BAD','demo',r0.returncode,r1.returncode,'build',b.returncode,'tests missing',sorted(miss)[:3] if miss else 0, (r1.stdout+r1.stderr).strip().splitlines()[-1:] ,'' if ok else r0.stderr[-600:],flush=True)
    tests()
main()
