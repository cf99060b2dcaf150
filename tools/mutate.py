#!/usr/bin/env python3
# Informal mutation testing: applies one-line mutants to a scratch copy of /repo and reports which checks notice.
# usage: mutate.py [name-filter] [check,check...]
import subprocess,sys,os,shutil,tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mutants import MUTANTS
flt=sys.argv[1] if len(sys.argv)>1 else ''
force=sys.argv[2].split(',') if len(sys.argv)>2 else None
verif=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
for name,file,old,new,checks in MUTANTS:
    if flt not in name: continue
    d=tempfile.mkdtemp(prefix='mut.',dir='/tmp')
    try:
        r=os.path.join(d,'repo'); subprocess.check_call(['cp','-a','/repo',r])
        p=os.path.join(r,file); s=open(p).read()
        if s.count(old)<1: print(name,'PATTERN NOT FOUND'); continue
        open(p,'w').write(s.replace(old,new,1))
        t=subprocess.run('cmake -S . -B build >/dev/null 2>&1; true',shell=True,cwd=r)
        res=[]
        for c in (force or checks):
            env=dict(os.environ,REPO_DIR=r)
            o=subprocess.run(['bash','check.sh',c,'quick'],cwd=verif,env=env,capture_output=True,text=True)
            cls=[l for l in o.stdout.splitlines() if l.startswith('class:')]
            res.append(f"{c}={'CAUGHT' if o.returncode==1 else 'quiet' if o.returncode==0 else 'ERROR'}{cls[0][6:] if cls else ''}")
        print(name,' '.join(res),flush=True)
    finally: shutil.rmtree(d)
