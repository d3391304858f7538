import sys, os, json, subprocess, shutil
sys.path.insert(0,'/tmp/bugs')
mod=__import__(sys.argv[1]); ids=sys.argv[2:]
from defs1 import BUGS, HEAD
WT='/tmp/bugs/wt'
PY='/opt/venv/bin/python'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
def reset():
    if not os.path.exists(WT):
        sh('cp -a /repo '+WT)
    sh('git checkout -q -- . && git clean -fdq -e "*.pyc" && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD',cwd=WT)
for id,b in BUGS.items():
    if ids and id not in ids: continue
    if not ids and os.path.exists('/verif/seeded/%s/patch.diff'%id): continue
    reset()
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    ok=True
    for f,a,n in b['subs']:
        p=os.path.join(WT,f); s=open(p).read()
        if s.count(a)!=1: print(id,'SUB does not match',f,s.count(a)); ok=False; break
        open(p,'w').write(s.replace(a,n))
    if not ok: shutil.rmtree(d); continue
    open(d+'/patch.diff','wb').write(sh('git diff',cwd=WT).stdout)
    open(d+'/demo.py','w').write(HEAD+b['demo'])
    open(d+'/demo.sh','w').write('#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\nexec timeout 200 /opt/venv/bin/python "$HERE/demo.py"\n')
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    r1=sh('bash %s/demo.sh'%d,cwd=WT)
    # tests
    env=dict(os.environ,HOME='/root',PYTHONHASHSEED='0',PYTHONDONTWRITEBYTECODE='1',MPLBACKEND='Agg',MPLCONFIGDIR='/opt/mplconfig',OMP_NUM_THREADS='1',PYTHONPATH=WT)
    t=sh(PY+' -m pytest -q -p no:cacheprovider --timeout=300 --no-plot-compare -rA tests 2>&1 | grep "^PASSED"',cwd=WT,env=env).stdout.decode()
    passed={l.split()[1].replace('/','.').replace('.py::','::') for l in t.splitlines()}
    miss=[s for s in stable if s not in passed and not any(s.split('::')[0] in p and s.split('::')[1].split('[')[0] in p for p in passed)]
    reset()
    r0=sh('bash %s/demo.sh'%d,cwd=WT)
    print('%-36s clean %d  bug %d  tests missing %r'%(id,r0.returncode,r1.returncode,miss),flush=True)
    if r0.returncode!=0: print(r0.stdout.decode()[-600:])
    print('    ',r1.stdout.decode().strip().splitlines()[-1:] )
