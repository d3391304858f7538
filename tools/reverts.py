"""Undo each fix in a scratch copy: the check of its property must report it again."""
import json
import os
import subprocess
import sys
import time

WT = '/tmp/nfrev'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


sh('rm -rf %s; git clone -q /repo %s; cd %s; git config user.email x; git config user.name x' % (WT, WT, WT))
fixed = json.load(open('/verif/known_findings.json'))['fixed']
for line in fixed:
    prop = line.split('property=')[1].split()[0]
    commit = line.split()[2]
    if sys.argv[1:] and commit not in sys.argv[1:] and prop not in sys.argv[1:]:
        continue
    sh('git checkout -q -f origin/HEAD', cwd=WT)
    r = sh('git revert --no-edit %s' % commit, cwd=WT)
    if r.returncode:
        print(commit, prop, 'conflicts')
        sh('git revert --abort; git checkout -q -f origin/HEAD', cwd=WT)
        continue
    t = time.time()
    r = sh('python3 -m nfsim.check %s --tier quick' % prop, cwd='/verif', env=dict(os.environ, NFSIM_REPO=WT, VERIF_SEED='1'))
    lines = r.stdout.decode().strip().splitlines()
    vio = [l for l in lines if l.startswith('VIOLATION')]
    why = [l for l in lines if not l.startswith('VIOLATION') and ':' in l]
    print('%s %s %s rc %d %5.1fs %s' % (commit, prop, 'caught' if vio and r.returncode == 1 else 'MISSED', r.returncode, time.time() - t, (why or lines or [''])[0][:140]), flush=True)
sh('rm -rf ' + WT)
