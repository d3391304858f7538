"""Run the check of each planted bug's property against a scratch tree with the bug.

python3 tools/catch.py [ids…] [-- extra arguments for nfsim.check]
"""
import json
import os
import subprocess
import sys
import time

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
WT = '/tmp/nfcatch'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


args = sys.argv[1:]
extra = []
if '--' in args:
    extra = args[args.index('--') + 1:]
    args = args[:args.index('--')]
sh('rm -rf %s; mkdir %s; git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q && git add -A && git commit -qm x' % ((WT, ) * 4))
for name in sorted(os.listdir(SEEDED)):
    if args and name not in args:
        continue
    d = os.path.join(SEEDED, name)
    prop = json.load(open(d + '/meta.json'))['property']
    sh('git checkout -q -- .', cwd=WT)
    r = sh('git apply %s/patch.diff' % d, cwd=WT)
    if r.returncode:
        print(name, 'DOES NOT APPLY', r.stdout.decode())
        continue
    t = time.time()
    r = sh('python3 -m nfsim.check %s --tier quick %s' % (prop, ' '.join(extra)), cwd=os.path.dirname(SEEDED),
           env=dict(os.environ, NFSIM_REPO=WT, VERIF_SEED='1'))
    lines = r.stdout.decode().strip().splitlines()
    vio = [l for l in lines if l.startswith('VIOLATION')]
    print('%-38s %s rc %d %5.1fs %s' % (name, 'caught' if vio and r.returncode == 1 else 'MISSED', r.returncode, time.time() - t, (vio or lines[-1:])), flush=True)
    if vio:
        for l in lines:
            if not l.startswith('VIOLATION') and ('kind' in l or ':' in l):
                print('      ', l[:200])
                break
sh('rm -rf ' + WT)
