"""Print the event log of a scenario: ev.py PROP INDEX [life] [filter kinds,...] [seed]"""
import os, sys
sys.path.insert(0, '/verif')
if os.environ.get('NFSIM_ENV') != '1':
    env = dict(os.environ, NFSIM_ENV='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
               MPLCONFIGDIR='/tmp', PYTHONPATH=os.environ.get('NFSIM_REPO', '/repo') + ':/verif', PYTHONDONTWRITEBYTECODE='1')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv, env)
from nfsim import check, core, proc
prop = check.props()[sys.argv[1]]
if sys.argv[2].endswith('.json'):
    import json
    sc = json.load(open(sys.argv[2]))['scenario']
else:
    sc = check.scenario(prop, int(sys.argv[5]) if len(sys.argv) > 5 else 1, int(sys.argv[2]), 'quick')
want = int(sys.argv[3]) if len(sys.argv) > 3 else -1
kinds = sys.argv[4].split(',') if len(sys.argv) > 4 and sys.argv[4] else None
hs = []
orig = core.Ctx.life
def life(self, l):
    h = orig(self, l); hs.append((l, h)); return h
core.Ctx.life = life
vs, dig = core.judge(prop, sc)
l, h = hs[want]
import json
print(json.dumps(l))
for i, e in enumerate(h['events']):
    if kinds and e[2] not in kinds: continue
    print(i, e[0], '%.5f' % (e[1]-1000), *[str(x)[:100] for x in e[2:]])
for r in h['runs']: print({k: str(v)[:300] for k, v in (r['outcome'] or {}).items() if k not in ('result','state')})
print(h['exit'], h.get('why'), len(hs), 'lives')
for v in vs: print(v)
proc.remove_scratch()
