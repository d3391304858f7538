import os, sys
sys.path.insert(0, '/verif')
if os.environ.get('NFSIM_ENV') != '1':
    env = dict(os.environ, NFSIM_ENV='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
               MPLCONFIGDIR='/tmp', PYTHONPATH=os.environ.get('NFSIM_REPO', '/repo') + ':/verif', PYTHONDONTWRITEBYTECODE='1')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv, env)
from nfsim import check, core, proc
from nfsim.hist import light
prop = check.props()['P04']
sc = check.scenario(prop, int(sys.argv[2]), int(sys.argv[1]), 'quick')
hs = []
orig = core.Ctx.life
def life(self, l):
    h = orig(self, l); hs.append((l, h)); return h
core.Ctx.life = life
print(core.judge(prop, sc)[0])
a, b = hs[-2][1]['runs'][0]['state'], hs[-1][1]['runs'][0]['state']
print(sc['lives'][0]['runs'][0]['search'])
for w in ('nodes', 'rejected'):
    for i, (x, y) in enumerate(zip(a[w], b[w])):
        if light(x) != light(y) or x.get('start') != y.get('start'):
            print(w, i, light(x), light(y)); print(x.get('start')); print(y.get('start')); break
for l, h in hs: print(h['exit'], h.get('why'), (h.get('initial') or {}).get(0, {}).get('positions'))
proc.remove_scratch()
