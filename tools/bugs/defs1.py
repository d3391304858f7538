C='nodefinder/search/_controller.py'; Q='nodefinder/search/_queue.py'; NM='nodefinder/search/_minimization/_nelder_mead.py'
MR='nodefinder/search/_minimization/_run.py'; R='nodefinder/search/result/'; I='nodefinder/identify/'
HEAD='''import asyncio, os, sys, tempfile, shutil, warnings
warnings.simplefilter('ignore')
import numpy as np
import nodefinder as nf
TMP = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, TMP, True)
SAVE = os.path.join(TMP, 'save.hdf5')


def check(ok, msg):
    if not ok:
        print('FAILED: ' + msg)
        sys.exit(1)


def points(*centers):
    def gap(pos):
        return min(float(np.linalg.norm(np.array(pos) - np.array(c))) for c in centers)
    return gap
'''
BUGS={}
def bug(id, prop, subs, needs, breaks, demo):
    BUGS[id]=dict(prop=prop, subs=subs, needs=needs, breaks=breaks, demo=demo)

bug('p01-remove-before-rename','P01',[(C,'''                    os.rename(tmpf.name, self.save_file)
''','''                    # renaming onto an existing file fails on Windows
                    if os.path.exists(self.save_file):
                        os.remove(self.save_file)
                    os.replace(tmpf.name, self.save_file)
''')],'a kill between removing the old file and renaming the new one, at any save but the first',
'the save file is missing for a moment at every save; killed there, nothing is left',
'''
kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.3, gap_threshold=1e-3,
          refinement_stencil=None, save_file=SAVE, save_delay=1e9)
nf.search.run(points((0.3, 0.3)), **kw)
before = open(SAVE, 'rb').read()
pid = os.fork()
if pid == 0:
    def killed(*a, **k):
        os._exit(9)
    os.rename = os.replace = killed
    nf.search.run(points((0.3, 0.3)), load=True, force_initial_mesh=True, **dict(kw, initial_mesh_size=3))
    os._exit(0)
check(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 9, 'not killed while saving')
check(os.path.exists(SAVE), 'the save file is gone after a kill')
check(open(SAVE, 'rb').read() == before, 'the save file changed')
''')

bug('p02-sync-of-replaced-file','P02',[(C,'''                    io.save(self.state, tmpf.name)
''','''                    # h5py should not see a file which is still open here
                    io.save(self.state, tmpf.name + '.h5')
                    os.rename(tmpf.name + '.h5', tmpf.name)
''')],'power loss after the rename: the fsync goes to the file that was replaced under the temporary name',
'the snapshot is renamed over the save file without its data ever being forced to disk',
'''
synced = set()
real = dict(fsync=os.fsync, rename=os.rename, replace=os.replace)


def ino(fd):
    st = os.fstat(fd if isinstance(fd, int) else fd.fileno())
    return st.st_ino


def fsync(fd):
    synced.add(ino(fd))
    return real['fsync'](fd)


bad = []


def mover(name):
    def f(src, dst, *a, **k):
        if os.path.abspath(dst) == SAVE and os.stat(src).st_ino not in synced:
            bad.append(dst)
        return real[name](src, dst, *a, **k)
    return f


os.fsync = fsync
os.fdatasync = fsync
os.rename, os.replace = mover('rename'), mover('replace')
nf.search.run(points((0.3, 0.3)), limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.3,
              gap_threshold=1e-3, refinement_stencil=None, save_file=SAVE)
check(os.path.exists(SAVE), 'nothing saved')
check(not bad, 'a snapshot was put in place without being synced')
''')

bug('p04-running-last','P04',[(Q,'''        return list(self._running_objects) + super().objects
''','''        return super().objects + list(self._running_objects)
''')],'an interruption while simplices are queued, and a resumed serial search',
'the running simplex is resumed last, so nodes are found in a different order and other simplices are skipped',
'''
class Stop(Exception):
    pass


def search(gap, **kw):
    return nf.search.run(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=3, feature_size=0.1, gap_threshold=1e-3,
                         refinement_stencil=None, save_file=SAVE, num_minimize_parallel=1, use_fake_potential=False, **kw)


g = points((0.3, 0.3), (0.8, 0.7))
ref = search(g)
os.remove(SAVE)
n = [0]


def failing(pos):
    n[0] += 1
    if n[0] == 60:
        raise Stop
    return g(pos)


try:
    search(failing)
except Stop:
    pass
res = search(g, load=True)
a = [tuple(x.pos) for x in ref.nodes]
b = [tuple(x.pos) for x in res.nodes]
check(len(a) == len(b) and np.allclose(a, b), 'the resumed search finds other nodes, or in another order')
c = [tuple(x.pos) for x in ref.rejected_results]
d = [tuple(x.pos) for x in res.rejected_results]
check(len(c) == len(d) and np.allclose(c, d), 'the resumed search has other rejected results')
''')

bug('p05-finished-not-dirty','P05',[(Q,'''        self._running_objects.remove(obj)
        self.needs_saving = True
''','''        self._running_objects.remove(obj)
''')],'results which lead to no refinement after the last periodic save',
'results recorded after a save do not count as changes: they are never saved unless something is queued later',
'''
g = points((0.3, 0.3))


async def gap(pos):
    await asyncio.sleep(0.001)
    return g(pos)

res = nf.search.run(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=4, feature_size=0.05, gap_threshold=1e-3,
                    refinement_stencil=None, save_file=SAVE, save_delay=0.02, num_minimize_parallel=2, use_fake_potential=False)
st = nf.io.load(SAVE)
check(len(st.simplex_queue.objects) == 0, 'the final save file still lists work')
check(len(st.result.nodes) + len(st.result.rejected_results) == len(res.nodes) + len(res.rejected_results),
      'the final save file lacks results')
''')

bug('p06-clean-before-written','P06',[(C,'''                    io.save(self.state, tmpf.name)
''','''                    # changes made from here on belong to the next snapshot
                    self.state.needs_saving = False
                    io.save(self.state, tmpf.name)
'''),(C,'''                    os.rename(tmpf.name, self.save_file)
                    self.state.needs_saving = False
''','''                    os.rename(tmpf.name, self.save_file)
''')],'a failing save followed by no further change before the search ends',
'a failed save counts as done: it is not retried, and the search returns normally with stale data on disk',
'''
import errno
fail = [False]
nfail = [0]
real = dict(rename=os.rename, replace=os.replace)


def mover(name):
    def f(src, dst, *a, **k):
        if fail[0] and os.path.abspath(dst) == SAVE:
            nfail[0] += 1
            fail[0] = False
            raise OSError(errno.EIO, 'injected')
        return real[name](src, dst, *a, **k)
    return f


os.rename, os.replace = mover('rename'), mover('replace')
kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=1, feature_size=0.3, gap_threshold=1e-3,
          refinement_stencil=None, save_file=SAVE, save_delay=0.05, use_fake_potential=False, nelder_mead_kwargs={'maxiter': 2})
ncall = [0]


async def gap(pos):
    ncall[0] += 1
    if ncall[0] == 4:
        # one periodic save fails, nothing changes until the end
        fail[0] = True
        await asyncio.sleep(0.3)
    return 1.


def ok():
    st = nf.io.load(SAVE)
    return len(st.result.rejected_results) == 1


# the last and only change is recorded, then saved: make that save fail once
async def main():
    n = [0]

    async def g(pos):
        n[0] += 1
        return 1.
    fail[0] = False
    seen = []

    def bad_save(*a, **k):
        seen.append(1)
    kw2 = dict(kw, save_delay=1e9)
    fail[0] = True
    try:
        await nf.search.run_async(g, **kw2)
        return 'returned'
    except OSError:
        return 'raised'

how = asyncio.new_event_loop().run_until_complete(main())
check(how == 'raised' or (os.path.exists(SAVE) and ok()), 'the search returned although its final state was never saved')

# a slow evaluation during which the periodic save fails once; it has to be tried again
if os.path.exists(SAVE):
    os.remove(SAVE)
seen = []
nfail[0] = 0
fail[0] = True


async def slow(pos):
    if not seen:
        seen.append(1)
        await asyncio.sleep(0.4)
        check(nfail[0] >= 1, 'no save was attempted')
        check(os.path.exists(SAVE), 'the failed save was not tried again')
    return 1.

nfail[0] = 0
nf.search.run(slow, **kw)
''')

bug('p07-fev-of-last-stage','P07',[(R+'_minimization.py','''        'num_fev', 'num_iter', 'simplex_history', 'fun_simplex_history'
''','''        'num_iter', 'simplex_history', 'fun_simplex_history'
''')],'a search with the fake potential, where results consist of two stages',
'num_fev of a result counts only the second stage, so that the evaluation counts do not add up to the calls made',
'''
g = points((0.3, 0.3))
calls = [0]


def gap(pos):
    calls[0] += 1
    return g(pos)

res = nf.search.run(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.3, gap_threshold=1e-3,
                    refinement_stencil=None, use_fake_potential=True)
total = sum(r.num_fev for r in list(res.nodes) + list(res.rejected_results))
check(total == calls[0], 'num_fev adds up to %d of %d calls' % (total, calls[0]))
''')

bug('p07-forget-finished','P07',[(Q,'''        self._running_objects.remove(obj)
        self.needs_saving = True
''','''        self._running_objects.remove(obj)
        self._all_objects.discard(obj)
        self.needs_saving = True
''')],'a stencil simplex around one node which equals a start simplex that has already been minimised (nodes on a grid, or two equal nodes)',
'finished simplices are forgotten and minimised a second time when they are queued again',
'''
# the gap is zero everywhere: every first vertex is a node, and stencils around grid positions coincide
stencil = np.array([[[3., 0.], [3.25, 0.], [3., 0.25]]])
kw = dict(limits=[(0, 8)], periodic=True)
starts = []


async def gap(pos):
    await asyncio.sleep(0)
    return 0. if pos[0] % 1 in (0., 0.25) else 1.

seen = {}
res = nf.search.run(gap, limits=[(0, 8), (0, 8)], periodic=False, initial_mesh_size=(1, 1), feature_size=3., gap_threshold=1e-3,
                    refinement_stencil=np.array([[[1.25, 0.], [1.5, 0.], [1.25, .25]], [[-1.25, 0.], [-1., 0.], [-1.25, .25]]]),
                    use_fake_potential=False, recheck_pos_dist=False, num_minimize_parallel=1, simplex_check_cutoff=10,
                    nelder_mead_kwargs={'xtol': 10., 'ftol': 10.}) if False else None


def run(order):
    hist = []

    async def flat(pos):
        await asyncio.sleep(0)
        return 0. if -0.6 < pos[0] < 8.6 else 1.

    st = np.array([[[2., 0.], [2.25, 0.], [2., 0.25]], [[-2., 0.], [-1.75, 0.], [-2., 0.25]]])
    return nf.search.run(flat, limits=[(0, 8), (0, 8)], periodic=False, initial_mesh_size=(1, 1), feature_size=3., gap_threshold=1e-3,
                         refinement_stencil=st, use_fake_potential=False, recheck_pos_dist=True, num_minimize_parallel=order,
                         simplex_check_cutoff=10, nelder_mead_kwargs={'xtol': 10., 'ftol': 10.})


for p in (1, 3):
    res = run(p)
    keys = [tuple(sorted(tuple(np.round(v, 9)) for v in r.simplex_history[0])) for r in list(res.nodes) + list(res.rejected_results)]
    check(len(keys) > 3, 'too few minimisations')
    check(len(keys) == len(set(keys)), '%d of %d minimisations repeat a start simplex' % (len(keys) - len(set(keys)), len(keys)))
''')

bug('p08-refine-when-idle','P08',[(C,'''                    while not self.state.simplex_queue.has_queued:
                        if self.state.position_queue.has_queued:
''','''                    while not self.state.simplex_queue.has_queued:
                        # running minimizations can still cover the position
                        if self.state.position_queue.has_queued and not self.state.simplex_queue.num_running:
''')],'a refinement position which is queued while another minimisation is still running',
'slots stay empty: refinement waits until every running minimisation has ended',
'''
g = points((0.3, 0.3))
stall = [None]


async def main():
    release = asyncio.get_running_loop().create_future()
    n = [0]

    async def gap(pos):
        n[0] += 1
        if pos[0] > 0.55 and stall[0] is None:
            stall[0] = True
            await release
        return g(pos)

    t = asyncio.ensure_future(nf.search.run_async(
        gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.2, gap_threshold=1e-3,
        num_minimize_parallel=3, use_fake_potential=False, save_file=SAVE, save_delay=0.01))
    last = -1
    for _ in range(200):
        await asyncio.sleep(0.02)
        if n[0] == last:
            break
        last = n[0]
    await asyncio.sleep(0.1)
    st = nf.io.load(SAVE)
    refined, waiting = len(st.result.refined_results), len(st.position_queue.objects)
    release.set_result(None)
    await t
    check(refined > 0 and waiting == 0, '%d positions refined, %d waiting although slots are free' % (refined, waiting))


asyncio.new_event_loop().run_until_complete(main())
''')
