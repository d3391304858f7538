from defs1 import *

bug('p09-wall-time-guard','P09',[(NM,'''    while (fcalls[0] < maxfun and iterations < maxiter):
''','''    start_time = time.time()
    while (fcalls[0] < maxfun and iterations < maxiter):
        if time.time() - start_time > 600 * N:
            # hopeless minimizations should not block the search
            break
'''),(NM,'''import numpy as np
from fsc.export import export
''','''import time

import numpy as np
from fsc.export import export
''')],'evaluations so slow, or a clock which jumps, such that one minimisation takes more than ten minutes per dimension',
'the result of a minimisation depends on how long its evaluations take',
'''
import time
g = points((0.3, 0.35))
now = [1e6]
time.time = lambda: now[0]
time.monotonic, mono = (lambda: now[0]), time.monotonic


def search(dt):
    def gap(pos):
        now[0] += dt
        return g(pos)
    return nf.search.run(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=1, feature_size=0.1, gap_threshold=1e-3,
                         refinement_stencil=None, use_fake_potential=False, num_minimize_parallel=1)


a, b = search(1e-6), search(120.)
f = lambda res: [(tuple(r.pos), r.num_fev, bool(r.success)) for r in list(res.nodes) + list(res.rejected_results)]
check(f(a) == f(b), 'slow evaluations change the result: %r and %r' % (f(a), f(b)))
''')

bug('p10-shrink-by-completion','P10',[(NM,'''                    for j in one2np1:
                        sim[j] = sim[0] + sigma * (sim[j] - sim[0])
                        fsim[j] = await func(sim[j])
''','''                    for j in one2np1:
                        sim[j] = sim[0] + sigma * (sim[j] - sim[0])
                    # the evaluations do not depend on each other
                    for j, fut in zip(
                        one2np1,
                        asyncio.as_completed([func(sim[j]) for j in one2np1])
                    ):
                        fsim[j] = await fut
''')],'a shrink step of the simplex, in which the evaluation of a later vertex returns first',
'function values are paired with the wrong vertices',
'''
def f(pos):
    x, y = pos
    return float(abs(np.sin(7 * x) * np.cos(9 * y)) + 0.1 * (np.floor(13 * x) % 3) + 0.1 * (np.floor(11 * y) % 2) + 0.05)


n = [0]


async def gap(pos):
    n[0] += 1
    await asyncio.sleep(0.002 * (3 - n[0] % 3))
    return f(pos)

res = nf.search.run(gap, limits=[(0, 1)] * 2, periodic=False, initial_mesh_size=4, feature_size=0.1, gap_threshold=1e-3,
                    refinement_stencil=None, use_fake_potential=False, nelder_mead_kwargs={'maxiter': 30})
results = list(res.nodes) + list(res.rejected_results)
check(len(results) == 16, 'wrong number of results')
for r in results:
    for sim, val in zip(r.simplex_history, r.fun_simplex_history):
        for x, v in zip(sim, val):
            check(f(x) == v, 'history lists %r at %r, where the gap is %r' % (v, x, f(x)))
    check(f(r.pos) == r.value, 'reported value is not the gap at the position')
''')

bug('p11-cells-too-small','P11',[(R+'_search_result_container.py','''                    np.array(
                        self.coordinate_system.size / self.dist_cutoff,
                        dtype=int
                    )
''','''                    np.array(
                        np.ceil(
                            self.coordinate_system.size / self.dist_cutoff
                        ),
                        dtype=int
                    )
''')],'two positions closer than the cutoff with a whole (slightly too small) cell between them',
'neighbours within the cutoff are overlooked: refinement centres come too close, known nodes do not prevent evaluations',
'''
from nodefinder.search.result import SearchResultContainer
from nodefinder.coordinate_system import CoordinateSystem
for periodic in (True, False):
    c = SearchResultContainer(coordinate_system=CoordinateSystem(limits=[(0, 1)] * 2, periodic=periodic), gap_threshold=1e-3, dist_cutoff=0.4)
    rng = np.random.RandomState(0)
    pos = rng.rand(60, 2)
    for i, p in enumerate(pos):
        want = sorted(d for d in (float(c.coordinate_system.distance(p, q)) for q in pos[:i]) if d < 0.4)
        got = sorted(float(d) for d in c.get_refined_neighbour_distance_iterator(p) if d < 0.4)
        check(np.allclose(want, got) if len(want) == len(got) else False, 'neighbours within the cutoff: %d instead of %d' % (len(got), len(want)))
        c.set_refined(p)
''')

bug('p12-wait-before-raising','P12',[(C,'''                if exceptions:
                    raise exceptions[0]
''','''                if exceptions:
                    # don't leave minimizations behind
                    running = self.task_futures - set(done_futures)
                    if running:
                        await asyncio.wait(running)
                    raise exceptions[0]
''')],'a failing evaluation while another one is slow or never returns',
'the failure surfaces only after all other running minimisations have ended',
'''
async def main():
    n = [0]

    async def gap(pos):
        n[0] += 1
        if n[0] == 8:
            raise ValueError('broken')
        if n[0] > 4:
            await asyncio.sleep(1e6)
        return 1.

    t = asyncio.ensure_future(nf.search.run_async(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=3, feature_size=0.2,
                                                  gap_threshold=1e-3, refinement_stencil=None, num_minimize_parallel=4,
                                                  use_fake_potential=False))
    done, _ = await asyncio.wait([t], timeout=5.)
    check(done, 'the failure does not surface while another evaluation is slow')
    check(isinstance(t.exception(), ValueError), 'wrong outcome')


asyncio.new_event_loop().run_until_complete(main())
''')

bug('p13-shared-kwargs','P13',[(MR,'''        modified_kwargs = dict(nelder_mead_kwargs)
        modified_kwargs['ftol'] = float('inf')
''','''        modified_kwargs = nelder_mead_kwargs
        modified_kwargs.setdefault('ftol', float('inf'))
        modified_kwargs['maxfev'] = None
''')],'two searches with the same nelder_mead_kwargs object, the first with the fake potential and a limit on the evaluations',
'a search changes the settings of its caller, and with them the results of the next search',
'''
kwargs = {'maxfev': 12}
kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.2, gap_threshold=1e-4, refinement_stencil=None)
g = points((0.3, 0.35))
f = lambda res: sorted((tuple(r.pos), r.num_fev) for r in list(res.nodes) + list(res.rejected_results))
alone = f(nf.search.run(g, use_fake_potential=False, nelder_mead_kwargs=dict(kwargs), **kw))
nf.search.run(g, use_fake_potential=True, nelder_mead_kwargs=kwargs, **kw)
after = f(nf.search.run(g, use_fake_potential=False, nelder_mead_kwargs=kwargs, **kw))
check(alone == after, 'a search after another one gives a different result than alone')
''')

bug('p14-wait-for-all','P14',[(C,'''                await asyncio.sleep(0.)

                # Retrieve all exceptions''','''                if self.task_futures:
                    await asyncio.wait(self.task_futures)

                # Retrieve all exceptions''')],'one evaluation which is much slower than the others',
'a stalled minimisation holds up all work that is queued after the current batch',
'''
async def main():
    release = asyncio.get_running_loop().create_future()
    n = [0]

    async def gap(pos):
        n[0] += 1
        if n[0] == 1:
            await release
        await asyncio.sleep(0)
        return 1.

    t = asyncio.ensure_future(nf.search.run_async(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=4, feature_size=0.2,
                                                  gap_threshold=1e-3, refinement_stencil=None, num_minimize_parallel=3,
                                                  use_fake_potential=False, save_file=SAVE, save_delay=0.01,
                                                  nelder_mead_kwargs={'maxiter': 5}))
    last = -1
    for _ in range(100):
        await asyncio.sleep(0.05)
        if n[0] == last:
            break
        last = n[0]
    await asyncio.sleep(0.1)
    st = nf.io.load(SAVE)
    got = len(st.result.rejected_results)
    release.set_result(None)
    await t
    check(got == 15, 'only %d of 15 minimisations were completed while one was stalled' % got)


asyncio.new_event_loop().run_until_complete(main())
''')

bug('p15-potential-at-call','P15',[(MR,'''        return (await func(x)) + fake_pot(x)
''','''        penalty = fake_pot(x)
        return (await func(x)) + penalty
''')],'a node recorded by another minimisation while an evaluation next to it is in flight',
'the fake potential uses the nodes known when the evaluation was started, not when its value arrived',
'''
from nodefinder.search.result import MinimizationResult

async def main():
    loop = asyncio.get_running_loop()
    release = loop.create_future()
    center = np.array([0.25, 0.25])
    held = []

    async def gap(pos):
        d = float(np.linalg.norm(np.array(pos) - center))
        if pos[0] > 0.5 or pos[1] > 0.5:
            if not release.done():
                held.append(tuple(pos))
                await release
            # all of the box lies within the cutoff distance of the node
            return 1. + d
        return d

    t = asyncio.ensure_future(nf.search.run_async(gap, limits=[(0, 1)] * 2, periodic=False, initial_mesh_size=2, feature_size=6.,
                                                  gap_threshold=1e-2, refinement_stencil=None, num_minimize_parallel=4,
                                                  use_fake_potential=True, save_file=SAVE, save_delay=0.01, simplex_check_cutoff=50,
                                                  nelder_mead_kwargs={'maxiter': 60, 'xtol': 1e-3, 'ftol': 1e-3}))
    for _ in range(300):
        await asyncio.sleep(0.02)
        if os.path.exists(SAVE) and len(nf.io.load(SAVE).result.nodes) > 0:
            break
    else:
        check(False, 'no node was found')
    release.set_result(None)
    res = await t
    node = next(iter(res.nodes))
    late = [r for r in list(res.nodes) + list(res.rejected_results) if any(tuple(v) in held for v in r.ancestor.simplex_history[0])]
    check(late, 'no evaluation was in flight')
    for r in late:
        for x, v in zip(r.ancestor.simplex_history[0], r.ancestor.fun_simplex_history[0]):
            if tuple(x) in held:
                check(np.isinf(v), 'an evaluation which arrived after the node was known counts as %r' % v)


asyncio.new_event_loop().run_until_complete(main())
''')

bug('p16-sweep-without-wrap','P16',[(I+'_cluster.py','''    pos_unique = list(set(tuple(pos) for pos in positions))
''','''    # sorted, such that only a window of positions has to be checked
    pos_unique = sorted(set(tuple(pos) for pos in positions))
'''),(I+'_cluster.py','''        candidates = pos_unique_array[offset:]
''','''        last = np.searchsorted(
            pos_unique_array[:, 0], pos[0] + feature_size, side='right'
        )
        candidates = pos_unique_array[offset:last]
''')],'an object that crosses the boundary of a periodic box in the first direction',
'nodes on both sides of the periodic boundary are not connected, so that one object is split into two',
'''
from nodefinder.coordinate_system import CoordinateSystem
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
rng = np.random.RandomState(1)
pos = [tuple((np.array([0., 0.5]) + 0.02 * rng.randn(2)) % 1) for _ in range(12)]
res = nf.identify.run_from_positions(pos, coordinate_system=cs, feature_size=0.3)
check(len(res) == 1, 'a nodal point at the edge of the box is identified as %d objects' % len(res))
check(sorted(p for r in res for p in r.positions) == sorted(pos), 'positions lost')
''')

bug('p17-line-nodes-from-edges','P17',[(I+'result/_shapes.py','''        graph_group['nodes'] = np.array(list(self.graph.nodes))
        if self.graph.edges:
            graph_group['edges'] = np.array(list(self.graph.edges))
''','''        if self.graph.edges:
            # the nodes are given by the edges
            graph_group['edges'] = np.array(list(self.graph.edges))
        else:
            graph_group['nodes'] = np.array(list(self.graph.nodes))
'''),(I+'result/_shapes.py','''        graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])
        if''','''        if 'nodes' in graph_group:
            graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])
        if''')],'a line whose graph has edges as well as a node without any',
'nodes of a line without an edge are lost when it is saved',
'''
import networkx as nx
from nodefinder.identify.result import NodalLine
g = nx.Graph()
g.add_edge((0., 0.), (0.1, 0.))
g.add_edge((0.1, 0.), (0.2, 0.))
g.add_node((0.5, 0.))
line = NodalLine(graph=g, degree_count={1: 2, 0: 1})
f = os.path.join(TMP, 'line.hdf5')
nf.io.save(line, f)
back = nf.io.load(f)
check(set(map(tuple, back.graph.nodes)) == set(g.nodes), 'nodes of the line are lost')
check(len(back.graph.edges) == 2, 'edges of the line are lost')
''')

bug('p18-stale-after-partial-load','P18',[(Q,'''        objects = np.array(hdf5_handle['objects'])
''','''        try:
            objects = np.array(hdf5_handle['objects'])
        except (KeyError, OSError):
            # created before the queue was stored
            objects = ()
''')],'a save file in which the data of the queue cannot be read (damage or a read error at that place)',
'a damaged file is used without its queue: the resumed search silently skips all remaining work',
'''
import h5py


class Stop(Exception):
    pass


g = points((0.3, 0.3))
n = [0]


def failing(pos):
    n[0] += 1
    if n[0] == 40:
        raise Stop
    return g(pos)


kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=4, feature_size=0.2, gap_threshold=1e-3, refinement_stencil=None,
          save_file=SAVE, use_fake_potential=False, num_minimize_parallel=1)
try:
    nf.search.run(failing, **kw)
except Stop:
    pass
with h5py.File(SAVE, 'a') as f:
    del f['simplex_queue/objects']
calls = []


def gap(pos):
    calls.append(1)
    return g(pos)


try:
    nf.search.run(gap, load=True, load_quiet=False, **kw)
    raised = False
except Exception:
    raised = True
check(raised and not calls, 'a search continues from a damaged save file')
''')

bug('p05-save-only-after-delay-of-change','P05',[(C,'''        self.save_delay = save_delay
''','''        # do not spend all the time on saving
        self.save_delay = max(save_delay, 1.)
''')],'a save_delay of less than a second, and a kill',
'a save_delay below one second is ignored',
'''
g = points((0.3, 0.3))


async def main():
    n = [0]
    release = asyncio.get_running_loop().create_future()

    async def gap(pos):
        n[0] += 1
        if n[0] > 30:
            await release
        return 1.
    t = asyncio.ensure_future(nf.search.run_async(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=4, feature_size=0.1,
                                                  gap_threshold=1e-3, refinement_stencil=None, save_file=SAVE, save_delay=0.05,
                                                  num_minimize_parallel=1, use_fake_potential=False, nelder_mead_kwargs={'maxiter': 2}))
    await asyncio.sleep(0.6)
    ok = os.path.exists(SAVE) and len(nf.io.load(SAVE).result.rejected_results) > 3
    release.set_result(None)
    await t
    check(ok, 'results are not saved after save_delay')


asyncio.new_event_loop().run_until_complete(main())
''')

bug('p06-remove-only-for-oserror','P06',[(C,'''                except Exception as exc:
                    os.remove(tmpf.name)
                    raise exc''','''                except OSError as exc:
                    os.remove(tmpf.name)
                    raise exc''')],'a failing write that HDF5 reports as RuntimeError or another type',
'temporary files stay behind when writing fails with an error which is not an OSError',
'''
from fsc.hdf5_io import _save_load
real = nf.io.save
fail = [True]
import h5py
orig = h5py.File.close


def close(self):
    w = self.id.valid and self.mode != 'r'
    orig(self)
    if w and fail[0]:
        raise RuntimeError('Unable to flush file (injected)')


h5py.File.close = close
kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.2, gap_threshold=1e-3, refinement_stencil=None,
          save_file=SAVE, use_fake_potential=False)
try:
    nf.search.run(points((0.3, 0.3)), **kw)
    check(False, 'the failing save was passed over')
except RuntimeError:
    pass
check(os.listdir(TMP) == [], 'files stay behind: %r' % os.listdir(TMP))
''')

bug('p03-drop-refined-on-load','P03',[(C,'''                refined_results=initial_state.result.refined_results
''','''                refined_results=[
                    pos for pos in initial_state.result.refined_results
                    if self.coordinate_system.distance(
                        np.array(pos),
                        self.coordinate_system.normalize_position(pos)
                    ) > 0 or not self.coordinate_system.periodic
                ]
''')],'a resumed search in a periodic box',
'refinement centres are lost when a periodic search is resumed',
'''
class Stop(Exception):
    pass


g = points((0.3, 0.3))
n = [0]


def failing(pos):
    n[0] += 1
    if n[0] == 300:
        raise Stop
    return g(pos)


kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=1, feature_size=0.2, gap_threshold=1e-3,
          save_file=SAVE, use_fake_potential=False, num_minimize_parallel=1)
try:
    nf.search.run(failing, **kw)
except Stop:
    pass
a = [tuple(p) for p in nf.io.load(SAVE).result.refined_results]
check(a, 'nothing was refined')
res = nf.search.run(g, load=True, **kw)
b = [tuple(p) for p in res.refined_results]
check(b[:len(a)] == a, 'the refinement centres before the crash are lost')
''')
