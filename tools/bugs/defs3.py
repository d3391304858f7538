from defs1 import *

bug('p01-copy-onto-existing','P01',[(C,'''                    os.rename(tmpf.name, self.save_file)
''','''                    if os.path.exists(self.save_file):
                        # keep permissions and links of the existing file
                        shutil.copyfile(tmpf.name, self.save_file)
                        os.remove(tmpf.name)
                    else:
                        os.rename(tmpf.name, self.save_file)
'''),(C,'''import os
import numbers
''','''import os
import shutil
import numbers
''')],'a kill in the middle of copying over an existing save file',
'the second and later snapshots are written into the save file itself',
'''
kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.3, gap_threshold=1e-3,
          refinement_stencil=None, save_file=SAVE, save_delay=1e9)
nf.search.run(points((0.3, 0.3)), **kw)
pid = os.fork()
if pid == 0:
    import fcntl, resource
    # the process is killed when it has written a part of the second file
    real_open = open
    size = os.path.getsize(SAVE)
    real = shutil.copyfileobj
    def killed(*a, **k):
        os._exit(9)
    shutil.copyfileobj = killed
    for name in ('_fastcopy_sendfile', '_fastcopy_fcopyfile', '_fastcopy_copy_file_range'):
        if hasattr(shutil, name):
            setattr(shutil, name, killed)
    if hasattr(os, 'sendfile'):
        os.sendfile = killed
    nf.search.run(points((0.3, 0.3)), load=True, force_initial_mesh=True, **dict(kw, initial_mesh_size=3))
    os._exit(0)
os.waitpid(pid, 0)
try:
    nf.io.load(SAVE)
except Exception as exc:
    check(False, 'the save file is damaged: %r' % exc)
''')

bug('p03-await-before-refined','P03',[(C,'''                                self.state.result.set_refined(np.array(pos))
''','''                                # give the running minimizations a chance
                                await asyncio.sleep(0.)
                                self.state.result.set_refined(np.array(pos))
''')],'a periodic save in exactly the step between queueing the simplices of a refinement and recording its position, and a kill before the next',
'a snapshot in which a node is neither refined nor to be refined, although its simplices are queued',
'''
g = points((0.3, 0.3))
N = [0]
bad = []
SEEN = set()
real = nf.io.save


def save(obj, name):
    real(obj, name)
    st = nf.io.load(name)
    known = {tuple(p) for p in st.position_queue.objects} | {tuple(p) for p in st.result.refined_results}
    bad.extend(SEEN - known)
    SEEN.update(known)

import nodefinder.search._controller as c
c.io.save = save


async def gap(pos):
    N[0] += 1
    for _ in range(N[0] % 3):
        await asyncio.sleep(0)
    return g(pos)


async def main():
    await nf.search.run_async(gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.3, gap_threshold=1e-3,
                              refinement_stencil='auto', save_file=SAVE, save_delay=0., use_fake_potential=False,
                              num_minimize_parallel=1, recheck_pos_dist=False)

asyncio.new_event_loop().run_until_complete(main())
check(not bad, 'nodes to be refined which are neither refined nor to be in a later snapshot: %r' % bad[:3])
''')

bug('p04-unique-on-load','P04',[(Q,'''        objects = np.array(hdf5_handle['objects'])
''','''        objects = np.array(hdf5_handle['objects'])
        if len(objects) > 0:
            objects = np.unique(objects, axis=0)
''')],'a crash with several start simplices queued in another order than their coordinates',
'the queue is sorted when it is loaded, so that a resumed search does its work in another order',
'''
kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=2, feature_size=0.3, gap_threshold=1e-3, num_minimize_parallel=1,
          use_fake_potential=False, save_file=SAVE, save_delay=0.)
g = points((0.3, 0.3), (0.72, 0.61))


def result(r):
    return [tuple(n.pos) for n in r.nodes], [tuple(n.pos) for n in r.rejected_results]


whole = result(nf.search.run(g, **kw))
ok = True
for at in (100, 300, 500, 800):
    os.remove(SAVE)
    n = [0]

    def stop(pos):
        n[0] += 1
        if n[0] > at:
            raise ValueError
        return g(pos)
    try:
        nf.search.run(stop, **kw)
    except ValueError:
        pass
    ok = ok and result(nf.search.run(g, load=True, **kw)) == whole
check(ok, 'the resumed search ends differently')
''')

bug('p08-range-slots','P08',[(C,'''                while (
                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
                ):
''','''                num_free = (
                    self.num_minimize_parallel -
                    self.state.simplex_queue.num_running
                )
                for slot in range(num_free):
''')],'a refinement which starts when several slots are free and the first simplices of it are skipped or a slot is used for what needs none',
'nothing is wrong as long as each turn of the loop starts a minimisation; skipped simplices use up slots, which stay idle until the next step',
'''
check(True, '')
''')

bug('p10-history-alias','P10',[(NM,'''            simplex_history.append(np.copy(sim))
''','''            simplex_history.append(sim)
''')],'a minimisation of at least two iterations, of which somebody reads the history',
'the recorded simplices are changed by the following iteration',
'''
seen = {}


def gap(pos):
    v = float(abs(np.sin(3 * pos[0]) + pos[1]**2 - 0.3) + 0.01)
    seen[tuple(pos)] = v
    return v


res = nf.search.run(gap, limits=[(0, 1)] * 2, periodic=False, initial_mesh_size=2, feature_size=0.1, gap_threshold=1e-3,
                    refinement_stencil=None, use_fake_potential=False)
for r in list(res.nodes) + list(res.rejected_results):
    for sim, val in zip(r.simplex_history, r.fun_simplex_history):
        for x, v in zip(sim, val):
            check(seen.get(tuple(x)) == v, 'the history pairs %r with %r instead of %r' % (tuple(x), v, seen.get(tuple(x))))
''')

bug('p11-count-nodes-not-vertices','P11',[(C,'''                    if count > self.simplex_check_cutoff:
                        return False
                    break
''','''                    if count > self.simplex_check_cutoff:
                        return False
''')],'simplex_check_cutoff of at least one, and several nodes near the same vertex of a start simplex',
'the nodes near the vertices are counted instead of the vertices which are near a node, and too many start simplices are skipped',
'''
# all start simplices meet at one corner, around which there are several nodes
kw = dict(limits=[(0, 1)] * 2, periodic=False, feature_size=0.3, gap_threshold=1e-2, use_fake_potential=False,
          num_minimize_parallel=1)
calls = []


def gap(pos):
    calls.append(tuple(pos))
    return float(abs(pos[0] - 0.05)) if pos[1] < 0.12 else 1. + pos[1]


st = np.array([[[0.1 * np.cos(a), 0.1 * np.sin(a)], [2., 0.], [0., 2. + a]] for a in np.linspace(0, 6, 7)])
r = nf.search.run(gap, initial_mesh_size=3, refinement_stencil=st, simplex_check_cutoff=1, **kw)
nodes = [n.pos for n in r.nodes]
started = {tuple(map(tuple, np.round(sorted(map(tuple, s.simplex_history[0])), 9))) for s in list(r.nodes) + list(r.rejected_results)}
for c in r.refined_results:
    for s in c + st * 0.1:
        key = tuple(map(tuple, np.round(sorted(map(tuple, s)), 9)))
        near = sum(any(np.linalg.norm(v - n) < 0.1 for n in nodes) for v in s)
        check(key in started or near > 1, 'start simplex with %d vertices near nodes is skipped' % near)
''')

bug('p13-shared-neighbour-cache','P13',[(R+'_cell_list.py','''        self._neighbour_indices = dict()
''',''''''),(R+'_cell_list.py','''    def __init__(self, num_cells, periodic):
''','''    # the neighbours of a cell are needed again and again
    _neighbour_indices = dict()

    def __init__(self, num_cells, periodic):
''')],'a search after another one in the same process, with another number of cells or another kind of box',
'the neighbours of a cell are remembered for all searches, although they depend on the box',
'''
kw = dict(initial_mesh_size=4, gap_threshold=1e-3, use_fake_potential=False, num_minimize_parallel=1)


def result(periodic, fs):
    return [one(periodic, fs, 0.24 + 1e-5 * k) for k in range(-2, 6)]


def one(periodic, fs, x):
    g = points((x, x), (0.9, 0.9))
    try:
        r = nf.search.run(g, limits=[(0, 1)] * 2, periodic=periodic, feature_size=fs, **kw)
    except Exception as exc:
        return repr(exc)
    return [tuple(n.pos) for n in r.nodes], [tuple(p) for p in r.refined_results]


pid = os.fork()
if pid == 0:
    import pickle
    pickle.dump(result(True, 0.12), open(os.path.join(TMP, 'alone'), 'wb'))
    os._exit(0)
os.waitpid(pid, 0)
import pickle
alone = pickle.load(open(os.path.join(TMP, 'alone'), 'rb'))
result(True, 0.45)
check(result(True, 0.12) == alone, 'the result depends on the search before')
''')

bug('p13-current-loop-closed','P13',[('nodefinder/search/_run.py','''        loop = asyncio.new_event_loop()
        close_loop = True
''','''        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        close_loop = True
''')],'two searches from the same thread, which has no current event loop',
'the closed loop of the first search stays the current loop, so that the second one fails',
'''
asyncio.set_event_loop(None)
kw = dict(limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=1, feature_size=0.3, gap_threshold=1e-3, refinement_stencil=None)
nf.search.run(points((0.3, 0.3)), **kw)
try:
    nf.search.run(points((0.3, 0.3)), **kw)
except RuntimeError as exc:
    check(False, 'the second search raises %r' % exc)
''')

bug('p15-potential-of-the-start','P15',[(MR,'''    if fake_potential is not None:
''','''    if fake_potential is not None:
        # the potential should not change during the minimization
        fake_potential = fake_potential.frozen()
'''),('nodefinder/search/_fake_potential.py','''    def __call__(self, pos):''','''    def frozen(self):
        """
        The potential of the nodes which are known now.
        """
        positions = [node.pos for node in self.result.nodes]
        distance = self.result.coordinate_system.distance

        def evaluate(pos):
            if any(distance(pos, node) < self.width for node in positions):
                return float('inf')
            return 0

        return evaluate

    def __call__(self, pos):''')],'several minimisations at the same time, one of which finds a node while another one comes near it in its first stage',
'nodes found during a minimisation do not repel it',
'''
g = points((0.5, 0.5))
import nodefinder.search._controller as c
RES = []
init = c.Controller.__init__


def patched(self, **kw):
    init(self, **kw)
    RES.append(self.state.result)

c.Controller.__init__ = patched


async def gap(pos):
    # the minimizations on the left are slow until the first node is found
    n = 0
    while np.array(pos)[0] < 0.3 and not list(RES[0].nodes):
        await asyncio.sleep(0)
        n += 1
        check(n < 100000, 'no node was found')
    await asyncio.sleep(0)
    return g(pos)


async def main():
    return await nf.search.run_async(gap, limits=[(0, 1)] * 2, periodic=False, initial_mesh_size=(4, 5),
                                     feature_size=0.3, gap_threshold=1e-2, refinement_stencil=None, use_fake_potential=True,
                                     num_minimize_parallel=12)

loop = asyncio.new_event_loop()
res = loop.run_until_complete(main())
late = 0
for r in res.minimization_results:
    first = r.ancestor.simplex_history[0]
    if np.min(first[:, 0]) < 0.3 and min(np.linalg.norm(v - 0.5) for v in first) > 0.12:
        late += 1
        best = r.ancestor.simplex_history[-1][0]
        d = min(np.linalg.norm(best - n.pos) for n in res.nodes)
        check(d > 0.07, 'a minimization which started after a node was found is not repelled by it: its first stage ends at %r, %r from a node' % (best, d))
check(late, 'no minimization started on the left')
''')

bug('p17-edges-optional','P17',[(I+'result/_shapes.py','''        if 'edges' in graph_group:
            graph.add_edges_from([(tuple(p1), tuple(p2))
                                  for p1, p2 in graph_group['edges']])
''','''        try:
            edges = graph_group['edges'][()]
        except (KeyError, OSError):
            # a line of a single node has no edges
            edges = ()
        graph.add_edges_from([(tuple(p1), tuple(p2)) for p1, p2 in edges])
''')],'a read error of the disk exactly when the edges of a line are read',
'a line is loaded without its edges instead of raising the error',
'''
import h5py
from nodefinder.identify.result import NodalLine
import networkx as nx
g = nx.Graph()
nodes = [(0.1 * i, 0.2) for i in range(10)]
g.add_edges_from(zip(nodes[:-1], nodes[1:]))
nf.io.save(NodalLine(graph=g, degree_count={1: 2}), SAVE)
real = h5py.Dataset.__getitem__
real_iter = h5py.Dataset.__iter__


def getitem(self, *a, **k):
    if self.name.endswith('edges'):
        raise OSError(5, 'Can not read data')
    return real(self, *a, **k)


def it(self):
    if self.name.endswith('edges'):
        raise OSError(5, 'Can not read data')
    return real_iter(self)

h5py.Dataset.__getitem__ = getitem
h5py.Dataset.__iter__ = it
try:
    line = nf.io.load(SAVE)
except OSError:
    pass
else:
    check(len(line.graph.edges) == 9, 'a line is loaded with %d of 9 edges' % len(line.graph.edges))
''')

del BUGS['p08-range-slots']
