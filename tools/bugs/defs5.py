from defs1 import *
CS='nodefinder/coordinate_system.py'; MH='nodefinder/search/_mesh_helper.py'
bug('p13-seterr-around-minimisation','P13',[(NM,'''    iterations = 1

    while (fcalls''','''    iterations = 1

    # the gap can be infinite: once for the whole minimisation is enough
    err_settings = np.seterr(all='ignore')

    while (fcalls'''),(NM,'''    x = sim[0]
''','''    np.seterr(**err_settings)
    x = sim[0]
''')],'several minimisations at once which do not end in the order in which they began, or a failing or cancelled evaluation',
'numpy ignores floating point errors in the whole program after the search', '''
import random
rng = random.Random(3)
base = points((0.31, 0.32), (0.7, 0.1))


async def gap(x):
    for _ in range(rng.randint(0, 3)):
        await asyncio.sleep(0)
    return base(x)

for fail_at in (None, 30, 31, 50):
    n = [0]
    async def some(x):
        n[0] += 1
        if n[0] == fail_at:
            raise ValueError('no')
        return await gap(x)
    before = np.geterr()
    try:
        nf.search.run(some, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=3, feature_size=0.3, gap_threshold=1e-3,
                      num_minimize_parallel=4, refinement_stencil=None)
    except ValueError:
        pass
    check(np.geterr() == before, 'numpy handles errors differently after the search: %r' % (np.geterr(), ))


async def direct():
    "The same without threads of the search"
    before = np.geterr()
    await asyncio.wait_for(nf.search.run_async(
        gap, limits=[(0, 1)] * 2, periodic=True, initial_mesh_size=3, feature_size=0.3, gap_threshold=1e-3,
        num_minimize_parallel=4, refinement_stencil=None), 100)
    check(np.geterr() == before, 'numpy handles errors differently after the search: %r' % (np.geterr(), ))

asyncio.run(direct())
''')
bug('p13-shared-scratch-of-distance','P13',[(CS,'''        if self.periodic:
            delta = (pos2 - pos1) % self.size
            delta = np.minimum(self.size - delta, delta)  # pylint: disable=assignment-from-no-return,useless-suppression
''','''        if self.periodic:
            # most of the time went into allocating temporary arrays
            shape = np.broadcast(pos1, pos2).shape
            delta = _SCRATCH.setdefault(shape, np.empty(shape))
            np.subtract(pos2, pos1, out=delta)
            np.mod(delta, self.size, out=delta)
            delta = np.minimum(self.size - delta, delta)  # pylint: disable=assignment-from-no-return,useless-suppression
'''),(CS,'''@export
''','''_SCRATCH = {}


@export
''')],'two searches in different threads, one interrupted by the other between two lines of a distance calculation',
'a distance of one search is calculated from the positions of another one', '''
import threading
from nodefinder.coordinate_system import CoordinateSystem

other = CoordinateSystem(limits=[(0, 3)] * 2, periodic=True)


def elsewhere(shapes):
    "What the other thread does when it gets its turn"
    for shape in shapes:
        other.distance(np.zeros(shape), np.full(shape, 1.3))


def turn(frame, event, arg):
    if event == 'line' and budget[0] > 0:
        budget[0] -= 1
        sys.settrace(None)
        th = threading.Thread(target=elsewhere, args=([(2, )] + [(n, 2) for n in (1, 2, 3, 4)], ))
        th.start()
        th.join()
        sys.settrace(trace)
    return turn


def trace(frame, event, arg):
    return turn if frame.f_code.co_filename.endswith('coordinate_system.py') else None


cs = CoordinateSystem(limits=[(0, 1), (0, 2)], periodic=True)
budget = [2000]
rng = np.random.RandomState(2)
for shape in ((2, ), (1, 2), (3, 2)):
    for _ in range(5):
        a, b = rng.rand(*shape), 2 * rng.rand(*shape)
        want = np.linalg.norm([min(abs(d) % s, s - abs(d) % s) for d, s in zip(np.ravel(b - a)[:2], (1, 2))])
        sys.settrace(trace)
        got = cs.distance(a, b)
        sys.settrace(None)
        check(abs(np.ravel(got)[0] - want) < 1e-9, 'distance %r instead of %r with a thread in between' % (got, want))
''')
bug('p13-start-simplices-of-other-limits','P13',[(MH,'''    simplex_stencil = np.zeros(shape=(dim + 1, dim))
    for i, dist in enumerate(simplex_distances):
        simplex_stencil[i + 1][i] = dist
''','''    # the same for each search on this mesh
    simplex_stencil = _STENCILS.get((dim, tuple(mesh_size)))
    if simplex_stencil is None:
        simplex_stencil = np.zeros(shape=(dim + 1, dim))
        for i, dist in enumerate(simplex_distances):
            simplex_stencil[i + 1][i] = dist
        _STENCILS[(dim, tuple(mesh_size))] = simplex_stencil
'''),(MH,'''def _generate_mesh''','''_STENCILS = {}


def _generate_mesh''')],'a second search in the same process with the same mesh but a different box',
'it starts from simplices of the size which the first search needed', '''
kw = dict(periodic=True, initial_mesh_size=2, gap_threshold=1e-3, feature_size=0.4, refinement_stencil=None)


def nodes(limits):
    res = nf.search.run(points((0.31, 0.32)), limits=limits, **kw)
    return [(tuple(r.pos), r.value, r.num_fev) for r in res.nodes]


pid = os.fork()
if pid == 0:
    import pickle
    pickle.dump(nodes([(0, 4), (0, 1)]), open(os.path.join(TMP, 'alone'), 'wb'))
    os._exit(0)
os.waitpid(pid, 0)
import pickle
nodes([(0, 1), (0, 1)])
check(nodes([(0, 4), (0, 1)]) == pickle.load(open(os.path.join(TMP, 'alone'), 'rb')), 'a search depends on the one before')
''')
