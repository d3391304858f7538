"""Scenario generation: every choice comes from one random.Random."""
import math
import random


def rnd(x, n=4):
    return float('%.*g' % (n, x))


def search(rng, **opt):
    """A base search.  opt fixes fields: dim, fake, save, ..."""
    dim = opt.get('dim') or rng.choices([1, 2, 3], [3, 6, 1])[0]
    periodic = opt['periodic'] if 'periodic' in opt else rng.random() < 0.6
    limits = []
    for _ in range(dim):
        lo = rng.choice([0., 0., -0.5, 1., -3., 0.25, 10.])
        size = rng.choice([1., 1., 0.5, 2.])
        limits.append([lo, lo + size])
    if rng.random() < 0.05:
        limits = [[b, a] for a, b in limits]
    slim = [sorted(l) for l in limits]
    size = min(b - a for a, b in slim)
    mesh = opt.get('mesh')
    if mesh is None:
        if dim == 1:
            mesh = [rng.randint(1, 8)]
        elif dim == 2:
            mesh = [rng.randint(1, 3), rng.randint(1, 3)]
        else:
            mesh = [rng.randint(1, 2) for _ in range(3)]
    fs = rnd(size * rng.choice([0.1, 0.2, 0.3, 0.6, 0.9]), 3)
    if dim == 3:
        fs = rnd(size * rng.choice([0.6, 0.9, 1.2]), 3)
    kind = opt.get('kind') or rng.choices(['points', 'plane', 'circle', 'flat'], [10, 2, 1, 0.5])[0]
    if dim == 1 and kind == 'circle':
        kind = 'points'
    thr = rnd(fs * rng.choice([1e-3, 1e-2, 3e-2]), 3)

    def point(margin=0.):
        return [rnd(a + (b - a) * rng.uniform(margin, 1 - margin)) for a, b in slim]

    if kind == 'points':
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        cs = [point() for _ in range(max(1, n))]
        if rng.random() < 0.25:     # on the boundary of the box
            c = rng.choice(cs)
            i = rng.randrange(dim)
            c[i] = slim[i][rng.randrange(2)]
        if rng.random() < 0.3 and cs:    # close pair
            c = rng.choice(cs)
            cs.append([rnd(x + fs * rng.uniform(-0.5, 0.5)) for x in c])
        land = {'kind': 'points', 'centers': cs, 'slopes': [rnd(rng.uniform(0.5, 3)) for _ in cs]}
        if n == 0:
            land = {'kind': 'points', 'centers': [], 'slopes': [], 'traps': [[cs[0], rnd(thr * 20)]]}
        elif rng.random() < 0.3:
            land['traps'] = [[point(), rnd(thr * rng.choice([0.5, 3, 50]))]]
    elif kind == 'plane':
        ax = rng.randrange(dim)
        land = {'kind': 'plane', 'axis': ax, 'x0': point()[ax], 'slope': rnd(rng.uniform(0.5, 2))}
        fs = rnd(size * rng.choice([0.6, 0.9, 1.2]), 3)
    elif kind == 'circle':
        land = {'kind': 'circle', 'center': point(0.4), 'radius': rnd(size * rng.uniform(0.1, 0.3))}
        fs = rnd(size * rng.choice([0.6, 0.9]), 3)
    else:
        land = {'kind': 'flat', 'value': rng.choice([0., thr, thr * 0.5, thr * 2, 1.])}
        fs = rnd(size * rng.choice([0.6, 0.9, 1.2]), 3)
    thr = rnd(fs * rng.choice([1e-3, 1e-2, 3e-2]), 3) if kind != 'flat' else thr
    if rng.random() < opt.get('p_holes', 0.12):
        land['holes'] = [{'center': point(), 'r': rnd(size * rng.uniform(0.02, 0.3)),
                          'val': rng.choice(['nan', 'inf', 'inf', '-1.0', '1e300'])}
                         for _ in range(rng.randint(1, 2))]
        if not opt.get('allow_nan', True):
            for h in land['holes']:
                if h['val'] == 'nan':
                    h['val'] = 'inf'
        for h in land['holes']:
            if h['val'] == '-1.0' and kind != 'points':
                h['val'] = 'inf'
            if h['val'] == '-1.0':
                h['r'] = rnd(min(h['r'], fs * 0.3))

    st = opt.get('stencil')
    if st is None:
        r = rng.random()
        if r < 0.12:
            st = 'none'
        elif r < 0.45 and dim < 3:
            st = 'auto'
        elif r < 0.6 and dim < 3:
            st = {'mesh': [rng.randint(1, 3) for _ in range(dim)], 'mult': rng.choice([1.5, 2.5])}
        else:
            st = {'custom': custom_stencil(rng, dim)}
    s = {
        'limits': limits, 'periodic': periodic, 'mesh': mesh, 'feature_size': fs, 'gap_threshold': thr,
        'stencil': None if st == 'none' else st, 'landscape': land,
        'P': opt.get('P') or rng.choice([1, 1, 2, 2, 3, 5, 50]),
        'fake': opt['fake'] if 'fake' in opt else rng.random() < 0.25,
        'save': opt.get('save', True),
    }
    if len(set(mesh)) == 1 and rng.random() < 0.3:
        s['mesh'] = mesh[0]
    nm = {}
    if rng.random() < 0.25:
        nm['maxiter'] = rng.choice([1, 3, 10, 25])
    if rng.random() < 0.15:
        nm['maxfev'] = rng.choice([1, 4, 15, 30])
    if rng.random() < 0.25:
        nm['fprime_cutoff'] = rng.choice([0.2, 1., 5.])
    if rng.random() < 0.3:
        nm['xtol'] = rnd(fs * rng.choice([0.003, 0.03, 0.1]))
    if rng.random() < 0.2:
        nm['ftol'] = rnd(thr * rng.choice([0.5, 1., 10.]))
    if not s['fake'] and rng.random() < opt.get('p_nohist', 0.):
        nm['keep_history'] = False
    if nm:
        s['nm'] = nm
    if not opt.get('default_rechecks') and rng.random() < 0.2:
        s['recheck'] = rng.random() < 0.5
        s['count_cutoff'] = rng.choice([0, 0, 1, 2])
    if rng.random() < 0.25:
        s['simplex_cutoff'] = rng.choice([0, 1, 2])
    return s


def other_mesh(rng, mesh, dim):
    """Another initial mesh for the same box: doubled (some simplices in common), finer, coarser."""
    m = list(mesh) if isinstance(mesh, (list, tuple)) else [mesh] * dim
    r = rng.random()
    if r < 0.4 and max(m) <= 4:
        m = [2 * x for x in m]
    else:
        i = rng.randrange(dim)
        m[i] = max(1, m[i] + rng.choice([-1, 1, 1, 2]))
    return m if dim > 1 or rng.random() < 0.5 else m[0]


def custom_stencil(rng, dim, n=None):
    n = n or rng.choice([1, 2, 3, 4])
    out = []
    for _ in range(n):
        c = [rng.gauss(0, 1) for _ in range(dim)]
        l = math.sqrt(sum(x * x for x in c)) or 1.
        r = rng.uniform(1.2, 2.5)
        c = [x / l * r for x in c]
        e = rng.uniform(0.3, 1.)
        sim = [[rnd(x) for x in c]]
        for i in range(dim):
            v = list(c)
            v[i] += e
            sim.append([rnd(x) for x in v])
        out.append(sim)
    if rng.random() < 0.15:
        out.append([list(v) for v in out[0]])          # the same start simplex twice
    return out


MODES = ['sleep', 'future', 'workers', 'batch', 'sync', 'async0']


def gap(rng, modes=None, D=None):
    mode = rng.choice(modes or ['sleep', 'sleep', 'future', 'future', 'workers', 'batch', 'sync', 'sync', 'async0'])
    D = D if D is not None else rng.choice([0.001, 0.01, 0.1, 1.])
    g = {'mode': mode}
    if mode == 'async0':
        return g
    k = rng.choice(['zero', 'const', 'uniform', 'uniform', 'quant', 'heavy', 'slowlab', 'lifo'])
    if mode in ('workers', 'batch') and k == 'zero':
        k = 'uniform'
    d = {'kind': k, 'seed': rng.randrange(1 << 30)}
    if k == 'const':
        d['c'] = D
    elif k == 'uniform':
        d.update(lo=0. if rng.random() < 0.5 else D * 0.5, hi=2 * D)
    elif k == 'quant':
        d.update(q=D, n=rng.randint(2, 5))
    elif k == 'heavy':
        d.update(c=D * 0.3)
    elif k == 'slowlab':
        d.update(lo=D * 0.3, hi=D * 30, p=rnd(rng.uniform(0.1, 0.5), 2))
    elif k == 'lifo':
        d.update(c=D * 0.3, w=rng.randint(2, 9))
    g['delay'] = d
    if mode == 'workers':
        g['nworkers'] = rng.randint(1, 4)
        g['order'] = rng.choice(['fifo', 'lifo', 'random'])
    if mode == 'batch':
        g['max_batch'] = rng.choice([1, 3, 8, 50])
        g['timeout'] = rng.choice([0.01, 0.1])
        g['sleep_time'] = rng.choice([0., 0.005])
    if rng.random() < 0.3:
        g['rtype'] = rng.choice(['np', 'np', '0d'])
    return g


def mean_delay(g):
    d = g.get('delay')
    if not d:
        return 1e-4
    k = d['kind']
    if k == 'zero':
        return 1e-4
    m = {'const': lambda: d['c'], 'uniform': lambda: (d['lo'] + d['hi']) / 2, 'quant': lambda: d['q'] * d['n'] / 2,
         'heavy': lambda: d['c'] * 7, 'slowlab': lambda: d['lo'] + d['p'] * d['hi'], 'lifo': lambda: d['c'] * d['w'] / 2,
         'table': lambda: 0.1}[k]()
    if g['mode'] == 'batch':
        m += g.get('timeout', 0.1)
    return max(m, 1e-4)


def save_delay(rng, g, P, nmax=15):
    """A delay that gives between none and about nmax periodic saves."""
    est = 400 * mean_delay(g) / (1 if g['mode'] == 'sync' else min(P, 4))
    return rnd(est / rng.choice([0.3, 1, 3, 6, nmax]), 3)


def clock(rng):
    c = {'tick': rng.choice([1e-5, 1e-4, 1e-3])}
    if rng.random() < 0.2:
        c['wall_jumps'] = [[1000 + rnd(rng.uniform(0, 50)), rnd(rng.uniform(-1e5, 1e5))] for _ in range(rng.randint(1, 3))]
    return c


ENTRIES = ['async', 'async', 'sync', 'sync_in_loop', 'sync_thread', 'sync_noloop']


def run(rng, s, g=None, entry=None, **kw):
    g = g or gap(rng)
    r = {'search': s, 'gap': g, 'entry': entry or rng.choice(ENTRIES)}
    r.update(kw)
    return r


def life(rng, runs, **kw):
    l = {'seed': rng.randrange(1 << 30), 'runs': runs, 'clock': clock(rng)}
    if rng.random() < 0.15:
        l['gc_every'] = rng.choice([1, 7, 50])
    if rng.random() < 0.2:
        l['path_style'] = rng.choice(['rel', 'rel', 'dot', 'updown'])
        if rng.random() < 0.6:
            n = rng.choice([1, 1, rng.randint(1, 30), rng.randint(1, 300)])
            l['chdir'] = [[n, 'systmp']]
            if rng.random() < 0.6:
                l['chdir'].append([n + rng.choice([1, 3, rng.randint(1, 100)]), '.'])
    l.update(kw)
    return l
