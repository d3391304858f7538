"""P16: identification does not depend on discovery order, restarts or random draws."""
import json
import math
import random

from . import gen
from .core import Violation
from .props_io import METHODS
from .props_search import ended


def dist(a, b, limits, periodic):
    s = 0.
    for x, y, (lo, hi) in zip(a, b, limits):
        d = abs(x - y)
        if periodic:
            size = hi - lo
            d %= size
            d = min(d, size - d)
        s += d * d
    return math.sqrt(s)


def groups(pos, fs, limits, periodic):
    """Connected groups, whether the cutoff decides between nearly equal distances, and the largest distance in each."""
    n = len(pos)
    root = list(range(n))

    def find(i):
        while root[i] != i:
            root[i] = root[root[i]]
            i = root[i]
        return i
    close = False
    for i in range(n):
        for j in range(i):
            d = dist(pos[i], pos[j], limits, periodic)
            if abs(d - fs) < 1e-9 * (1 + fs):
                close = True
            elif d <= fs:
                root[find(i)] = find(j)
    out = {}
    for i in range(n):
        out.setdefault(find(i), []).append(pos[i])
    return list(out.values()), close


def spread(g, limits, periodic):
    return max([dist(a, b, limits, periodic) for i, a in enumerate(g) for b in g[:i]], default=0.)


def key(d):
    """What identification says, free of order."""
    out = {}
    for o in d['objects']:
        out[frozenset(o['positions'])] = (o['dimension'], o['shape'])
    return out


def shaped(rng):
    """Well separated nodal points and evenly sampled closed lines: [(kind, positions)], limits, periodic, fs."""
    dim = rng.choice([1, 2, 2, 2, 3])
    periodic = rng.random() < 0.65
    lo = [rng.choice([0., 0., -0.5, 1., -3., 10., 0.25]) for _ in range(dim)]
    size = [rng.choice([1., 1., 2., 0.5]) for _ in range(dim)]
    limits = [[a, a + s] for a, s in zip(lo, size)]
    smin = min(size)
    fs = smin * rng.choice([0.02, 0.05, 0.1])
    objs = []

    def far(new):
        return all(dist(a, b, limits, periodic) > 2.2 * fs for a in new for _, g in objs for b in g)

    def inside(p):
        if periodic:
            # as the search would store it
            return [l + (x - l) % s for x, l, s in zip(p, lo, size)]
        return p
    for _ in range(rng.choice([1, 2, 3, 5])):
        for _ in range(10):
            k = rng.choice(['point', 'point', 'circle', 'straight'] if dim > 1 else ['point'])
            c = [l + rng.random() * s for l, s in zip(lo, size)]
            if rng.random() < 0.4:          # at the edge of the box
                a = rng.randrange(dim)
                c[a] = lo[a] + rng.choice([0., size[a], 1e-17, fs * 0.01])
            if k == 'point':
                n = rng.choice([1, 1, 2, 3, 7, 20, 130])
                new = []
                for _ in range(n):
                    v = [rng.gauss(0, 1) for _ in range(dim)]
                    r = math.sqrt(sum(x * x for x in v)) or 1.
                    rad = rng.random() * 0.12 * fs
                    new.append([x + y / r * rad for x, y in zip(c, v)])
            elif k == 'circle':
                R = rng.uniform(8., 12.) * fs
                if 2 * R > smin - 3 * fs:
                    continue
                a, b = rng.sample(range(dim), 2)
                c = [l + s * rng.uniform(0.45, 0.55) if not periodic else x for x, l, s in zip(c, lo, size)]
                n = int(2 * math.pi * R / (rng.uniform(0.36, 0.45) * fs))
                ph = rng.random()
                new = []
                for i in range(n):
                    p = list(c)
                    p[a] += R * math.cos(2 * math.pi * (i + ph) / n)
                    p[b] += R * math.sin(2 * math.pi * (i + ph) / n)
                    new.append(p)
            else:
                if not periodic:
                    continue
                a = rng.randrange(dim)
                n = int(size[a] / (fs * (rng.uniform(0.36, 0.45) if size[a] > 12 * fs else rng.uniform(0.04, 0.45))))
                new = [[x if i != a else x + size[a] * j / n for i, x in enumerate(c)] for j in range(n)]
                k = 'straight'
            new = [inside(p) for p in new]
            if not periodic and not all(l <= x <= l + s for p in new for x, l, s in zip(p, lo, size)):
                continue
            if far(new):
                objs.append((k, new))
                break
    return objs, limits, periodic, fs


class P16:
    id = 'P16'

    def gen(self, rng, tier):
        r = rng.random()
        sc = {'prop': 'P16', 'lives': []}
        if r < 0.45:
            objs, limits, periodic, fs = shaped(rng)
            sc['kind'] = 'shaped'
            base = [p for _, g in objs for p in g]
        elif r < 0.6:
            from .props_io import line_op
            o = line_op(rng, 'c')
            sc['kind'] = 'mixed'
            base, limits, periodic, fs = o['pos'], o['limits'], o['periodic'], o['fs']
            if rng.random() < 0.1:
                base = []
        elif r < 0.72:
            return self.many(rng, sc)
        else:
            sc['kind'] = 'search'
            return self.search(rng, sc)
        if base and rng.random() < 0.3:     # found more than once
            base = base + [rng.choice(base) for _ in range(rng.randint(1, 4))]
        method = rng.choice(METHODS)
        fs2 = fs if sc['kind'] == 'shaped' else gen.rnd(fs * rng.choice([1., 0.5, 2., rng.uniform(0.3, 3.)]), 3)
        for k in range(rng.choice([2, 3])):
            pos = list(base)
            rng.shuffle(pos)
            ops = [{'op': 'container', 'as': 'c', 'limits': limits, 'periodic': periodic, 'fs': fs, 'thr': 1., 'pos': pos,
                    'val': [1e-5] * len(pos)}]
            ops += self.idents(rng, 'c', method, 2, fs2, False)
            sc['lives'].append({'seed': rng.randrange(1 << 30), 'runs': [], 'save_name': 'none.hdf5', 'ops': ops})
        return sc

    @staticmethod
    def many(rng, sc):
        """Many small groups of irregular nodes: chains, clouds and forks, by all methods."""
        sc['kind'] = 'many'
        ops = []
        for i in range(12):
            dim = rng.choice([1, 2, 2, 3])
            periodic = rng.random() < 0.5
            limits = [[a, a + 1.] for a in [rng.choice([0., -0.5, 1., 10.]) for _ in range(dim)]]
            fs = rng.choice([0.02, 0.1, 0.2, 0.4])
            p = [a + rng.random() for a, _ in limits]
            pos = [p]
            style = rng.choice(['walk', 'line', 'cloud', 'fork'])
            axis = rng.randrange(dim)
            for _ in range(rng.choice([0, 1, 2, rng.randint(3, 8), rng.randint(8, 25)])):
                step = fs * rng.choice([rng.uniform(0.2, 0.98), rng.uniform(0.01, 0.33), 0.34, 1.])
                if style == 'cloud':
                    q = [x + rng.uniform(-1, 1) * step for x in pos[0]]
                elif style == 'line':
                    q = [x + step * (a == axis) + 0.05 * fs * rng.uniform(-1, 1) for a, x in enumerate(pos[-1])]
                else:
                    v = [rng.gauss(0, 1) for _ in range(dim)]
                    r = math.sqrt(sum(x * x for x in v)) or 1.
                    q = [x + step * y / r for x, y in zip(pos[-1] if style == 'walk' else rng.choice(pos), v)]
                if periodic:
                    q = [a + (x - a) % 1. for x, (a, _) in zip(q, limits)]
                    q = [x if x < b else a for x, (a, b) in zip(q, limits)]
                else:
                    q = [min(max(x, a), b) for x, (a, b) in zip(q, limits)]
                pos.append(q)
            ops.append({'op': 'container', 'as': 'c', 'limits': limits, 'periodic': periodic, 'fs': fs, 'thr': 1., 'pos': pos,
                        'val': [1e-5] * len(pos)})
            for method in rng.sample(METHODS, rng.choice([1, 1, 2])) + ['dominating_set'] * (rng.random() < 0.5):
                ops.append({'op': 'identify', 'src': 'c', 'method': method, 'seed': rng.randrange(1 << 30)})
        sc['lives'].append({'seed': rng.randrange(1 << 30), 'runs': [], 'save_name': 'none.hdf5', 'ops': ops})
        return sc

    @staticmethod
    def idents(rng, src, method, n, fs, state):
        ops = [{'op': 'identify', 'src': src, 'method': method, 'seed': rng.randrange(1 << 30), 'fs': rng.choice([None, fs])}
               for _ in range(n)]
        ops += [{'op': 'save', 'src': src, 'file': 'a.hdf5'}, {'op': 'load', 'file': 'a.hdf5', 'as': 'l'},
                {'op': 'identify', 'src': 'l', 'method': method, 'seed': rng.randrange(1 << 30), 'fs': rng.choice([None, fs])}]
        if state:
            ops += [{'op': 'identify', 'src': 'l', 'inner': True, 'method': method, 'seed': rng.randrange(1 << 30), 'fs': None}]
        return ops

    def search(self, rng, sc):
        s = gen.search(rng, save=True, p_holes=0.05, kind=rng.choices(['points', 'plane', 'circle'], [8, 1, 1])[0])
        g = gen.gap(rng)
        s['save_delay'] = gen.save_delay(rng, g, s['P'], 5)
        method = rng.choice(METHODS)
        n = rng.choice([0, 0, 1, 2])
        for k in range(n + 1):
            s2 = json.loads(json.dumps(s))
            if k:
                s2['load'] = True
                s2['load_quiet'] = True
            l = gen.life(rng, [gen.run(rng, s2, g)])
            l['index'] = k
            if k < n:
                l['crash'] = {'at': 'gap', 'n': rng.choice([rng.randint(1, 60), rng.randint(1, 600)])}
            else:
                fs = s['feature_size']
                a = self.idents(rng, 'result0', method, 2, None, False)
                b = self.idents(rng, 'state0', method, 0, None, True)
                l['ops'] = a + [{'op': 'load', 'file': 'save.hdf5', 'as': 'f'},
                                {'op': 'identify', 'src': 'f', 'method': method, 'seed': rng.randrange(1 << 30)},
                                {'op': 'identify', 'src': 'state0', 'method': method, 'seed': rng.randrange(1 << 30)}] + b
            sc['lives'].append(l)
        return sc

    def run(self, sc, ctx):
        out = []
        ctx.fresh()
        keys = []
        for l in sc['lives']:
            if not l['runs']:
                ctx.fresh()
            h = ctx.life(l)
            if l['runs'] and h['exit'] == 'ok' and not ended(h):
                return out
            if h['exit'] == 'ok':
                keys += self.judge(l, h, out, ctx)
        if sc['kind'] in ('shaped', 'mixed') or len(keys) > 1:
            self.compare(keys, sc, out, ctx)
        if keys:
            ctx.stats.nontrivial += 1
        return out

    def judge(self, l, h, out, ctx):
        """Each identification of one life against the nodes it was given."""
        keys = []
        src = {}
        if l['runs']:
            st = h['runs'][0]['state']
            if st is None or h['runs'][0]['outcome']['kind'] != 'return':
                return keys
            src['result0'] = src['state0'] = st
        for op, o in zip(l.get('ops', ()), h.get('ops', ())):
            if o['how'] == 'skipped':
                continue
            if op['op'] in ('container', 'load') and o['how'] == 'ok':
                src[op['as']] = o['dump']
            if op['op'] != 'identify':
                if o['how'] == 'raise':
                    ctx.stats.probe('%s raised %s' % (op['op'], o['exc']))
                continue
            d = src[op['src']]
            pos = [tuple(n['pos']) for n in d['nodes']]
            uniq = sorted(set(pos))
            fs = op.get('fs') or d['dist_cutoff'] * 3
            limits, periodic = d['limits'], d['periodic']
            where = '%d nodes (%s box, feature size %.4g, method %s, from %s)' % (
                len(uniq), 'periodic' if periodic else 'open', fs, op.get('method'),
                {'state0': 'the live state', 'result0': 'the live result', 'c': 'a search result'}.get(op['src'], 'a loaded file'))
            if o['how'] == 'raise':
                out.append(Violation('identify-raises', 'identify raises %s(%s) for %s' % (o['exc'], o['msg'], where)))
                continue
            ctx.stats.probe('identified')
            r = o['dump']
            got = [p for x in r['objects'] for p in x['positions']]
            ctx.stats.probe('objects', len(r['objects']))
            for x in r['objects']:
                ctx.stats.probe('dimension %s' % x['dimension'])
            if len(got) != len(set(got)):
                out.append(Violation('twice', 'identify lists a position more than once, for %s' % where))
            if set(got) != set(uniq):
                out.append(Violation('positions', '%d of the node positions are in no object and %d positions are no node, for %s' % (
                    len(set(uniq) - set(got)), len(set(got) - set(uniq)), where)))
                continue
            want, close = groups(uniq, fs, limits, periodic)
            if not close and {frozenset(g) for g in want} != {frozenset(x['positions']) for x in r['objects']}:
                out.append(Violation('groups', 'identify makes %d objects of %d groups which are connected by steps of the feature '
                                     'size, for %s' % (len(r['objects']), len(want), where)))
            size = max(b - a for a, b in limits)
            for x in r['objects']:
                g = x['positions']
                w = spread(g, limits, periodic) if len(g) < 150 else math.inf
                if w < 0.249 * fs and x['dimension'] != 0:
                    out.append(Violation('point-dim', 'a point-like group of %d nodes, %.3g of the feature size wide, has dimension '
                                         '%s, for %s' % (len(g), w / fs, x['dimension'], where)))
                if x['dimension'] == 0 and (w < 0.249 * fs) and (not periodic or w < 0.249 * min(b - a for a, b in limits)):
                    self.location(x, g, w, limits, periodic, size, where, out, ctx)
            keys.append((op, frozenset(uniq), fs, key(r), where, d))
        return keys

    @staticmethod
    def location(x, g, w, limits, periodic, size, where, out, ctx):
        sh = x['shape']
        if not sh or 'point' not in sh:
            out.append(Violation('shape', 'a point-like object has the shape %r, for %s' % (sh, where)))
            return
        p = sh['point']
        ctx.stats.probe('locations checked')
        tol = 1e-9 * max(1., size, max(abs(b) for l in limits for b in l))
        if periodic and not all(a - tol <= c <= b + tol for c, (a, b) in zip(p, limits)):
            out.append(Violation('outside', 'a nodal point is located at %r, outside the box %r, for %s' % (p, limits, where)))
        far = max(dist(p, q, limits, periodic) for q in g)
        if not far <= w + tol:
            out.append(Violation('location', 'a nodal point is located at %r, %.4g from one of its nodes, which are within %.4g of each '
                                 'other, for %s' % (p, far, w, where)))

    @staticmethod
    def compare(keys, sc, out, ctx):
        """Same nodes, same feature size: the same objects whatever the order, file, or random numbers."""
        by = {}
        for op, u, fs, k, where, d in keys:
            for (u0, fs0), lst in by.items():
                if u0 == u and abs(fs0 - fs) < 1e-9 * fs:
                    lst.append((k, where, d))
                    break
            else:
                by[(u, fs)] = [(k, where, d)]
        for (u, fs), lst in by.items():
            if len(lst) < 2:
                continue
            k0, w0, d = lst[0]
            limits, periodic = d['limits'], d['periodic']
            tol = 1e-9 * max(1., max(abs(b) for l in limits for b in l))
            _, close = groups(sorted(u), fs, limits, periodic)
            for k, w, _ in lst[1:]:
                ctx.stats.probe('identifications compared')
                if close:
                    continue
                for g in k0:
                    if g not in k:
                        break               # reported by 'groups'
                    dim0, s0 = k0[g]
                    dim, s = k[g]
                    narrow = len(g) < 150 and spread(list(g), limits, periodic) < 0.249 * fs
                    if (sc['kind'] == 'shaped' or narrow) and dim0 != dim:
                        out.append(Violation('dim-differs', 'the same group of %d nodes has dimension %s for %s and %s for %s' % (
                            len(g), dim0, w0, dim, w)))
                    if narrow and s0 and s and 'point' in s0 and 'point' in s and \
                            dist(s0['point'], s['point'], limits, periodic) > tol:
                        out.append(Violation('location-differs', 'the same nodal point is located at %r for %s and %r for %s' % (
                            s0['point'], w0, s['point'], w)))
        if sc['kind'] == 'shaped':
            for op, u, fs, k, where, d in keys:
                for g, (dim, s) in k.items():
                    if spread(list(g)[:1] + list(g), limits, periodic) > 0.5 * fs and dim != 1:
                        out.append(Violation('line-dim', 'an evenly sampled closed line of %d nodes has dimension %s, for %s' % (
                            len(g), dim, where)))
