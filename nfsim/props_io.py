"""P17: what io.save reports as saved is what io.load returns."""
import math
import random

from . import gen
from .core import Violation
from .props_search import ended

METHODS = [None, 'ballistic', 'shortest_path', 'dominating_set']


def near(a, b, tol):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol
    return a == b


def canon(d):
    if d is None:
        return None
    if isinstance(d, dict) and 'simplices' in d:
        d = dict(d, simplices=sorted(d['simplices']), positions=sorted(d['positions']))
    return d


def difference(a, b, path=''):
    """First difference between two dumps, for the message."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '%s.%s is %s' % (path, k, 'missing' if k not in b else 'new')
            r = difference(a[k], b[k], '%s.%s' % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s has %d entries instead of %d' % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            r = difference(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    return None if near(a, b, 1e-9) else '%s is %r instead of %r' % (path, b, a)


def judge_ops(ops, h, known, out, stats):
    """Follow what each file should hold through the operations of one life."""
    dumps = {}
    for op, o in zip(ops, h.get('ops', ())):
        if o['how'] == 'skipped':
            continue
        if op.get('as') and o.get('dump') is not None:
            dumps[op['as']] = (o['kind'], o['dump'])
        if op['op'] == 'sweep' and op.get('src') is not None:
            op = dict(op, was=dumps[op['src']])
        k = op['op']
        f = op.get('file')
        if k == 'save':
            if o['how'] == 'ok':
                known[f] = ('saved', o['kind'], o['dump'])
                stats.probe('saved %s' % o['kind'])
            else:
                known[f] = None
                stats.probe('save failed')
                if not o['fired']:
                    out.append(Violation('save-raises', 'io.save of %s raises %s(%s) on a working disk' % (
                        article(o.get('kind')), o['exc'], o['msg'])))
        elif k == 'truncate':
            if known.get(f):
                known[f] = ('truncated to %d of %d bytes' % (o['kept'], o['size']), ) + known[f][1:]
                stats.count_fault('truncated file')
        elif k == 'load':
            was = known.get(f)
            if was is None:
                continue
            if o['how'] == 'raise':
                stats.probe('load failed' if o['fired'] else 'load of a damaged file failed' if was[0] != 'saved' else 'load raised')
                if was[0] == 'saved' and not o['fired']:
                    out.append(Violation('unloadable', 'io.save of %s succeeded, and io.load raises %s(%s) on a working disk' % (
                        article(was[1]), o['exc'], o['msg'])))
                continue
            stats.probe('loaded %s' % o['kind'])
            a, b = canon(was[2]), canon(o['dump'])
            if was[1] != o['kind'] or not near(a, b, 1e-9):
                what = 'of the wrong type: %s' % o['kind'] if was[1] != o['kind'] else 'which differs: %s' % difference(a, b)
                if was[0] != 'saved':
                    out.append(Violation('incomplete', 'from a file %s io.load returns %s %s' % (was[0], article(was[1]), what)))
                elif o['fired']:
                    out.append(Violation('incomplete', 'with a failing read io.load returns %s %s' % (article(was[1]), what)))
                else:
                    out.append(Violation('unequal', 'io.save of %s succeeded, and io.load returns an object %s' % (article(was[1]), what)))
        elif k == 'sweep':
            for x in o['each']:
                judge_sweep(op, x, known, out, stats)
            if op.get('src') is not None:
                known[f] = None
        elif o['how'] == 'raise' and not o.get('fired'):
            stats.probe('%s raised %s' % (k, o['exc']))
    return out


def judge_sweep(op, x, known, out, stats):
    if op.get('src') is not None:
        was = ('saved', ) + op['was']
        verb, fault = 'io.save of %s' % article(was[1]), ', failing at its %s no. %d,' % (op['fault']['op'], x['nth'])
    else:
        was = known.get(op['file'])
        if was is None or was[0] != 'saved':
            return
        verb, fault = 'io.load of %s' % article(was[1]), ', failing at its %s no. %d,' % (op['fault']['op'], x['nth'])
    if not x['fired']:
        fault = ''
    if x['how'] == 'raise':
        if x['fired']:
            stats.probe('sweep: failed')
        else:
            out.append(Violation('save-raises' if op.get('src') is not None else 'unloadable', '%s raises %s(%s) on a working disk' % (
                verb, x['exc'], x['msg'])))
    elif x['how'] == 'lost':
        out.append(Violation('unloadable', '%s%s succeeds, and io.load raises %s' % (verb, fault, x['msg'])))
    elif 'dump' in x:
        stats.probe('sweep: loaded')
        a, b = canon(was[2]), canon(x['dump'])
        if was[1] != x['kind'] or not near(a, b, 1e-9):
            what = x['kind'] if was[1] != x['kind'] else difference(a, b)
            out.append(Violation('incomplete' if x['fired'] else 'unequal', '%s%s succeeds with a difference: %s' % (verb, fault, what)))


def article(kind):
    return {'state': 'a search state', 'result': 'a search result', 'ident': 'an identification result', 'object': 'an identified object',
            'shape': 'a shape', 'coords': 'a coordinate system', 'min': 'a minimisation result'}.get(kind, 'an object (%s)' % kind)


def line_op(rng, name):
    """A container whose nodes are points, lines, surfaces, or a random cloud."""
    dim = rng.choice([2, 2, 3])
    periodic = rng.random() < 0.5
    lo = [rng.choice([0., -0.5, 1., 10.]) for _ in range(dim)]
    limits = [[l, l + 1.] for l in lo]
    fs = rng.choice([0.05, 0.1, 0.2])
    pos = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['point', 'line', 'open', 'cloud', 'plane', 'single'])
        c = [l + rng.random() for l in lo]
        if kind == 'point':
            pos += [[x + rng.uniform(-.05, .05) * fs for x in c] for _ in range(rng.randint(2, 8))]
        elif kind == 'single':
            pos.append(c)
        elif kind == 'line':
            n = int(1. / (0.4 * fs))
            ax = rng.randrange(dim)
            pos += [[l + i / n if a == ax else x for a, (l, x) in enumerate(zip(lo, c))] for i in range(n)]
        elif kind == 'open':
            n = rng.randint(3, 12)
            ax = rng.randrange(dim)
            pos += [[x + 0.4 * fs * i * (a == ax) for a, x in enumerate(c)] for i in range(n)]
        elif kind == 'cloud':
            pos += [[x + rng.uniform(-1, 1) * 1.5 * fs for x in c] for _ in range(rng.randint(3, 25))]
        else:
            n = rng.randint(3, 6)
            pos += [[x + 0.5 * fs * (i if a == 0 else j if a == 1 else 0) for a, x in enumerate(c)] for i in range(n) for j in range(n)]
    if not periodic:
        pos = [[min(max(x, l), l + 1.) for x, l in zip(p, lo)] for p in pos]
    rng.shuffle(pos)
    return {'op': 'container', 'as': name, 'limits': limits, 'periodic': periodic, 'fs': fs, 'thr': 1e-3, 'pos': pos,
            'val': [rng.choice([0., 1e-4, 1e-4, 1.]) for _ in pos] if rng.random() < 0.3 else [1e-5] * len(pos)}


def made(rng, what, dim):
    """An object as identify returns it, with random content."""
    pt = lambda: [gen.rnd(rng.uniform(-1, 2)) for _ in range(dim)]
    if what == 'point':
        return {'what': 'point', 'pos': pt(), 'array': rng.random() < 0.5}
    if what == 'line':
        n = rng.choice([1, 2, 3, rng.randint(4, 40)])
        nodes = [pt() for _ in range(n)]
        kind = rng.choice(['chain', 'loop', 'tree', 'random', 'isolated', 'none'])
        e = [[i, i + 1] for i in range(n - 1)]
        if kind == 'loop' and n > 2:
            e.append([n - 1, 0])
        elif kind == 'tree':
            e = [[rng.randrange(i), i] for i in range(1, n)]
        elif kind == 'random':
            e = [[i, j] for i in range(n) for j in range(i) if rng.random() < 2. / n]
        elif kind == 'isolated':
            e = [x for x in e if rng.random() < 0.5]
        elif kind == 'none':
            e = []
        deg = {}
        for i in range(n):
            d = sum(i in x for x in e)
            deg[d] = deg.get(d, 0) + 1
        deg.pop(2, None)
        return {'what': 'line', 'nodes': nodes, 'edges': e, 'degree': rng.choice([sorted(deg.items())] * 3 + [[], [[1, 2]]])}
    if what == 'object':
        shape = rng.choice([None, 'point', 'line'])
        return {'what': 'object', 'pos': [pt() for _ in range(rng.choice([1, 1, 2, rng.randint(3, 30)]))],
                'dim': rng.choice([None, 0, 1, 2, dim]), 'shape': made(rng, shape, dim) if shape else None}
    out = {'what': what, 'limits': [[gen.rnd(a), gen.rnd(a + rng.choice([1., 2.5, 10.]))] for a in [rng.uniform(-3, 3) for _ in range(dim)]],
           'periodic': rng.random() < 0.5}
    if what == 'ident':
        out['fs'] = gen.rnd(10**rng.uniform(-4, 0))
        out['results'] = [made(rng, 'object', dim) for _ in range(rng.choice([0, 1, 2, rng.randint(3, 15)]))]
    return out


def nths(rng, n):
    if rng.random() < 0.6:
        a = rng.choice([1, 1, 1, 30, rng.randint(1, 400)])
        return list(range(a, a + n))
    return sorted(rng.sample(range(1, rng.choice([100, 300, 1000])), n))


def save_fault(rng, ops=('write', 'write', 'write', 'write', 'open', 'any', 'any', 'read', 'alloc')):
    op = rng.choice(list(ops))
    if op == 'alloc':
        return {'op': op, 'nth': rng.choice([1, rng.randint(1, 10), rng.randint(1, 60), rng.randint(1, 400)]), 'errno': 'NOMEM', 'count': 1}
    return {'op': op, 'nth': rng.choice([1, 1, 1, rng.randint(1, 4), rng.randint(1, 200)]),
            'errno': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EACCES'] if op == 'open' else ['ENOSPC', 'EIO', 'EDQUOT'] + ['SHORT'] * (op == 'write')),
            'count': rng.choice([1, 1, 1, 2, -1])}


def load_fault(rng):
    op = rng.choice(['read', 'read', 'read', 'read', 'ropen'])
    return {'op': op, 'nth': rng.choice([1, rng.randint(1, 10), rng.randint(1, 100), rng.randint(1, 1000)]) if op == 'read' else 1,
            'errno': rng.choice(['EIO', 'ESTALE'] if op == 'read' else ['EACCES', 'EIO', 'EMFILE']), 'count': rng.choice([1, 1, 2, -1])}


def op_lives(rng, files, n):
    """Lives which load, save and damage the given files."""
    lives = []
    for _ in range(n):
        f = rng.choice(files)
        ops = []
        k = rng.choice(['save', 'save', 'load', 'trunc', 'trunc', 'twice', 'over', 'sweep', 'sweep'])
        if k == 'save':
            ops = [{'op': 'load', 'file': f, 'as': 'a'}, {'op': 'save', 'src': 'a', 'file': 'n.hdf5', 'faults': [save_fault(rng)]},
                   {'op': 'load', 'file': 'n.hdf5'}]
            if rng.random() < 0.3:
                ops += [{'op': 'save', 'src': 'a', 'file': 'm.hdf5'}, {'op': 'load', 'file': 'm.hdf5'}]
        elif k == 'load':
            ops = [{'op': 'load', 'file': f, 'faults': [load_fault(rng)]}, {'op': 'load', 'file': f}]
        elif k == 'trunc':
            t = {'op': 'truncate', 'file': f}
            if rng.random() < 0.5:
                t['frac'] = round(rng.random(), 4)
            else:
                t['n'] = rng.choice([0, 1, 7, 8, 48, 96, 100, 512, 2048, rng.randint(0, 4000), -1, -2, -8, -512, -rng.randint(1, 4000)])
            ops = [t, {'op': 'load', 'file': f}]
        elif k == 'sweep':
            if rng.random() < 0.3:
                ops = [{'op': 'load', 'file': f, 'as': 'a'}, {'op': 'sweep', 'src': 'a', 'file': 'n.hdf5', 'nths': nths(rng, 40),
                                                             'fault': dict(save_fault(rng, ['alloc', 'alloc', 'any', 'any', 'write']), count=1)}]
            else:
                ops = [{'op': 'sweep', 'file': f, 'nths': nths(rng, 60), 'fault': {
                    'op': 'read', 'errno': 'EIO', 'count': rng.choice([1, 1, -1])}}]
        elif k == 'twice':
            ops = [{'op': 'load', 'file': f, 'as': 'a'}, {'op': 'save', 'src': 'a', 'file': 'n.hdf5'},
                   {'op': 'load', 'file': 'n.hdf5', 'as': 'b'}, {'op': 'save', 'src': 'b', 'file': f}, {'op': 'load', 'file': f}]
        else:
            g = rng.choice(files)
            ops = [{'op': 'load', 'file': f, 'as': 'a'}, {'op': 'save', 'src': 'a', 'file': g,
                                                         'faults': [save_fault(rng)] if rng.random() < 0.5 else []},
                   {'op': 'load', 'file': g}]
        lives.append({'seed': rng.randrange(1 << 30), 'runs': [], 'save_name': 'none.hdf5', 'ops': ops})
    return lives


class P17:
    id = 'P17'

    def gen(self, rng, tier):
        sc = {'prop': 'P17', 'lives': []}
        ops = []
        runs = []
        r = rng.random()
        if r < 0.3:
            ops.append({'op': 'make', 'as': 'm', 'spec': made(rng, rng.choice(['point', 'line', 'line', 'object', 'object', 'ident', 'ident', 'coords']),
                                                              rng.choice([1, 2, 2, 3]))})
            ops += [{'op': 'save', 'src': 'm', 'file': 'r.hdf5'}, {'op': 'load', 'file': 'r.hdf5'}]
            if rng.random() < 0.5:
                ops += [{'op': 'save', 'src': 'm', 'file': 'x.hdf5', 'faults': [save_fault(rng)]}, {'op': 'load', 'file': 'x.hdf5'}]
            sc['lives'].append(gen.life(rng, [], ops=ops))
            sc['after'] = op_lives(rng, ['r.hdf5'], rng.randint(0, 4))
            return sc
        if r < 0.75:
            s = gen.search(rng, save=rng.random() < 0.5, p_nohist=0.25)
            g = gen.gap(rng)
            s['save_delay'] = gen.save_delay(rng, g, s['P'], 5)
            runs = [gen.run(rng, s, g)]
            if rng.random() < 0.3:      # stopped with work left
                runs[0]['gap']['faults'] = [{'at': 'ret', 'n': rng.choice([1, 5, rng.randint(1, 300)]), 'exc': 'ValueError'}]
            srcs = ['state0', 'result0']
            ops += [{'op': 'save', 'src': 'state0', 'file': 's.hdf5'}, {'op': 'save', 'src': 'result0', 'file': 'r.hdf5'}]
            src = 'result0'
            fs = rng.choice([None, None, gen.rnd(s['feature_size'] * rng.choice([0.3, 2.]))])
            if rng.random() < 0.5:
                ops += [{'op': 'part', 'src': 'result0', 'as': 'p', 'path': ['coordinate_system']},
                        {'op': 'save', 'src': 'p', 'file': 'p.hdf5'}]
        else:
            ops.append(line_op(rng, 'c'))
            src = 'c'
            fs = rng.choice([None, None, gen.rnd(ops[0]['fs'] * rng.choice([0.5, 2.]))])
            srcs = ['c']
            ops.append({'op': 'save', 'src': 'c', 'file': 'r.hdf5'})
        ops.append({'op': 'identify', 'src': src, 'as': 'id', 'method': rng.choice(METHODS), 'fs': fs, 'seed': rng.randrange(1 << 30)})
        ops.append({'op': 'save', 'src': 'id', 'file': 'i.hdf5'})
        srcs.append('id')
        for path in ([0], [0, 'shape']):
            if rng.random() < 0.3:
                ops += [{'op': 'part', 'src': 'id', 'as': 'q%d' % len(path), 'path': path},
                        {'op': 'save', 'src': 'q%d' % len(path), 'file': 'q%d.hdf5' % len(path)}]
        files = sorted({o['file'] for o in ops if o['op'] == 'save'})
        ops += [{'op': 'load', 'file': f} for f in files]
        if rng.random() < 0.5:
            ops += [{'op': 'save', 'src': rng.choice(srcs), 'file': 'x.hdf5', 'faults': [save_fault(rng)]}, {'op': 'load', 'file': 'x.hdf5'}]
        sc['lives'].append(gen.life(rng, runs, ops=ops))
        sc['after'] = op_lives(rng, files, rng.randint(4, 12))
        return sc

    def run(self, sc, ctx):
        out = []
        ctx.fresh()
        l = sc['lives'][0]
        h = ctx.life(l)
        if h['exit'] != 'ok':
            return out
        known = {}
        judge_ops(l['ops'], h, known, out, ctx.stats)
        ctx.stats.nontrivial += 1
        files = ctx.files()
        have = {k: v for k, v in known.items() if v}
        for l2 in sc.get('after', ()):
            need = {op['file'] for op in l2['ops'] if op['op'] in ('load', 'truncate')} - {'n.hdf5', 'm.hdf5'}
            if not need <= set(have):
                continue
            ctx.fresh({f: files[f] for f in have})
            h2 = ctx.life(l2)
            if h2['exit'] != 'ok':
                out.append(Violation('dies', 'loading or saving ends the process: %s (%s)' % (h2['exit'], h2['why'])))
                continue
            judge_ops(l2['ops'], h2, dict(have), out, ctx.stats)
        return out
