"""P03, P04, P07-P11, P14, P15, P24: what the search computes, under every schedule, crash and resume."""
import copy
import itertools
import json
import math

import numpy as np

from . import gen, proc
from .core import Violation
from .hist import counts_of, events, feq, full_same, light, outcome_str, same_result, snapshot_error
from .props_disk import small_search

EPS = 1e-9


# -- geometry -----------------------------------------------------------------

class Box:
    def __init__(self, limits, periodic):
        self.limits = [sorted(l) for l in limits]
        self.sizes = [b - a for a, b in self.limits]
        self.periodic = periodic

    def dist(self, a, b):
        s = 0.
        for L, x, y in zip(self.sizes, a, b):
            d = abs(x - y)
            if self.periodic:
                d = d % L
                d = min(d, L - d)
            s += d * d
        return math.sqrt(s)

    def inside(self, p):
        return all(a <= x < b for x, (a, b) in zip(p, self.limits))

    def same(self, a, b, tol=1e-9):
        """Same position, for periodic boxes up to lattice vectors."""
        return self.dist(a, b) <= tol


def near_count(box, simplex, nodes, cutoff, tol):
    """How many vertices have a node (not exactly on them) closer than cutoff + tol."""
    n = 0
    for v in simplex:
        if any(tuple(c) != tuple(v) and box.dist(v, c) < cutoff + tol for c in nodes):
            n += 1
    return n


def stencil_of(s, cutoff):
    """The scaled stencil as the search uses it; None without refinement."""
    st = s.get('stencil', 'auto')
    if st is None:
        return None
    from nodefinder.search import refinement_stencil as rs
    if isinstance(st, dict):
        if 'mesh' in st:
            return rs.get_mesh_stencil(mesh_size=st['mesh'], dist_multiplier=st.get('mult', 2.5)) * cutoff
        return np.array(st['custom'], dtype=float) * cutoff
    return rs.get_auto_stencil(dim=len(s['limits'])) * cutoff


def key(simplex):
    return tuple(sorted(tuple(float(x) for x in v) for v in simplex))


def close_keys(a, b, tol=1e-8):
    """The same simplex up to rounding (which can change the order of the vertices)."""
    a, b = np.array(a), np.array(b)
    if a.shape != b.shape:
        return False
    if np.all(np.abs(a - b) <= tol):
        return True
    if np.any(np.abs(a.sum(0) - b.sum(0)) > tol * len(a)):
        return False
    used = set()
    for v in a:
        m = [i for i in range(len(b)) if i not in used and np.all(np.abs(b[i] - v) <= tol)]
        if not m:
            return False
        used.add(m[0])
    return True


def match(wanted, got):
    """Pairs each simplex of the list `got` with one of `wanted` (distinct simplices): exact matches
    first, then matches up to rounding.  ({wanted: times matched}, [unmatched])"""
    times = dict.fromkeys(wanted, 0)
    rest = []
    for k in got:
        if k in times:
            times[k] += 1
        else:
            rest.append(k)
    left = []
    for k in rest:
        cands = [w for w in times if close_keys(w, k)]
        if cands:
            best = min(cands, key=lambda w: times[w])
            times[best] += 1
        else:
            left.append(k)
    return times, left


def universe(initial, final, s):
    """All start simplices there should be: those to be done initially, and the stencils around
    the positions refined since."""
    u = dict.fromkeys(key(k) for k in initial['simplices'])
    st = stencil_of(s, final['dist_cutoff'])
    n0 = len(initial['refined'])
    if st is not None:
        for pos in final['refined'][n0:]:
            u.update(dict.fromkeys(key(sim) for sim in np.array(pos) + st))
    return list(u)


def has_history(s):
    return s.get('nm', {}).get('keep_history', True)


def accounting(initial, final, s, what='the search', todo=(), again={}):
    """Every start simplex has exactly one result or is near a known node; nothing else was done."""
    out = []
    box = Box(final['limits'], final['periodic'])
    cutoff = final['dist_cutoff']
    allowed = s.get('simplex_cutoff', 0)
    u = universe(initial, final, s)
    results = final['nodes'][len(initial['nodes']):] + final['rejected'][len(initial['rejected']):]
    done, extra = match(u, [r['start'] for r in results])
    if extra:
        out.append(Violation('extra', '%s has a result for start simplex %s that nobody asked for' % (what, fmt(extra[0]))))
        return out, 0
    waiting, _ = match(u, [key(k) for k in todo])
    nodes = [n['pos'] for n in final['nodes']]
    skipped = 0
    for k in u:
        c = done[k]
        if c > 1 + again.get(k, 0):
            out.append(Violation('twice', '%s minimised start simplex %s %d times' % (what, fmt(k), c)))
        if c >= 1 + again.get(k, 0) and waiting[k]:
            out.append(Violation('repeat', '%s lists start simplex %s as to be done although it is finished' % (what, fmt(k))))
        if c == 0 and not waiting[k]:
            if near_count(box, k, nodes, cutoff, EPS) > allowed:
                skipped += 1
            else:
                out.append(Violation('lost', '%s never minimised start simplex %s, which is not near enough to known nodes (%d of %d vertices)'
                                     % (what, fmt(k), near_count(box, k, nodes, cutoff, EPS), len(k))))
        if len(out) > 3:
            break
    return out, skipped


def fmt(k):
    return '[%s]' % ', '.join('(%s)' % ', '.join('%.6g' % x for x in v) for v in k)


def nodes_covered(d, s, what, kind='unrefined'):
    """Every node is near a refined position or one listed for refinement."""
    if s.get('stencil', 'auto') is None:
        return []
    box = Box(d['limits'], d['periodic'])
    cutoff = d['dist_cutoff']
    centres = list(d['refined']) + list(d.get('positions', ()))
    for n in d['nodes']:
        if not any(box.dist(n['pos'], c) < cutoff + EPS for c in centres):
            return [Violation(kind, '%s: node %s is %.6g from the nearest refined position, the cutoff is %.6g' % (
                what, n['pos'], min([box.dist(n['pos'], c) for c in centres], default=math.inf), cutoff))]
    return []


def async_gap(rng, **kw):
    return gen.gap(rng, modes=['sleep', 'sleep', 'future', 'future', 'workers', 'workers', 'batch', 'async0'], **kw)


def ended(h, rid=0):
    o = h['runs'][rid]['outcome']
    return h['exit'] == 'ok' and o is not None and o['kind'] == 'return'


def failed(h, rid=0):
    """A search whose evaluations all succeed has no reason to fail."""
    o = h['runs'][rid]['outcome'] if h['runs'] else None
    if o is not None and o['kind'] == 'raise':
        return [Violation('raised', 'the search %s' % outcome_str(o))]
    return []


# -- P03 ----------------------------------------------------------------------

class P03:
    id = 'P03'

    def gen(self, rng, tier):
        s = gen.search(rng, P=rng.choice([1, 2, 3, 3, 5, 8, 50]))
        if rng.random() < 0.5:
            s['simplex_cutoff'] = 99
        g = async_gap(rng) if rng.random() < 0.85 else gen.gap(rng)
        sc = {'prop': 'P03', 'lives': []}
        n = rng.choice([2, 2, 3, 4])
        for i in range(n):
            g2 = g if rng.random() < 0.6 else gen.gap(rng)
            s2 = dict(s, load=i > 0, load_quiet=True)
            if i > 0 and rng.random() < 0.2:
                # resumed from the state instead of the name of the file
                s2.update(load=False, initial_state='save')
            if i > 0 and rng.random() < 0.25:
                s2['force'] = True
                if rng.random() < 0.7:
                    s2['mesh'] = gen.other_mesh(rng, s['mesh'], len(s['limits']))
            s2['save_delay'] = gen.save_delay(rng, g2, s['P'], 12)
            if rng.random() < 0.2:
                s2['P'] = rng.choice([1, 2, 4, 50])
            l = gen.life(rng, [gen.run(rng, s2, g2)], index=i)
            if i < n - 1:
                r = rng.random()
                if r < 0.5:
                    l['crash'] = {'at': 'gap', 'n': rng.randint(1, 500)}
                elif r < 0.7:
                    l['crash'] = {'at': 'op', 'op': 'rename', 'phase': rng.choice(['before', 'after']), 'n': rng.randint(1, 6)}
                elif r < 0.85:
                    l['runs'][0]['gap'] = dict(g2, faults=[{'at': rng.choice(['call', 'ret']), 'n': rng.randint(1, 400),
                                                            'exc': rng.choice(['ValueError', 'KeyboardInterrupt', 'CancelledError'])}])
                else:
                    l['runs'][0]['entry'] = 'async'
                    l['runs'][0]['cancel'] = {'gap': [rng.randint(1, 400)]} if rng.random() < 0.5 else {'iter': [rng.randint(2, 800)]}
            sc['lives'].append(l)
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        out = []
        first = None            # the initial state of the first life
        again = {}              # what may be done again, since force_initial_mesh asked for it
        for i, l in enumerate(sc['lives']):
            pre = ctx.files().get('save.hdf5')
            if i and pre == before[0]:
                # the last life has not saved, so that what it was asked for is forgotten
                first, again = before[1:]
            before = (pre, first, dict(again))
            s = l['runs'][0]['search']
            h = ctx.life(l)
            init = (h.get('initial') or {}).get(0)
            final = h['runs'][0]['state']
            if init is None:
                o = h['runs'][0]['outcome']
                if o is not None and not h['kinds'].get('cancel'):
                    out.append(Violation('no-start', 'life %d did not start: %s' % (i, outcome_str(o))))
                break
            if h['exit'] in ('budget', 'deadlock', 'livelock', 'spin', 'hang'):
                ctx.stats.inconclusive += 1
            if first is None or pre is None:
                first = init
            if pre is not None:
                ok, d = proc.inspect([pre])[0]
                if not ok:
                    break
                ctx.stats.probe('resumed')
                # the file has no entry that is running twice; the resume must take over everything
                if counts_of(d) != counts_of(init):
                    out.append(Violation('resume-loses', 'life %d: the file holds %s (nodes, rejected, refined), the resumed search has %s'
                                         % (i, counts_of(d), counts_of(init))))
                err = snapshot_error(d, init)
                if err and not out:
                    out.append(Violation('resume-changes', 'life %d: the file, compared with the resumed search, %s' % (i, err)))
                for k in match([key(k) for k in init['simplices']], [key(k) for k in d['simplices']])[1]:
                    out.append(Violation('resume-drops', 'life %d: start simplex %s of the file is not taken over' % (i, fmt(k))))
                    break
                extra = match([key(k) for k in d['simplices']], [key(k) for k in init['simplices']])[1]
                if s.get('force'):
                    mesh = self.mesh_of(l, ctx)
                    if mesh is None:
                        break
                    ctx.stats.probe('resumed with the initial mesh added')
                    ctx.stats.probe('start simplices added', len(extra))
                    extra = match(mesh, extra)[1]
                    todo = match(mesh, [key(k) for k in init['simplices']])[0]
                    for k in mesh:
                        again[k] = again.get(k, 0) + 1
                        if todo[k] != 1:
                            out.append(Violation('not-forced', 'life %d: start simplex %s of the initial mesh is to be done %d times, with force_initial_mesh' % (
                                i, fmt(k), todo[k])))
                            break
                    first = dict(first, simplices=list(first['simplices']) + mesh)
                if extra:
                    out.append(Violation('resume-adds', 'life %d: start simplex %s is neither in the file nor in an initial mesh that was asked for' % (
                        i, fmt(extra[0]))))
                if not set(d['positions']) <= set(init['positions']):
                    out.append(Violation('resume-drops', 'life %d: a queued position of the file is not taken over' % i))
            if out:
                break
            # every snapshot
            vers = [v for v in h['versions'] if v[2] is not None and v[2] != pre]
            for (op, kind, data, at), (ok, d) in zip(vers, proc.inspect([v[2] for v in vers], full=True)):
                if not ok or 'nodes' not in d:
                    continue                    # P01
                ctx.stats.probe('snapshots checked')
                ctx.stats.probe('snapshots with work in progress', int(len(d['simplices']) > 0))
                v, skipped = accounting(first, d, s, 'life %d: the snapshot at file operation %d' % (i, op), todo=d['simplices'],
                                        again=again)
                out += v
                out += nodes_covered(d, s, 'life %d: the snapshot at file operation %d' % (i, op))
                if out:
                    break
            if out:
                break
            if ended(h):
                v, skipped = accounting(first, final, s, 'life %d: the completed search' % i, again=again)
                out += v
                out += nodes_covered(final, s, 'life %d: the completed search' % i)
                ctx.stats.probe('completed after resume', int(i > 0))
                ctx.stats.nontrivial += 1
                break
        return out


    def mesh_of(self, l, ctx):
        """The initial mesh of the life, as a fresh search has it."""
        l = json.loads(json.dumps(l))
        l['runs'] = [dict(l['runs'][0], entry='async', gap={'mode': 'sync'})]
        l['runs'][0].pop('cancel', None)
        l['runs'][0]['search'].update(save=False, load=False, initial_state=None)
        l['crash'] = {'at': 'gap', 'n': 1}
        h = ctx.life(l)
        init = (h.get('initial') or {}).get(0)
        return None if init is None else [key(k) for k in init['simplices']]


# -- P04 ----------------------------------------------------------------------

def compare_search(a, b, tol, what_a, what_b, exact=False):
    for what in ('nodes', 'rejected'):
        for k, (x, y) in enumerate(zip(a[what], b[what])):
            same = full_same(x, y) if exact else same_result(x, y, tol)
            if not same:
                return '%s[%d] is %r for %s but %r for %s' % (what, k, light(x), what_a, light(y), what_b)
        if len(a[what]) != len(b[what]):
            return '%d %s for %s but %d for %s' % (len(a[what]), what, what_a, len(b[what]), what_b)
    for k, (x, y) in enumerate(zip(a['refined'], b['refined'])):
        if any(abs(u - v) > tol for u, v in zip(x, y)):
            return 'refined[%d] is %r for %s but %r for %s' % (k, x, what_a, y, what_b)
    if len(a['refined']) != len(b['refined']):
        return '%d refined positions for %s but %d for %s' % (len(a['refined']), what_a, len(b['refined']), what_b)
    return None


class P04:
    id = 'P04'

    def gen(self, rng, tier):
        if rng.random() < 0.15:
            # ends by coming back to places where it has been: the memory of the queues counts
            s = gen.search(rng, P=1, kind='flat', dim=rng.choice([1, 2, 2]))
            s['landscape']['value'] = 0.
            s['recheck'] = False
            s['stencil'] = {'mesh': [rng.randint(1, 3) for _ in s['limits']], 'mult': rng.choice([1.5, 2.5])}
        else:
            s = gen.search(rng, P=1)
        g = gen.gap(rng)
        sc = {'prop': 'P04', 'lives': []}
        n = rng.choice([2, 2, 3, 5])
        for i in range(n):
            g2 = g if rng.random() < 0.6 else gen.gap(rng)
            s2 = dict(s, load=i > 0, load_quiet=True)
            s2['save_delay'] = gen.save_delay(rng, g2, 1, 12)
            l = gen.life(rng, [gen.run(rng, s2, g2)], index=i)
            if i < n - 1:
                r = rng.random()
                if r < 0.7:
                    l['crash'] = {'at': 'gap', 'n': rng.choice([rng.randint(1, 60), rng.randint(1, 800)])}
                elif r < 0.85:
                    l['crash'] = {'at': 'op', 'op': 'rename', 'phase': rng.choice(['before', 'after']), 'n': rng.randint(1, 6)}
                else:
                    l['runs'][0]['gap'] = dict(g2, faults=[{'at': rng.choice(['call', 'ret']), 'n': rng.randint(1, 400),
                                                            'exc': rng.choice(['ValueError', 'KeyboardInterrupt'])}])
            sc['lives'].append(l)
        if 'crash' not in sc['lives'][-2] and rng.random() < 0.7:
            # resumed in the same process
            l = sc['lives'].pop(-2)
            sc['lives'][-1]['runs'].insert(0, l['runs'][0])
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        resumed = 0
        h = None
        for i, l in enumerate(sc['lives']):
            pre = ctx.files().get('save.hdf5')
            h = ctx.life(l)
            init = (h.get('initial') or {}).get(0)
            if init is None:
                return []
            resumed += pre is not None
            if len(l['runs']) > 1:
                ctx.stats.probe('resumed in the same process')
                resumed += 1
            if ended(h, -1):
                break
        if not ended(h, -1):
            return []
        a = h['runs'][-1]['state']
        l = json.loads(json.dumps(sc['lives'][0]))
        l.pop('crash', None)
        del l['runs'][1:]
        l['runs'][0]['gap'] = {'mode': 'async0'}
        l['runs'][0]['entry'] = 'async'
        l['runs'][0]['search']['save'] = False
        ctx.fresh()
        r = ctx.life(l)
        if not ended(r):
            ctx.stats.inconclusive += 1
            return []
        ctx.stats.probe('resumes', resumed)
        ctx.stats.probe('compared after at least one resume', int(resumed > 0))
        b = r['runs'][0]['state']
        ctx.stats.nontrivial += int(resumed > 0)
        err = compare_search(a, b, 1e-7, 'the resumed search', 'the uninterrupted one')
        return [Violation('differs', err)] if err else []


# -- P07 ----------------------------------------------------------------------

class P07:
    id = 'P07'

    def gen(self, rng, tier):
        s = gen.search(rng, save=rng.random() < 0.4)
        if rng.random() < 0.45:
            s['simplex_cutoff'] = rng.choice([99, 99, 1, 2])
        if isinstance(s['stencil'], dict) and 'custom' in s['stencil'] and rng.random() < 0.35:
            c = s['stencil']['custom']
            d = [list(v) for v in rng.choice(c)]
            rng.shuffle(d)
            c.append(d)
        g = gen.gap(rng)
        s['save_delay'] = gen.save_delay(rng, g, s['P'], 5)
        return {'prop': 'P07', 'lives': [gen.life(rng, [gen.run(rng, s, g)])]}

    def run(self, sc, ctx):
        ctx.fresh()
        h = ctx.life(sc['lives'][0])
        s = sc['lives'][0]['runs'][0]['search']
        out = []
        o = h['runs'][0]['outcome']
        if not ended(h):
            if o is not None and o['kind'] == 'raise':
                out.append(Violation('raised', 'the search %s' % outcome_str(o)))
            elif h['exit'] in ('deadlock', 'livelock', 'spin'):
                out.append(Violation('no-end', h['why']))
            return out
        init = h['initial'][0]
        final = h['runs'][0]['state']
        if o['result'] is not None and counts_of(o['result']) != counts_of(final):
            out.append(Violation('result', 'the returned result holds %s, the state %s' % (counts_of(o['result']), counts_of(final))))
        v, skipped = accounting(init, final, s)
        out += v
        ctx.stats.probe('start simplices skipped near nodes', skipped)
        ctx.stats.probe('start simplices', len(final['nodes']) + len(final['rejected']))
        total = sum(r['num_fev'] for r in final['nodes'] + final['rejected'])
        if total != h['runs'][0]['ncalls']:
            out.append(Violation('evaluations', 'num_fev adds up to %d, the gap function was called %d times' % (total, h['runs'][0]['ncalls'])))
        if final['simplices'] or final['positions']:
            out.append(Violation('unfinished', 'the search returned with %d start simplices and %d positions to be done'
                                 % (len(final['simplices']), len(final['positions']))))
        ctx.stats.nontrivial += 1
        return out


# -- P08 ----------------------------------------------------------------------

def spans(h, rid=0):
    """{label: [first event, last event]} of the minimisations, by their gap evaluations.
    The last event is None if an evaluation never came back."""
    sp = {}
    open_calls = {}
    for i, e in enumerate(h['events']):
        if e[2] in ('call', 'ret') and e[3] == rid:
            lab = e[5]
            sp.setdefault(lab, [i, i])[1] = i
            n = open_calls[lab] = open_calls.get(lab, 0) + (1 if e[2] == 'call' else -1)
    for lab, n in open_calls.items():
        if n:
            sp[lab][1] = None
    return sp


class P08:
    id = 'P08'

    def gen(self, rng, tier):
        s = gen.search(rng, save=rng.random() < 0.3, P=rng.choice([1, 1, 2, 2, 3, 3, 4, 6, 10]))
        if isinstance(s['mesh'], list) and len(s['mesh']) == 2 and rng.random() < 0.6:
            s['mesh'] = [rng.randint(2, 4), rng.randint(2, 4)]
        if rng.random() < 0.3:
            s['simplex_cutoff'] = 99
        g = async_gap(rng)
        if g['mode'] != 'async0' and rng.random() < 0.6:
            n = rng.randint(1, max(1, s['P'] - 1))
            g['stalls'] = [{'n': rng.choice([rng.randint(1, 12), rng.randint(1, 150)]), 'd': rng.choice([1e3, 1e5])} for _ in range(n)]
        s['save_delay'] = gen.save_delay(rng, g, s['P'], 5)
        return {'prop': 'P08', 'lives': [gen.life(rng, [gen.run(rng, s, g)], watch=True)]}

    def run(self, sc, ctx):
        ctx.fresh()
        h = ctx.life(sc['lives'][0])
        s = sc['lives'][0]['runs'][0]['search']
        P = s['P']
        out = []
        if not h['runs'] or not h['runs'][0]['ncalls']:
            return out
        sp = spans(h)
        start = {v[0]: k for k, v in sp.items()}
        stop = {v[1]: k for k, v in sp.items()}
        active = set()
        q = (0, 0)
        top = 0
        idle_from = None
        lim = 20
        last = len(h['events']) - 1
        end_at = next((i for i, e in enumerate(h['events']) if e[2] == 'end'), None)
        for i, e in enumerate(h['events']):
            if end_at is not None and i >= end_at:
                break
            # the stretch since the last event: nothing happened in it
            if idle_from is not None and e[0] - idle_from[0] > lim:
                out.append(Violation('idle', 'from iteration %d to %d (%.4g s) only %d of %d minimisations were in progress although %d start '
                                     'simplices and %d positions were waiting' % (idle_from[0], e[0], e[1] - idle_from[1], len(active), P,
                                                                                  q[0] - len(active), q[1])))
                break
            if i in start:
                active.add(start[i])
                idle_from = None
                top = max(top, len(active))
                if len(active) > P:
                    out.append(Violation('too-many', '%d minimisations in progress at t=%.6g (iteration %d), num_minimize_parallel is %d'
                                         % (len(active), e[1] - 1000, e[0], P)))
                    break
            if i in stop:
                active.discard(stop[i])
            if e[2] == 'queue' and e[3] == 0:
                q = e[4]
            if len(active) < P and (q[0] > len(active) or q[1] > 0):
                if idle_from is None:
                    idle_from = (e[0], e[1])
            else:
                idle_from = None
        ctx.stats.probe('limit reached', int(top == P))
        ctx.stats.probe('stalled evaluations', h['kinds'].get('stall', 0))
        if h['exit'] in ('deadlock', 'livelock', 'spin'):
            out.append(Violation('idle', h['why']))
        ctx.stats.nontrivial += int(top == P)
        return out


# -- P09 ----------------------------------------------------------------------

def strip(r):
    return repr(r)


class P09:
    id = 'P09'

    def gen(self, rng, tier):
        serial = rng.random() < 0.5
        s = gen.search(rng, save=False, P=1 if serial else rng.choice([2, 3, 5, 50]))
        if not serial:
            s['fake'] = False
            if rng.random() < 0.7:
                s['simplex_cutoff'] = 99
        lives = []
        for i in range(rng.choice([1, 2])):
            g = gen.gap(rng) if serial else async_gap(rng)
            if g['mode'] not in ('sync', 'async0') and rng.random() < 0.3:
                g['stalls'] = [{'n': rng.randint(1, 60), 'd': rng.choice([10., 1e4])} for _ in range(rng.randint(1, 3))]
            s2 = dict(s, save=rng.random() < 0.4)
            s2['save_delay'] = gen.save_delay(rng, g, s['P'], 8)
            l = gen.life(rng, [gen.run(rng, s2, g)])
            if rng.random() < 0.2:
                l['clock']['jumps'] = [[1000 + gen.rnd(rng.uniform(0, 20)), rng.choice([1., 100., 1e5])] for _ in range(2)]
            lives.append(l)
        return {'prop': 'P09', 'lives': lives}

    def run(self, sc, ctx):
        out = []
        l0 = json.loads(json.dumps(sc['lives'][0]))
        l0['runs'][0]['gap'] = {'mode': 'sync'}
        l0['runs'][0]['entry'] = 'async'
        l0['runs'][0]['search'].update(P=1, save=False)
        l0['clock'] = {}
        l0.pop('gc_every', None)
        ctx.fresh()
        ref = ctx.life(l0)
        serial = all(l['runs'][0]['search']['P'] == 1 for l in sc['lives'])
        if not ended(ref):
            ctx.stats.inconclusive += 1
            return out
        b = ref['runs'][0]['state']
        by_start = {}
        for r in b['nodes'] + b['rejected']:
            if 'start' in r:
                by_start.setdefault(r['start'], strip(r))
        for i, l in enumerate(sc['lives']):
            ctx.fresh()
            h = ctx.life(l)
            if not ended(h):
                o = h['runs'][0]['outcome'] if h['runs'] else None
                if o is not None and o['kind'] == 'raise':
                    out.append(Violation('raised', 'schedule %d: the search %s, the serial one returned' % (i, outcome_str(o))))
                elif serial and h['exit'] != 'budget':
                    out.append(Violation('no-end', 'schedule %d: %s' % (i, h['why'])))
                continue
            a = h['runs'][0]['state']
            if serial:
                err = compare_search(a, b, 0., 'schedule %d' % i, 'plain function calls', exact=True)
                if err:
                    out.append(Violation('serial', err))
                if h['runs'][0]['ncalls'] != ref['runs'][0]['ncalls']:
                    out.append(Violation('serial', 'schedule %d makes %d evaluations instead of %d' % (i, h['runs'][0]['ncalls'], ref['runs'][0]['ncalls'])))
                ctx.stats.probe('serial schedules compared')
            else:
                n = 0
                for r in a['nodes'] + a['rejected']:
                    if 'start' not in r or r['start'] not in by_start:
                        continue
                    n += 1
                    if strip(r) != by_start[r['start']]:
                        out.append(Violation('timing', 'schedule %d: minimising start simplex %s gives %r, alone it gives %s' % (
                            i, fmt(r['start']), light(r), by_start[r['start']][:300])))
                        break
                ctx.stats.probe('minimisations compared', n)
                ctx.stats.probe('concurrent schedules compared')
            ctx.stats.nontrivial += 1
        return out


# -- P10 ----------------------------------------------------------------------

def gap_log(h, rid=0):
    """{position: [values returned there]} and per label."""
    pos = {}
    vals = {}
    for e in h['events']:
        if e[2] == 'call' and e[3] == rid:
            pos[e[4]] = e[6]
        elif e[2] == 'ret' and e[3] == rid:
            vals.setdefault(pos[e[4]], []).append((e[6], e[7], e[5]))
    return vals


def part_history(part):
    """[(vertex, value)] of one Nelder-Mead run."""
    sh, fsh = part.get('sh'), part.get('fsh')
    if sh is None or fsh is None:
        return []
    seen = set()
    out = []
    for sim, f in zip(sh, fsh):
        for v, x in zip(sim, f):
            k = (tuple(v), repr(x))
            if k not in seen:
                seen.add(k)
                out.append((tuple(v), x))
    return out


def has_value(vals, v, x):
    return any(feq(x, y[0]) for y in vals.get(tuple(v), ()))


class P10:
    id = 'P10'

    def gen(self, rng, tier):
        s = gen.search(rng, save=False, p_holes=0.5)
        if rng.random() < 0.5 and 'nm' in s:
            s['nm'].pop('maxiter', None)
        if rng.random() < 0.35:
            s.setdefault('nm', {})['fprime_cutoff'] = gen.rnd(rng.choice([0.05, 0.3, 1., 3.]))
        g = gen.gap(rng)
        if rng.random() < 0.6 and g['mode'] in ('sleep', 'future', 'workers'):
            g['delay'] = {'kind': rng.choice(['lifo', 'uniform']), 'c': 0.1, 'w': rng.randint(2, 6), 'lo': 0., 'hi': 0.3,
                          'seed': rng.randrange(1 << 30)}
        sc = {'prop': 'P10', 'lives': []}
        if rng.random() < 0.25:
            s = dict(s, save=True, save_delay=gen.save_delay(rng, g, s['P'], 6))
            l0 = gen.life(rng, [gen.run(rng, dict(s), gen.gap(rng))])
            l0['crash'] = {'at': 'gap', 'n': rng.randint(20, 500)}
            sc['lives'].append(l0)
            s['load'] = True
            if rng.random() < 0.5:
                # resumed with other settings: what is a node now is decided by them
                s['gap_threshold'] = gen.rnd(s['gap_threshold'] * rng.choice([0.05, 0.3, 3., 20.]), 3)
                if rng.random() < 0.3:
                    s['feature_size'] = gen.rnd(s['feature_size'] * rng.choice([0.7, 1.5]), 3)
        sc['lives'].append(gen.life(rng, [gen.run(rng, s, g)], index=1))
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        other = any(l['runs'][0]['search'][k] != sc['lives'][-1]['runs'][0]['search'][k]
                    for l in sc['lives'] for k in ('gap_threshold', 'feature_size'))
        if other:
            ctx.stats.probe('resumed with other settings')
        vals = {}
        h = None
        for l in sc['lives']:
            h = ctx.life(l)
            for k, v in gap_log(h).items():
                vals.setdefault(k, []).extend(v)
        out = failed(h)
        st = h['runs'][0]['state'] if h['runs'] else None
        if st is None:
            return out
        s = sc['lives'][-1]['runs'][0]['search']
        box = Box(st['limits'], st['periodic'])
        thr = s['gap_threshold']
        nm = s.get('nm', {})
        xtol = nm.get('xtol', 0.03 * s['feature_size'] / 3)
        ftol = nm.get('ftol', 0.05 * thr)
        for what in ('nodes', 'rejected'):
            for k, r in enumerate(st[what]):
                name = '%s[%d]' % (what, k)
                last = r['child'] if 'child' in r else r
                if last.get('sh') is not None:
                    x = tuple(last['sh'][-1][0])
                    if not has_value(vals, x, r['value']):
                        out.append(Violation('value', '%s reports %r at %r; the evaluations there returned %r' % (
                            name, r['value'], x, [v[0] for v in vals.get(x, ())][:3])))
                    ok = box.same(x, r['pos'], 1e-9) if st['periodic'] else x == r['pos']
                    if not ok:
                        out.append(Violation('position', '%s is listed at %r, its minimisation ended at %r' % (name, r['pos'], x)))
                else:
                    if not any(box.same(p, r['pos'], 1e-9) and has_value(vals, p, r['value']) for p in vals):
                        out.append(Violation('value', '%s reports %r at %r, which no evaluation returned there' % (name, r['value'], r['pos'])))
                if st['periodic'] and not box.inside(r['pos']):
                    out.append(Violation('outside', '%s is at %r, outside the box' % (name, r['pos'])))
                good = r['success'] and r['value'] <= thr
                if what == 'nodes' and not good:
                    out.append(Violation('not-a-node', '%s has success=%r, value=%r, the threshold is %r' % (name, r['success'], r['value'], thr)))
                if what == 'rejected' and good:
                    out.append(Violation('is-a-node', '%s has success=%r, value=%r, the threshold is %r' % (name, r['success'], r['value'], thr)))
                if what == 'nodes' and last.get('fsh') is not None and not other:
                    sim, f = np.array(last['sh'][-1]), np.array(last['fsh'][-1])
                    if not (np.max(np.abs(sim[1:] - sim[0])) <= xtol * (1 + 1e-9) and np.max(np.abs(f[1:] - f[0])) <= ftol * (1 + 1e-9)):
                        out.append(Violation('unconverged', '%s: the final simplex spans %r with values %r, the tolerances are %r, %r' % (
                            name, sim.tolist(), f.tolist(), xtol, ftol)))
                for part, fake in ((r.get('ancestor'), True), (last, False)):
                    if part is None:
                        continue
                    for v, x in part_history(part):
                        if has_value(vals, v, x) or fake and x == math.inf and v in vals:
                            continue
                        out.append(Violation('history', '%s: the history pairs %r with %r; the evaluations there returned %r' % (
                            name, v, x, [y[0] for y in vals.get(v, ())][:3])))
                        break
                ctx.stats.probe('results checked')
                if len(out) > 3:
                    return out
        bad = sum(1 for v in vals.values() for y in v if math.isnan(y[0]) or math.isinf(y[0]))
        ctx.stats.probe('evaluations returning NaN or infinity', bad)
        ctx.stats.nontrivial += 1
        return out


# -- P11 ----------------------------------------------------------------------

class P11:
    id = 'P11'

    def gen(self, rng, tier):
        kind = rng.choice([None, None, 'plane', 'circle', 'points'])
        s = gen.search(rng, save=False, kind=kind, p_holes=0.05)
        if s['stencil'] is None:
            s['stencil'] = {'custom': gen.custom_stencil(rng, len(s['limits']))}
        if rng.random() < 0.5:
            s.pop('recheck', None)
            s.pop('count_cutoff', None)
        else:
            s['recheck'] = rng.random() < 0.8
            s['count_cutoff'] = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < 0.15:
            # few cells
            s['feature_size'] = gen.rnd(min(abs(b - a) for a, b in s['limits']) * rng.choice([1.2, 1.5, 2.5, 3.5]), 3)
        g = async_gap(rng) if rng.random() < 0.8 else gen.gap(rng)
        sc = {'prop': 'P11', 'lives': []}
        if rng.random() < 0.2:
            s = dict(s, save=True, save_delay=gen.save_delay(rng, g, s['P'], 6))
            l0 = gen.life(rng, [gen.run(rng, dict(s), gen.gap(rng))])
            l0['crash'] = {'at': 'gap', 'n': rng.randint(20, 500)}
            sc['lives'].append(l0)
            s['load'] = True
        sc['lives'].append(gen.life(rng, [gen.run(rng, s, g)], index=1))
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        out = []
        for l in sc['lives']:
            h = ctx.life(l)
        out += failed(h)
        s = sc['lives'][-1]['runs'][0]['search']
        st = h['runs'][0]['state'] if h['runs'] else None
        init = (h.get('initial') or {}).get(0)
        if st is None or init is None:
            return out
        box = Box(st['limits'], st['periodic'])
        cutoff = st['dist_cutoff']
        if abs(cutoff - s['feature_size'] / 3) > 1e-12:
            out.append(Violation('cutoff', 'dist_cutoff is %r, a third of feature_size is %r' % (cutoff, s['feature_size'] / 3)))
        c = s.get('count_cutoff', 0)
        recheck = s.get('recheck', True)
        ref = st['refined']
        if recheck:
            for i in range(len(ref)):
                close = [j for j in range(i) if box.dist(ref[i], ref[j]) < cutoff - EPS]
                if len(close) > c:
                    out.append(Violation('too-close', 'refined position %d (%r) has %d earlier ones within %.6g, e.g. %r at %.6g; %d allowed' % (
                        i, ref[i], len(close), cutoff, ref[close[0]], box.dist(ref[i], ref[close[0]]), c)))
                    break
        if ended(h):
            out += nodes_covered(st, s, 'the completed search')
        # nodes that had to be queued, positions that were dropped
        n_nodes = len(init['nodes'])
        n_ref = len(init['refined'])
        todo = [tuple(p) for p in init['positions']]
        edge = False
        for e in h['events']:
            if e[2] == 'result' and e[3] == 0:
                nn, _, nr = e[4]
                for r in st['nodes'][n_nodes:nn]:
                    d = [box.dist(r['pos'], q) for q in ref[:n_ref]]
                    if any(abs(x - cutoff) < 1e-6 for x in d):
                        edge = True
                    if not any(x < cutoff + EPS for x in d):
                        todo.append(r['pos'])
                n_nodes, n_ref = nn, nr
        done = set(ref)
        if ended(h) and not edge:
            for p in todo:
                if p in done:
                    continue
                k = sum(box.dist(p, q) < cutoff + EPS for q in ref)
                ctx.stats.probe('positions dropped at launch')
                if not recheck or k <= c:
                    out.append(Violation('dropped', 'position %r was queued for refinement and never refined, with %d refined positions within %.6g '
                                         '(recheck_pos_dist=%r, recheck_count_cutoff=%d)' % (p, k, cutoff, recheck, c)))
                    break
            for p in ref[len(init['refined']):]:
                if p not in set(todo):
                    out.append(Violation('refined', 'position %r was refined although no node needed it' % (p, )))
                    break
        # launch decisions
        allowed = s.get('simplex_cutoff', 0)
        spawn = {e[4]: e[5] for e in h['events'] if e[2] == 'spawn' and e[3] == 0}
        first = {}
        pts = {}
        nnf = {}
        for e in h['events']:
            if e[2] == 'call' and e[3] == 0:
                pts.setdefault(e[5], []).append(e[6])
        dim = len(box.sizes)
        nodes = [n['pos'] for n in st['nodes']]
        for lab, ps in pts.items():
            if lab not in spawn or len(ps) < dim + 1:
                continue
            sim = ps[:dim + 1]
            known = nodes[:spawn[lab]]
            k = near_count(box, sim, known, cutoff, -EPS)
            ctx.stats.probe('launch decisions checked')
            if k > allowed:
                out.append(Violation('evaluated', 'start simplex %s was evaluated although %d of its vertices were within %.6g of the %d nodes known; '
                                     '%d allowed' % (fmt(sim), k, cutoff, len(known), allowed)))
                break
        if ended(h) and has_history(s):
            first_init = init
            v, skipped = accounting(first_init, st, s)
            out += [x for x in v if x.kind == 'lost']
            ctx.stats.probe('start simplices skipped near nodes', skipped)
        ctx.stats.probe('refined positions', len(ref))
        ctx.stats.nontrivial += int(len(ref) > 1)
        return out


# -- P14 ----------------------------------------------------------------------

class P14:
    id = 'P14'

    def gen(self, rng, tier):
        s = gen.search(rng, save=rng.random() < 0.3, P=rng.choice([1, 2, 2, 3, 4, 6, 50]))
        if rng.random() < 0.3:
            s['landscape'] = gen.search(rng, kind=rng.choice(['plane', 'circle']), dim=len(s['limits']))['landscape'] \
                if len(s['limits']) == 1 else s['landscape']
        g = async_gap(rng)
        while g['mode'] in ('async0', 'batch'):
            g = async_gap(rng)
        if g['mode'] == 'workers':
            # a stalled evaluation must not use up the pool itself
            g['nworkers'] = 20
        stalled = rng.randint(0, s['P'] - 1) if s['P'] > 1 else rng.choice([0, 1])
        g['stalls'] = [{'n': rng.choice([rng.randint(1, 12), rng.randint(1, 100), rng.randint(1, 400)]), 'd': 1e6}
                       for _ in range(min(stalled, 4))]
        s['save_delay'] = rng.choice([gen.save_delay(rng, g, s['P'], 5), 5.])
        l = gen.life(rng, [gen.run(rng, s, g)], watch=True)
        if rng.random() < 0.2:
            l['clock']['jumps'] = [[1000 + gen.rnd(rng.uniform(0, 20)), rng.choice([1., 100.])] for _ in range(2)]
        return {'prop': 'P14', 'lives': [l]}

    def run(self, sc, ctx):
        ctx.fresh()
        out = []
        l = sc['lives'][0]
        h = ctx.life(l)
        s = l['runs'][0]['search']
        out += failed(h)
        if h['exit'] in ('deadlock', 'livelock', 'spin'):
            out.append(Violation('no-end', 'the search does not end: %s' % h['why']))
        if h['exit'] == 'budget':
            l2 = json.loads(json.dumps(l))
            l2['runs'][0]['gap'] = {'mode': 'sync'}
            l2['runs'][0]['search'].update(P=1, save=False)
            last_work = max((e[0] for e in h['events'] if e[2] in ('call', 'ret')), default=0)
            ctx.fresh()
            r = ctx.life(l2)
            if ended(r) and r['calls'] * 20 < h['calls']:
                out.append(Violation('no-end', 'the search makes more than %d evaluations; one at a time takes %d' % (h['calls'], r['calls'])))
            elif h['why'] == 'iterations' and h['iters'] - last_work > 20000:
                # idle waiting steps the clock on in powers of two: an evaluation takes at most a few dozen iterations
                out.append(Violation('no-end', 'the search runs for %d event loop iterations without starting or finishing an evaluation, after %d' % (
                    h['iters'] - last_work, h['calls'])))
            else:
                ctx.stats.inconclusive += 1
            return out
        ev = h['events']
        # after the last evaluation returns the search ends
        rets = [e for e in ev if e[2] == 'ret' and e[3] == 0]
        end = next((e for e in ev if e[2] == 'end'), None)
        if end is not None and rets and h['runs'][0]['outcome']['kind'] == 'return':
            jumped = sum(x[1] for x in l['clock'].get('jumps', ()))
            # the result of the last evaluation is processed, queues are worked off, the final save is made
            if end[0] - rets[-1][0] > 30 or end[1] - rets[-1][1] - jumped > 0.5 + 100 * l['clock'].get('tick', 1e-5):
                out.append(Violation('lingers', 'the search ended %d event loop iterations and %.4g s after its last evaluation' % (
                    end[0] - rets[-1][0], end[1] - rets[-1][1])))
        # while evaluations are stalled, everything else is completed
        stalls = {x['n'] for x in l['runs'][0]['gap'].get('stalls', ())}
        call_t = {e[4]: e for e in ev if e[2] == 'call' and e[3] == 0}
        ret_t = {e[4]: e for e in rets}
        st_calls = sorted(n for n in stalls if n in call_t)
        if st_calls:
            labs = {n: call_t[n][5] for n in st_calls}
            over = min((ret_t[n][1] for n in st_calls if n in ret_t), default=h['now'])
            if over - max(call_t[n][1] for n in st_calls) > 5e5:
                # all stalls overlap: look just before the first one ends
                q = None
                for e in ev:
                    if e[1] >= over - 1e3:
                        break
                    if e[2] == 'queue' and e[3] == 0:
                        q = e[4]
                ctx.stats.probe('stalls outlived by all other work')
                busy = len(set(labs.values()))
                if q is not None and busy < s['P'] and (q[0] > busy or q[1] > 0):
                    out.append(Violation('held-up', '%d stalled minimisation(s) of %d allowed held up %d start simplices and %d positions for %.4g s' % (
                        busy, s['P'], q[0] - busy, q[1], over - max(call_t[n][1] for n in st_calls))))
                ctx.stats.nontrivial += 1
        return out


# -- P15 ----------------------------------------------------------------------

class P15:
    id = 'P15'

    def gen(self, rng, tier):
        s = gen.search(rng, save=False, fake=True, kind=rng.choice(['points', 'points', 'points', 'plane', 'circle']), p_holes=0.08)
        s['P'] = rng.choice([1, 2, 2, 3, 5, 10])
        if rng.random() < 0.6:
            s['simplex_cutoff'] = 99
        if rng.random() < 0.5:
            s['feature_size'] = gen.rnd(s['feature_size'] * rng.choice([1.5, 2., 3.]), 3)
        g = async_gap(rng) if rng.random() < 0.85 else gen.gap(rng)
        sc = {'prop': 'P15', 'lives': []}
        if rng.random() < 0.3:
            s = dict(s, save=True, save_delay=gen.save_delay(rng, g, s['P'], 6))
            l0 = gen.life(rng, [gen.run(rng, dict(s), gen.gap(rng))])
            l0['crash'] = {'at': 'gap', 'n': rng.randint(20, 500)}
            sc['lives'].append(l0)
            s['load'] = True
        sc['lives'].append(gen.life(rng, [gen.run(rng, s, g)], index=1))
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        out = []
        for l in sc['lives']:
            h = ctx.life(l)
        out += failed(h)
        st = h['runs'][0]['state'] if h['runs'] else None
        init = (h.get('initial') or {}).get(0)
        if st is None or init is None:
            return out
        box = Box(st['limits'], st['periodic'])
        s = sc['lives'][-1]['runs'][0]['search']
        cutoff = s['feature_size'] / 3
        vals = gap_log(h)
        nodes = [n['pos'] for n in st['nodes']]
        new = st['nodes'][len(init['nodes']):] + st['rejected'][len(init['rejected']):]
        n_inf = 0
        for r in new:
            if 'ancestor' not in r:
                out.append(Violation('stages', 'a result has no first stage'))
                break
            # label of this minimisation: the one that evaluated its vertices
            for v, x in part_history(r['ancestor']):
                if v not in vals:
                    out.append(Violation('stage1', 'the first stage lists %r, which was never evaluated' % (v, )))
                    break
                may = []
                for value, nn, lab in vals[v]:
                    known = nodes[:nn]
                    near = [box.dist(v, q) for q in known if tuple(q) != v]
                    if any(abs(d - cutoff) < EPS for d in near):
                        may += [value, math.inf]
                    elif any(d < cutoff for d in near):
                        may.append(value + math.inf)
                    else:
                        may.append(value)
                if any(y == math.inf for y in may):
                    n_inf += 1
                if not any(feq(float(x), float(y)) for y in may):
                    out.append(Violation('stage1', 'first stage: %r counts as %r; with the %s nodes known when the gap value arrived it should be %r' % (
                        v, x, [y[1] for y in vals[v]], may[:3])))
                    break
            for v, x in part_history(r['child']):
                if not has_value(vals, v, x):
                    out.append(Violation('stage2', 'second stage: %r counts as %r; the gap there is %r' % (v, x, [y[0] for y in vals.get(v, ())][:2])))
                    break
            c = r['child']
            if r['success'] != c['success'] or not feq(r['value'], c['value']) or not box.same(r['pos'], c['sh'][-1][0]):
                out.append(Violation('report', 'the result reports %r at %r (success=%r), its second stage ended with %r at %r (%r)' % (
                    r['value'], r['pos'], r['success'], c['value'], c['sh'][-1][0], c['success'])))
            if out:
                break
        ctx.stats.probe('vertices under the fake potential', n_inf)
        ctx.stats.probe('first stages checked', len(new))
        ctx.stats.nontrivial += int(n_inf > 0)
        return out


# -- P24 ----------------------------------------------------------------------

NM_STATUS = {1: 'function evaluations', 2: 'iterations', 3: 'derivative'}


class Values:
    """Gap values by position, also for positions that differ by rounding."""

    def __init__(self, vals):
        self.vals = vals
        self.rough = {}
        for k, v in vals.items():
            self.rough.setdefault(tuple(round(x, 6) for x in k), []).append(k)

    def near(self, x, tol):
        """The values returned at or within rounding of x; None if there was no evaluation."""
        x = tuple(float(y) for y in x)
        if x in self.vals:
            return [y[0] for y in self.vals[x]]
        out = []
        for c in itertools.product(*[sorted({round(y - 5e-7, 6), round(y, 6), round(y + 5e-7, 6)}) for y in x]):
            for k in self.rough.get(c, ()):
                if max(abs(a - b) for a, b in zip(k, x)) <= tol:
                    out += [y[0] for y in self.vals[k]]
        return out or None


def nm_moves(S, f, value):
    """
    The reference model: what one Nelder-Mead step makes of the simplex S with the values f (best first).
    Returns (list of possible (name, new simplex vertices, evaluations), names of missing evaluations).
    """
    S = np.array(S)
    N = S.shape[1]
    xbar = S[:-1].sum(axis=0) / N
    w = S[-1]
    out, missing = [], []

    def keep(name, x, n):
        out.append((name, np.vstack([S[:-1], [x]]), n))

    def shrink(n):
        out.append(('shrink', np.vstack([S[:1], S[0] + 0.5 * (S[1:] - S[0])]), n + N))

    xr, xe, xo, xi = 2 * xbar - w, 3 * xbar - 2 * w, 1.5 * xbar - 0.5 * w, 0.5 * xbar + 0.5 * w
    frs = value(xr)
    if frs is None:
        return out, ['reflected point %r' % (xr.tolist(), )]
    for fr in frs:
        if fr < f[0]:
            fes = value(xe)
            if fes is None:
                missing.append('expanded point %r' % (xe.tolist(), ))
            for fe in fes or ():
                if fe <= fr:
                    keep('expansion', xe, 2)
                if not fe < fr:
                    keep('reflection', xr, 2)
            continue
        if fr < f[-2]:
            keep('reflection', xr, 1)
            continue
        if fr < f[-1]:
            fcs = value(xo)
            if fcs is None:
                missing.append('outside contraction %r' % (xo.tolist(), ))
            for fc in fcs or ():
                if fc <= fr:
                    keep('outside contraction', xo, 2)
                if not fc < fr:
                    shrink(2)
            continue
        fcs = value(xi)
        if fcs is None:
            missing.append('inside contraction %r' % (xi.tolist(), ))
        for fc in fcs or ():
            if fc <= f[-1]:
                keep('inside contraction', xi, 2)
            if not fc < f[-1]:
                shrink(2)
    return out, missing


def same_vertices(A, B, tol):
    """Do two lists of vertices agree up to order and rounding?"""
    left = list(range(len(B)))
    for a in A:
        j = next((j for j in left if np.max(np.abs(a - B[j])) <= tol), None)
        if j is None:
            return False
        left.remove(j)
    return True


def nm_stop(sim, f, xtol, ftol, cutoff):
    """(converged, cut off) with None where rounding decides."""
    sim, f = np.array(sim), np.array(f)

    def below(a, b):
        if math.isnan(a):
            return False
        if a == b or abs(a - b) > 1e-9 * max(abs(a), abs(b)):
            return bool(a <= b)
        return None

    with np.errstate(all='ignore'):
        dx, df = float(np.max(np.abs(sim[1:] - sim[0]))), float(np.max(np.abs(f[0] - f[1:])))
        size = max(math.sqrt(sum((a - b)**2 for a, b in zip(p, q))) for p, q in itertools.combinations(sim.tolist(), 2))
        x, y = below(dx, xtol), below(df, ftol)
        conv = False if False in (x, y) else None if None in (x, y) else True
        cut = False
        if cutoff is not None:
            if size == 0:
                cut = None
            else:
                b = below(float(f[0]) / size, cutoff)
                cut = None if b is None or abs(float(f[0]) / size - cutoff) <= 1e-9 * cutoff else (not b and not math.isnan(float(f[0])))
    return conv, cut


class P24:
    id = 'P24'

    def gen(self, rng, tier):
        s = gen.search(rng, save=False, p_holes=0.3)
        nm = s.setdefault('nm', {})
        nm.pop('keep_history', None)
        if rng.random() < 0.35:
            nm['fprime_cutoff'] = gen.rnd(rng.choice([0.05, 0.3, 1., 3.]))
        if rng.random() < 0.2:
            nm['maxfev'] = rng.randint(1, 60)
        if rng.random() < 0.2:
            nm['maxiter'] = rng.randint(1, 30)
        if rng.random() < 0.1:
            nm['keep_history'] = False
        g = gen.gap(rng)
        if rng.random() < 0.5 and g['mode'] in ('sleep', 'future', 'workers'):
            g['delay'] = {'kind': rng.choice(['lifo', 'uniform']), 'c': 0.1, 'w': rng.randint(2, 6), 'lo': 0., 'hi': 0.3,
                          'seed': rng.randrange(1 << 30)}
        return {'prop': 'P24', 'lives': [gen.life(rng, [gen.run(rng, s, g)])]}

    def run(self, sc, ctx):
        ctx.fresh()
        h = ctx.life(sc['lives'][0])
        out = failed(h)
        st = h['runs'][0]['state'] if h['runs'] else None
        if st is None:
            return out
        s = sc['lives'][0]['runs'][0]['search']
        values = Values(gap_log(h))
        nm = s.get('nm', {})
        N = len(s['limits'])
        xtol = nm.get('xtol', 0.03 * s['feature_size'] / 3)
        ftol = nm.get('ftol', 0.05 * s['gap_threshold'])
        lim = dict(maxiter=nm.get('maxiter', 200 * N), maxfev=nm.get('maxfev', 200 * N), cutoff=nm.get('fprime_cutoff'))
        for what in ('nodes', 'rejected'):
            for k, r in enumerate(st[what]):
                name = '%s[%d]' % (what, k)
                if 'child' in r:
                    a, c = r['ancestor'], r['child']
                    self.judge(out, ctx, name + ', first stage', a, N, xtol, math.inf, values, fake=True, **lim)
                    self.judge(out, ctx, name + ', second stage', c, N, xtol, ftol, values, **lim)
                    if a.get('sh') and c.get('sh') and not nm.get('keep_history') is False:
                        self.enlarged(out, name, a['sh'][-1], c['sh'][0])
                else:
                    self.judge(out, ctx, name, r, N, xtol, ftol, values, **lim)
                ctx.stats.probe('minimisations checked')
                if out:
                    return out
        ctx.stats.nontrivial += 1
        return out

    def enlarged(self, out, name, a, c):
        """c (in any order) is the simplex a enlarged about its best vertex."""
        a, c = np.array(a), np.array(c)
        da = a[1:] - a[0]
        size = np.max(np.abs(da))
        tol = 1e-9 * (1 + np.max(np.abs(a)))
        if size < 1e3 * tol:
            return
        base = next((i for i in range(len(c)) if np.max(np.abs(c[i] - a[0])) <= tol), None)
        if base is None:
            out.append(Violation('second-start', '%s: the second stage starts from %r, without the best vertex of the simplex %r where the first ended' % (
                name, c.tolist(), a.tolist())))
            return
        dc = np.delete(c, base, 0) - c[base]
        factor = np.max(np.abs(dc)) / size
        if factor < 1 + 1e-6 or not same_vertices(da * factor, dc, tol * 10 * factor):
            out.append(Violation('second-start', '%s: the second stage starts from %r, which is not the simplex %r enlarged' % (name, c.tolist(), a.tolist())))

    def judge(self, out, ctx, name, r, N, xtol, ftol, values, *, maxiter, maxfev, cutoff, fake=False):
        sh, fsh = r.get('sh'), r.get('fsh')
        if r['num_fev'] > max(maxfev - 1, N + 1) + N + 2:
            out.append(Violation('limit', '%s made %d evaluations, with maxfev=%d' % (name, r['num_fev'], maxfev)))
        if r['num_iter'] > max(maxiter, 1):
            out.append(Violation('limit', '%s made %d iterations, with maxiter=%d' % (name, r['num_iter'], maxiter)))
        if r['success'] != (r['status'] == 0):
            out.append(Violation('status', '%s has success=%r with status=%r' % (name, r['success'], r['status'])))
        if r['status'] and NM_STATUS.get(r['status'], 'unknown status') not in r['message'] or not r['status'] and 'success' not in r['message']:
            out.append(Violation('status', '%s has the message %r with status=%r' % (name, r['message'], r['status'])))
        if sh is None or fsh is None or out:
            return
        if not len(sh) == len(fsh) == r['num_iter']:
            out.append(Violation('history', '%s has %d iterations, but %d simplices and %d sets of values' % (name, r['num_iter'], len(sh), len(fsh))))
            return
        scale = 1e-9 * (1 + float(np.max(np.abs(np.array(sh)))))
        fev = N + 1
        for k, (S, f) in enumerate(zip(sh, fsh)):
            nan = any(math.isnan(x) for x in f)
            if any(x > y for x, y in zip(f, f[1:])):
                out.append(Violation('order', '%s, iteration %d: the values %r are not sorted' % (name, k, f)))
                return
            if fake and any(math.isinf(x) for x in f):
                conv, cut = None, None
            else:
                conv, cut = nm_stop(S, f, xtol, ftol, cutoff)
            full = [fev is not None and fev >= maxfev, k + 1 >= maxiter]
            last = k == len(sh) - 1
            if last:
                if fev is not None and fev != r['num_fev']:
                    out.append(Violation('count', '%s: its steps take %d evaluations, num_fev is %d' % (name, fev, r['num_fev'])))
                known = fev is not None
                if r['success'] and conv is False:
                    out.append(Violation('unconverged', '%s is successful, its final simplex %r with the values %r does not meet the tolerances %r and %r' % (
                        name, S, f, xtol, ftol)))
                if not r['success'] and conv is True and cut is False and known and not any(full):
                    out.append(Violation('converged', '%s has status %d, although it meets the tolerances %r and %r within all limits' % (name, r['status'], xtol, ftol)))
                if r['status'] == 0 and known and (any(full) or cut is True):
                    out.append(Violation('status', '%s is successful although it was stopped by a limit: %d of %d evaluations, %d of %d iterations, fprime_cutoff %r' % (
                        name, r['num_fev'], maxfev, r['num_iter'], maxiter, cutoff)))
                if known and not (r['status'] == 0 or full[0] and r['status'] == 1 or full[1] and r['status'] == 2 or cut is not False and r['status'] == 3):
                    out.append(Violation('status', '%s has status %d (%s) after %d of %d evaluations and %d of %d iterations, values %r' % (
                        name, r['status'], r['message'], r['num_fev'], maxfev, r['num_iter'], maxiter, f)))
                return
            if conv is True or cut is True or any(full):
                why = 'the tolerances are met' if conv is True else 'fprime_cutoff is exceeded' if cut is True else 'a limit is reached'
                out.append(Violation('goes-on', '%s goes on after iteration %d of %d, although %s' % (name, k + 1, len(sh), why)))
                return
            if not nan and not fsh[k + 1][0] <= f[0]:
                out.append(Violation('ascends', '%s, iteration %d: the best value rises from %r to %r' % (name, k + 1, f[0], fsh[k + 1][0])))
                return
            if nan or any(math.isnan(x) for x in fsh[k + 1]):
                fev = None
                continue

            if np.max(np.abs(np.array(S[1:]) - np.array(S[0]))) < 1e3 * scale:
                # its points cannot be told apart
                fev = None
                continue

            def value(x):
                v = values.near(x, scale)
                if v is None:
                    return None
                return list({repr(y): y for y in (v + [math.inf] if fake else v)}.values())

            moves, missing = nm_moves(S, f, value)
            got = [m for m in moves if same_vertices(np.array(sh[k + 1]), m[1], 10 * scale)]
            if not got:
                out.append(Violation('step', '%s, iteration %d: the simplex %r with the values %r becomes %r; a Nelder-Mead step gives %s' % (
                    name, k + 1, S, f, sh[k + 1], [(m[0], m[1].tolist()) for m in moves] or ('(not evaluated: %s)' % missing[0]))))
                return
            ns = {m[2] for m in got}
            ctx.stats.probe('steps: %s' % got[0][0])
            fev = fev + ns.pop() if fev is not None and len(ns) == 1 else None
