"""Running scenarios, judging them, shrinking failures, writing evidence."""
import copy
import hashlib
import json
import os
import pickle
import shutil
import sys
import time

from . import proc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    def __init__(self, kind, msg):
        self.kind = kind        # class of violation, used by the shrinker
        self.msg = msg

    def __repr__(self):
        return '%s: %s' % (self.kind, self.msg)


class Stats:
    """What a batch of runs covered."""
    def __init__(self):
        self.lives = 0
        self.scenarios = 0
        self.sim_time = 0.
        self.calls = 0
        self.faults = {}
        self.schedules = set()
        self.nontrivial = 0
        self.probes = {}
        self.samples = []
        self.inconclusive = 0
        self.violations = []
        self.errors = []
        self.slow = []

    def add_hist(self, h):
        self.lives += 1
        self.sim_time += h['now'] - 1000.
        self.calls += h['calls']
        for k, v in h['kinds'].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in h.get('disk_counts', {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.schedules.add(schedule_hash(h))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count_fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def merge(self, o):
        self.lives += o.lives
        self.scenarios += o.scenarios
        self.sim_time += o.sim_time
        self.calls += o.calls
        for k, v in o.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in o.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.schedules |= o.schedules
        self.nontrivial += o.nontrivial
        self.samples = (self.samples + o.samples)[:3]
        self.inconclusive += o.inconclusive
        self.violations += o.violations
        self.errors += o.errors
        self.slow += o.slow


def schedule_hash(h):
    """Identity of an interleaving: the order of evaluation calls and returns by minimisation,
    results, file operations and faults - without times and positions."""
    m = hashlib.blake2b(digest_size=8)
    for e in h['events']:
        k = e[2]
        if k in ('call', 'ret', 'exc', 'gcancel'):
            m.update(('%s%d.%d;' % (k, e[3], e[4])).encode())
        elif k == 'result':
            m.update(repr(e[4]).encode())
        elif k in ('fs', 'crash', 'cancel_request', 'end', 'power'):
            m.update(('%s%s;' % (k, e[4] if len(e) > 4 else '')).encode())
    return m.digest()


def event_digest(h):
    return hashlib.sha1(repr(h['events']).encode() + repr([r['outcome'] for r in h['runs']]).encode()).hexdigest()


class Ctx:
    """Executes lives in a private scratch directory."""
    def __init__(self, name='w'):
        self.base = os.path.join(proc.scratch_base(), '%s%d' % (name, os.getpid()))
        self.stats = Stats()
        self.digests = []

    def fresh(self, files=()):
        shutil.rmtree(self.base, ignore_errors=True)
        self.root = os.path.join(self.base, 'root')
        os.makedirs(self.root)
        for name, data in dict(files).items():
            with open(os.path.join(self.root, name), 'wb') as f:
                f.write(data)

    def life(self, life):
        h = proc.run_life(life, self.root, timeout=life.get('wall_timeout', 150))
        self.stats.add_hist(h)
        self.digests.append(event_digest(h))
        if h['exit'] == 'budget':
            self.stats.inconclusive += 1
        return h

    def files(self):
        out = {}
        for n in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, n)
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[n] = f.read()
        return out

    def done(self):
        shutil.rmtree(self.base, ignore_errors=True)


# -- shrinking ----------------------------------------------------------------

def _paths(obj, path=()):
    yield path, obj
    if isinstance(obj, dict):
        for k in sorted(obj, key=str):
            yield from _paths(obj[k], path + (k, ))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield from _paths(v, path + (i, ))


def _get(obj, path):
    for k in path:
        obj = obj[k]
    return obj


def _with(obj, path, value):
    new = copy.deepcopy(obj)
    _get(new, path[:-1])[path[-1]] = value
    return new


def _without(obj, path):
    new = copy.deepcopy(obj)
    del _get(new, path[:-1])[path[-1]]
    return new


DROPPABLE_LISTS = ('faults', 'stalls', 'wall_jumps', 'jumps', 'holes', 'runs', 'lives', 'custom', 'traps', 'crashes', 'ops', 'after', 'pos')
DROPPABLE_KEYS = ('nm', 'gc_every', 'path_style', 'chdir', 'rtype', 'crash', 'cancel', 'clock', 'holes', 'traps', 'count_cutoff', 'simplex_cutoff',
                  'recheck', 'xtol', 'ftol', 'maxiter', 'maxfev', 'fprime_cutoff', 'keep_history', 'stalls', 'disk', 'shared_loop')
SIMPLE = {
    'P': [1, 2, 3], 'mesh': [1, 2], 'fake': [False], 'periodic': [False], 'mode': ['sync', 'async0', 'sleep', 'future'],
    'entry': ['async', 'sync'], 'save_delay': [1., 10.], 'tick': [1e-4], 'kind': [], 'count': [1], 'stencil': [None],
    'force': [False], 'd': [100.], 'seed': [1], 'errnos': [],
}


def candidates(sc):
    """Simpler scenarios, most radical first."""
    out = []
    for path, v in _paths(sc):
        if not path:
            continue
        k = path[-1]
        if isinstance(k, int) and len(path) >= 2 and path[-2] in DROPPABLE_LISTS:
            if path[-2] in ('runs', 'lives', 'custom') and len(_get(sc, path[:-1])) == 1:
                continue
            out.append((0, _without(sc, path)))
        elif k in DROPPABLE_KEYS and isinstance(path[-1], str):
            out.append((1, _without(sc, path)))
        elif k in ('centers', ) and len(v) > 1:
            for i in range(len(v)):
                new = copy.deepcopy(sc)
                par = _get(new, path[:-1])
                del par['centers'][i]
                if 'slopes' in par:
                    del par['slopes'][i]
                out.append((2, new))
        elif k == 'delay' and isinstance(v, dict):
            for alt in ({'kind': 'zero'}, {'kind': 'const', 'c': 0.1}):
                if v != alt and v.get('kind') != 'zero':
                    out.append((2, _with(sc, path, alt)))
        elif k == 'slopes' and any(x != 1.0 for x in v):
            out.append((4, _with(sc, path, [1.0] * len(v))))
        elif k in SIMPLE:
            for alt in SIMPLE[k]:
                if v == alt:
                    break
                if k == 'mesh' and isinstance(v, list):
                    alt = [min(alt, x) for x in v]
                    if alt == v:
                        continue
                out.append((3, _with(sc, path, alt)))
        elif k in ('n', 'nth') and isinstance(v, int) and v > 1:
            for alt in (1, v // 2, v - 1):
                out.append((4, _with(sc, path, alt)))
    out.sort(key=lambda c: c[0])
    seen = set()
    for _, c in out:
        key = json.dumps(c, sort_keys=True)
        if key not in seen and key != json.dumps(sc, sort_keys=True):
            seen.add(key)
            yield c


def shrink(prop, sc, kind, deadline, log=None):
    """Greedy minimisation keeping the same violation class."""
    best = sc
    tries = 0
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for cand in candidates(best):
            if time.monotonic() > deadline:
                break
            tries += 1
            try:
                vs = judge(prop, cand)[0]
            except Exception:
                continue
            if any(v.kind == kind for v in vs):
                best = cand
                progress = True
                break
    return best, tries


def judge(prop, sc, stats=None):
    """Run one scenario; ([violations], digests)."""
    sc = json.loads(json.dumps(sc))
    ctx = Ctx()
    if stats is not None:
        ctx.stats = stats
    try:
        vs = prop.run(sc, ctx)
    except proc.Died as exc:
        vs = [Violation('died', 'the process crashes (%s)' % exc)]
    finally:
        ctx.done()
    return vs or [], ctx.digests
