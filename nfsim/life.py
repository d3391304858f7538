"""
One simulated process life.

`run_life(life, root, out_path)` is called in a freshly forked child.  It puts every source of
nondeterminism behind the simulator (event loop, clock, disk, randomness, thread hand-over), runs
the real nodefinder code of /repo in it, and writes the recorded history to `out_path`.
A simulated crash writes the history and leaves with os._exit: only the directory survives.
"""
import asyncio
import contextvars
import gc
import heapq
import itertools
import logging
import os
import pickle
import random
import re
import signal
import sys
import threading
import time
import _thread
import warnings

import numpy as np

from h5py._objects import phil as PHIL
import nodefinder as nf
from nodefinder.search.result import ControllerState
from fsc.async_tools import BatchSubmitter

from .disk import SimDisk, _real
from .landscape import Landscape

_rd = dict(open=os.open, write=os.write, close=os.close, exit=os._exit, rename=os.rename)

EXIT_CRASH = 77
EXIT_HANG = 78
EXIT_OK = 0

CURRENT_RUN = contextvars.ContextVar('nfsim_run', default=None)


class Injected(Exception):
    """A gap function failure with a type of its own."""


class InjectedBase(BaseException):
    """A failure that is not an Exception."""


EXC = {
    'ValueError': ValueError, 'RuntimeError': RuntimeError, 'OSError': OSError,
    'Injected': Injected, 'InjectedBase': InjectedBase, 'KeyboardInterrupt': KeyboardInterrupt,
    'SystemExit': SystemExit, 'CancelledError': asyncio.CancelledError, 'TimeoutError': asyncio.TimeoutError,
    'ZeroDivisionError': ZeroDivisionError, 'MemoryError': MemoryError, 'KeyError': KeyError,
}


def h01(*parts):
    """Deterministic number in [0, 1) from integers."""
    x = 0x9E3779B97F4A7C15
    for p in parts:
        x ^= (int(p) + 0x9E3779B97F4A7C15 + ((x << 6) & 0xFFFFFFFFFFFFFFFF) + (x >> 2)) & 0xFFFFFFFFFFFFFFFF
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9 & 0xFFFFFFFFFFFFFFFF
        x = (x ^ (x >> 27)) * 0x94D049BB133111EB & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 31
    return x / 2.0**64


def tup(pos):
    return tuple(float(x) for x in pos)


def simplex_key(simplex):
    return tuple(sorted(tup(v) for v in simplex))


def dump_min(res, full=True):
    """Plain-data copy of a minimisation result."""
    out = {'type': type(res).__name__}
    if 'ancestor' in res.__dict__:
        out['ancestor'] = dump_min(res.ancestor, full)
        out['child'] = dump_min(res.child, full)
        c = out['child']
        out['start'] = out['ancestor'].get('start')
        for k in ('pos', 'value', 'success', 'status'):
            out[k] = c[k]
        # position as the container sees it (may be set on the wrapper)
        out['pos'] = tup(res.pos)
        out['num_fev'] = int(res.num_fev)
        return out
    for k in ('pos', 'value', 'success', 'status', 'num_fev', 'num_iter', 'message'):
        if not hasattr(res, k):
            continue
        v = getattr(res, k)
        if k == 'pos':
            v = tup(v)
        elif k == 'value':
            v = float(v)
        elif k == 'success':
            v = bool(v)
        elif k == 'message':
            v = v.decode() if isinstance(v, bytes) else str(v)
        else:
            v = int(v)
        out[k] = v
    sh = getattr(res, 'simplex_history', None)
    fsh = getattr(res, 'fun_simplex_history', None)
    if fsh is not None:
        out['start'] = simplex_key(sh[0])
    if full:
        out['sh'] = None if sh is None else np.array(sh).tolist()
        out['fsh'] = None if fsh is None else np.array(fsh).tolist()
    return out


def dump_container(c, full=True):
    return {
        'nodes': [dump_min(r, full) for r in c.nodes],
        'rejected': [dump_min(r, full) for r in c.rejected_results],
        'refined': [tup(p) for p in c.refined_results],
        'gap_threshold': float(c.gap_threshold),
        'dist_cutoff': float(c.dist_cutoff),
        'limits': np.array(c.coordinate_system.limits).tolist(),
        'periodic': bool(c.coordinate_system.periodic),
    }


def dump_state(s, full=True):
    out = dump_container(s.result, full)
    out['simplices'] = [tuple(tup(v) for v in o) for o in s.simplex_queue.objects]
    out['positions'] = [tup(o) for o in s.position_queue.objects]
    return out


def dump_of_run(run, full=True):
    """The state of a search; the box is the one the search was asked to use."""
    if run.state is None:
        return None
    out = dump_state(run.state, full)
    s = run.spec['search']
    out['limits'] = [sorted(float(x) for x in l) for l in s['limits']]
    out['periodic'] = bool(s['periodic'])
    return out


def dump_shape(sh):
    if sh is None:
        return None
    if hasattr(sh, 'position'):
        return {'point': tup(sh.position)}
    return {'line': sorted(tup(n) for n in sh.graph.nodes),
            'edges': sorted(tuple(sorted((tup(a), tup(b)))) for a, b in sh.graph.edges),
            'degree_count': sorted((int(k), int(v)) for k, v in dict(sh.degree_count).items()), 'name': sh.shape_name}


def dump_ident(c):
    return {
        'objects': [{'positions': [tup(p) for p in r.positions], 'dimension': None if r.dimension is None else int(r.dimension),
                     'shape': dump_shape(r.shape)} for r in c],
        'feature_size': float(c.feature_size),
        'limits': np.array(c.coordinate_system.limits).tolist(),
        'periodic': bool(c.coordinate_system.periodic),
    }


def dump_any(obj):
    """(kind, plain data) of anything the package stores."""
    if hasattr(obj, 'simplex_queue'):
        return 'state', dump_state(obj)
    if hasattr(obj, 'rejected_results'):
        return 'result', dump_container(obj)
    if hasattr(obj, 'feature_size') and hasattr(obj, 'results'):
        return 'ident', dump_ident(obj)
    if hasattr(obj, 'dimension') and hasattr(obj, 'shape'):
        return 'object', dump_ident_one(obj)
    if hasattr(obj, 'position') or hasattr(obj, 'graph'):
        return 'shape', dump_shape(obj)
    if hasattr(obj, 'limits') and hasattr(obj, 'periodic'):
        return 'coords', {'limits': np.array(obj.limits).tolist(), 'periodic': bool(obj.periodic)}
    if hasattr(obj, 'pos') and hasattr(obj, 'success'):
        return 'min', dump_min(obj)
    return type(obj).__name__, repr(obj)[:200]


def dump_ident_one(r):
    return {'positions': [tup(p) for p in r.positions], 'dimension': None if r.dimension is None else int(r.dimension),
            'shape': dump_shape(r.shape)}


class Run:
    """One search inside the life."""
    def __init__(self, rid, spec):
        self.rid = rid
        self.spec = spec
        self.search = spec['search']
        s = self.search
        self.land = Landscape(s['landscape'], s['limits'], s['periodic'])
        self.state = None
        self.main = None
        self.ended = False
        self.ncalls = 0
        self.outcome = None
        self.counts = (0, 0, 0)
        self.queue = None
        self.labels = {}
        self.batch = None
        self.workers = None
        self.injected = []
        self.interrupted = False
        self.lines = 0
        self.iter0 = None


SETTERS = {'catch_warnings', 'simplefilter', 'filterwarnings', 'seterr', 'seterrcall', 'chdir', 'umask', 'setrecursionlimit'}
PRIVATE = (type(os), type(lambda: 0), type(len), type(np.add), type, str, bytes, int, float, complex, tuple, frozenset,
           type(None), np.generic, logging.Logger, logging.Handler)


def touches_shared(code, frame):
    """
    Does the function use something which all threads share: a variable of its module or class
    which can change, or a setting of the process?  It only guides where threads are pre-empted.
    """
    if frame.f_code is not code:
        return False
    names = set(code.co_names)
    if names & SETTERS or any(k in frame.f_globals and not isinstance(frame.f_globals[k], PRIVATE)
                              and not callable(frame.f_globals[k]) for k in names):
        return True
    for first in code.co_varnames[:1]:
        owner = frame.f_locals.get(first)
        owner = owner if isinstance(owner, type) else type(owner)
        if owner.__module__.startswith('nodefinder'):
            return any(isinstance(v, (dict, list, set, bytearray, np.ndarray)) for c in owner.__mro__
                       for k, v in vars(c).items() if k in names)
    return False


class Sim:
    def __init__(self, life, root, out_path):
        self.noloop = False
        self.life = life
        self.root = root
        self.out_path = out_path
        self.now = 1000.0
        clk = life.get('clock', {})
        self.tick = clk.get('tick', 1e-4)
        self.wall_offset = clk.get('wall', 1.6e9)
        self.wall_jumps = sorted(clk.get('wall_jumps', ()))
        self.jumps = sorted(clk.get('jumps', ()))
        self.iter = 0
        self.events = []
        self.iter_times = []
        self.activity = 0
        self._last_activity = 0
        self.idle = 0
        self.dead_iters = 0
        self.waiting = 0
        self.loops = []
        self.runs = []
        self.seed = life.get('seed', 0)
        self.hash_rng = random.Random(self.seed * 7919 + 11)
        self.max_iters = life.get('max_iters', 80000)
        self.max_calls = life.get('max_calls', 8000)
        self.total_calls = 0
        self.crash_spec = life.get('crash')
        self.gc_every = life.get('gc_every')
        self.threads = []
        self.baton_rng = random.Random(self.seed * 31 + 5)
        self.switch_rng = random.Random(self.seed * 37 + 9)
        self.switch_gap = None
        self.held = None
        self.visits = {}
        self.shared = {}
        self.switch_left = 30000
        self.jump_budget = 0
        self.blocked = set()
        self.task_serial = itertools.count()
        self.real_main = threading.main_thread()
        self.disk = None
        self.result = {'exit': None, 'faults': {}}
        self.harness_loops = set()
        self.kinds = {}
        self.watch = life.get('watch', False)
        self.shared = {}
        self.baton = None
        self.main_interrupt = False
        self.line_run = None
        self.starting = False
        self.objs = {}
        self.interrupts = any(r.get('interrupt') is not None for r in life['runs'])

    # -- log -------------------------------------------------------------
    def log(self, *ev):
        self.events.append((self.iter, self.now) + ev)

    def fslog(self, ev):
        self.activity += 1
        self.log(*ev)
        return len(self.events) - 1

    def count(self, kind):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    # -- endings -----------------------------------------------------------
    def dump(self, how, why=None):
        r = self.result
        r['exit'] = how
        r['why'] = why
        r['events'] = self.events
        r['now'] = self.now
        r['iters'] = self.iter
        r['iter_times'] = self.iter_times
        r['calls'] = self.total_calls
        r['kinds'] = self.kinds
        r['runs'] = []
        for run in self.runs:
            r['runs'].append({
                'outcome': run.outcome, 'ncalls': run.ncalls, 'labels': run.labels,
                'state': dump_of_run(run),
                'ended': run.ended,
            })
        if self.disk is not None:
            r['versions'] = self.disk.versions
            r['images'] = self.disk.images
            r['disk_counts'] = self.disk.counts()
            r['nops'] = self.disk.nop
            r['op_kinds'] = self.disk.kind_count
        data = pickle.dumps(r, protocol=4)
        fd = _rd['open'](self.out_path + '.part', os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
        view = memoryview(data)
        while view:
            view = view[_rd['write'](fd, view):]
        _rd['close'](fd)
        _rd['rename'](self.out_path + '.part', self.out_path)

    def leave(self, how, code, why=None):
        self.dump(how, why)
        _rd['exit'](code)

    def crash(self, why):
        self.log('crash', why)
        c = self.crash_spec or {}
        if c.get('power') is not None and self.disk is not None:
            self.disk.power_loss(c['power'])
            self.count('power_loss')
        else:
            self.count('crash')
        self.leave('crash', EXIT_CRASH, why)

    def hang(self, kind, why):
        self.log('hang', kind, why)
        self.leave(kind, EXIT_HANG, why)

    # -- time --------------------------------------------------------------
    def wall(self):
        w = self.now + self.wall_offset
        for t, d in self.wall_jumps:
            if self.now >= t:
                w += d
        return w

    def next_timer(self):
        best = None
        for lp in self.loops:
            if lp.is_closed():
                continue
            sched = lp._scheduled
            while sched and sched[0]._cancelled:
                lp._timer_cancelled_count -= 1
                h = heapq.heappop(sched)
                h._scheduled = False
            if sched and (best is None or sched[0]._when < best):
                best = sched[0]._when
        return best

    def advance(self, t):
        if t > self.now:
            self.now = t
        while self.jumps and self.now >= self.jumps[0][0]:
            _, d = self.jumps.pop(0)
            self.now += d
            self.count('clock_jump')
            self.log('clockjump', d)

    def iteration(self, loop):
        """Start of one event-loop iteration."""
        self.yield_thread()
        self.iter += 1
        self.jump_budget = 0
        if self.activity == self._last_activity:
            self.idle += 1
        else:
            self.idle = 0
            self._last_activity = self.activity
        if self.idle > 400 and self.waiting == 0:
            self.hang('livelock', 'no evaluation outstanding, nothing happens, and the search does not end')
        step = self.tick * (2.0**min(self.idle, 40) if self.idle > 2 else 1.0)
        t = self.now + min(step, 1e4)
        nt = self.next_timer()
        if nt is not None and t > nt:
            t = max(nt, self.now + self.tick)
        self.advance(t)
        if len(self.iter_times) < 400000:
            self.iter_times.append(self.now)
        c = self.crash_spec
        if c is not None:
            if (c['at'] == 'iter' and self.iter >= c['n']) or (c['at'] == 'time' and self.now >= 1000 + c['t']):
                self.crash('%s' % (c['at'], ))
        if self.iter > self.max_iters:
            self.hang('budget', 'iterations')
        for run in self.runs:
            self.check_cancel(run, 'iter', self.iter)
            self.check_interrupt(run, loop)
        if self.gc_every and self.iter % self.gc_every == 0:
            gc.collect()

    def check_cancel(self, run, kind, n):
        c = run.spec.get('cancel')
        if not c or run.main is None or run.ended or kind not in c:
            return
        due = [k for k in c[kind] if k <= n and (kind, k) not in run.cancelled_at]
        for k in due:
            run.cancelled_at.add((kind, k))
            self.count('cancel')
            self.log('cancel_request', run.rid)
            self.activity += 1
            run.main.cancel()

    def check_interrupt(self, run, loop):
        """Ctrl-C while the main thread is in search.run: between two steps of the loop, or in the join."""
        n = run.spec.get('interrupt')
        if n is None or run.ended or run.state is None or run.interrupted or loop in self.harness_loops:
            return
        if run.iter0 is None:
            run.iter0 = self.iter
        if self.iter - run.iter0 < n:
            return
        main = threading.current_thread() is self.real_main
        entry = run.spec['entry']
        if not (main and entry in ('sync', 'sync_noloop') or not main and entry == 'sync_in_loop'):
            return
        run.interrupted = True
        self.count('interrupt')
        self.log('interrupt', run.rid)
        self.activity += 1
        if main:
            raise KeyboardInterrupt('interrupt')
        # wake the main thread up and wait until it blocks again
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        baton = self.baton
        self.main_interrupt = True
        baton.acquire()

    def main_blocks(self):
        if self.main_interrupt and threading.current_thread() is self.real_main and not self.starting:
            self.main_interrupt = False
            raise KeyboardInterrupt('interrupt')
        if self.baton is not None and threading.current_thread() is self.real_main:
            b, self.baton = self.baton, None
            b.release()

    # -- threads -------------------------------------------------------------
    def yield_thread(self):
        """Hand the baton to a thread chosen by the seeded scheduler."""
        if not self.threads:
            return
        me = threading.get_ident()
        free = self.threads
        if self.idle > 20:
            # it can be waiting for the thread which is held
            self.held = None
        if self.held is not None:
            free = [t for t in self.threads if t[0] != self.held[0]]
        if free and any(t[0] == me for t in self.threads):
            self.hand_over(self.baton_rng.choice(free))

    def hand_over(self, nxt):
        me = threading.get_ident()
        mine = [t for t in self.threads if t[0] == me]
        if nxt[0] != me:
            self.kinds['thread_switch'] = self.kinds.get('thread_switch', 0) + 1
            nxt[1].release()
            if not mine[0][1].acquire(timeout=60):
                # the thread which was chosen needs something this one holds
                self.hang('budget', 'thread hand-over')

    def line_in_thread(self, code):
        """A line of the program in one of several threads: they are pre-empted anywhere."""
        if PHIL._is_owned():
            # nobody else gets into h5py while this thread is in it
            return
        if self.life.get('switch_meet'):
            self.meet(code)
            return
        if self.switch_gap is None:
            self.switch_gap = 1 + int(self.switch_rng.expovariate(1. / self.life['switch_lines']))
        self.switch_gap -= 1
        if self.switch_gap > 0:
            return
        self.switch_gap = None
        if self.switch_left > 0:
            self.switch_left -= 1
            self.count('preempt')
            self.yield_thread()

    def meet(self, code):
        """
        A thread is stopped in the middle of a function until another one is in the same
        function. Functions which are seldom executed are chosen as often as others.
        """
        me = threading.get_ident()
        if self.held is not None:
            who, where, left = self.held
            if who == me:
                self.held = None
            elif where is code and self.switch_rng.random() < 0.3:
                self.held = None
                self.count('meeting')
                for t in self.threads:
                    if t[0] == who:
                        self.hand_over(t)
                        break
            else:
                self.held = (who, where, left - 1) if left > 1 else None
            return
        n = self.visits[code] = self.visits.get(code, 0) + 1
        if n == 1:
            self.shared[code] = touches_shared(code, sys._getframe(3))
        if self.switch_rng.random() < min(0.3, (1000. if self.shared[code] else 0.2 * self.life['switch_meet']) / n):
            others = [t for t in self.threads if t[0] != me]
            if others and any(t[0] == me for t in self.threads):
                self.held = (me, code, 20000)
                self.count('preempt')
                self.hand_over(self.switch_rng.choice(others))

    def settings(self):
        """Settings of the process which a search has no business to change."""
        out = {
            'warnings filters': [repr(f) for f in warnings.filters],
            'numpy error handling': repr((np.geterr(), np.geterrcall())),
            'state of random': hash_of(repr(random.getstate())),
            'state of numpy.random': hash_of(repr(np.random.get_state())),
            'signal handlers': [repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
            'recursion limit': sys.getrecursionlimit(),
            'switch interval': sys.getswitchinterval(),
            'excepthook': repr((sys.excepthook, threading.excepthook)),
            'stdout and stderr': repr((sys.stdout, sys.stderr)),
            'event loop policy': repr(asyncio.get_event_loop_policy()),
            'environment': hash_of(repr(sorted(os.environ.items()))),
            'umask': None,
        }
        out['umask'] = os.umask(0o22)
        os.umask(out['umask'])
        if 'chdir' not in self.kinds:
            out['working directory'] = os.getcwd()
        return out

    # -- polling -------------------------------------------------------------
    def poll(self):
        for run in self.runs:
            st = run.state
            if st is None:
                continue
            res = st.result
            c = (len(res.nodes), len(res.rejected_results), len(res.refined_results))
            if c != run.counts:
                self.activity += 1
                self.log('result', run.rid, c)
                run.counts = c
            if self.watch:
                q = self.observe_p(run)
                if q != run.queue:
                    self.log('queue', run.rid, q)
                    run.queue = q

    def observe_p(self, run):
        """Running / queued / positions as the state shows them."""
        st = run.state
        return len(st.simplex_queue.objects), len(st.position_queue.objects)

    # -- gap service -----------------------------------------------------------
    def current_label(self, run):
        try:
            task = asyncio.current_task()
        except RuntimeError:
            task = None
        prev = None
        while task is not None:
            if task is run.main:
                break
            prev = task
            task = getattr(task, '_sim_parent', None)
        if prev is None:
            return -1
        return prev._sim_serial

    def gap_call(self, run, pos):
        self.yield_thread()
        self.poll()
        run.ncalls += 1
        self.total_calls += 1
        cid = run.ncalls
        p = tup(pos)
        lab = self.current_label(run)
        self.activity += 1
        self.jump_budget = 0
        self.log('call', run.rid, cid, lab, p)
        if run.ended:
            self.count('call_after_end')
        if lab not in run.labels:
            run.labels[lab] = (len(self.events), self.now, self.iter)
        c = self.crash_spec
        if c is not None and c['at'] == 'gap' and cid >= c['n'] and run.rid == c.get('run', 0):
            self.crash('gap call %d' % cid)
        if c is not None and c['at'] == 'time' and self.now >= 1000 + c['t']:
            self.crash('time')
        self.check_cancel(run, 'gap', cid)
        if self.total_calls > self.max_calls:
            self.hang('budget', 'calls')
        for n, where in self.life.get('chdir', ()):
            if n == self.total_calls:
                # the gap function works in a directory of its own
                self.count('chdir')
                os.chdir(os.path.join(self.root, where))
        return cid, p, lab

    def gap_fault(self, run, cid, phase):
        for f in run.spec['gap'].get('faults', ()):
            if f['at'] == phase and f['n'] == cid:
                exc = EXC[f['exc']]('injected %d' % cid)
                run.injected.append(exc)
                self.count('gap_exc:' + f['exc'])
                self.log('exc', run.rid, cid, f['exc'])
                self.activity += 1
                raise exc

    def gap_value(self, run, cid, lab, p):
        v = run.land(p)
        st = run.state
        nn = len(st.result.nodes) if st is not None else 0
        self.log('ret', run.rid, cid, lab, v, nn)
        self.activity += 1
        rt = run.spec['gap'].get('rtype')
        if rt == 'np':
            return np.float64(v)
        if rt == '0d':
            return np.array(v)
        return v

    def delay(self, run, cid, lab, p):
        g = run.spec['gap']
        for s in g.get('stalls', ()):
            if ('n' in s and s['n'] == cid) or ('lab' in s and self.label_index(run, lab) in s['lab']):
                if 'from' not in s or cid >= s['from']:
                    if not s.get('once') or (s['n'] if 'n' in s else lab) not in run.stalled:
                        run.stalled.add(s['n'] if 'n' in s else lab)
                        self.count('stall')
                        return s['d']
        d = g.get('delay', {'kind': 'zero'})
        k = d['kind']
        if k == 'zero':
            return 0.
        if k == 'const':
            return d['c']
        if k == 'table':
            t = d['t']
            return t[cid - 1] if cid <= len(t) else d.get('c', 0.)
        u = h01(d.get('seed', 0), cid)
        if k == 'uniform':
            return d['lo'] + u * (d['hi'] - d['lo'])
        if k == 'quant':
            return d['q'] * int(u * d['n'])
        if k == 'heavy':
            return d['c'] * (1. / max(1e-3, u))
        if k == 'slowlab':
            li = self.label_index(run, lab)
            return d['hi'] if h01(d.get('seed', 0), li, 77) < d['p'] else d['lo']
        if k == 'lifo':
            # later calls come back earlier inside each window
            w = d['w']
            return d['c'] * (w - (cid % w))
        raise ValueError(k)

    def label_index(self, run, lab):
        return list(run.labels).index(lab)

    def make_gap(self, run):
        S = self
        g = run.spec['gap']
        mode = g['mode']

        def sync_gap(pos):
            cid, p, lab = S.gap_call(run, pos)
            S.gap_fault(run, cid, 'call')
            S.advance(S.now + S.delay(run, cid, lab, p))
            S.gap_fault(run, cid, 'ret')
            return S.gap_value(run, cid, lab, p)

        if mode == 'sync':
            return sync_gap

        async def wait(cid, lab, p):
            if mode == 'async0':
                return
            d = S.delay(run, cid, lab, p)
            if mode == 'sleep':
                await asyncio.sleep(d)
                return
            loop = asyncio.get_running_loop()
            fut = loop.create_future()
            if mode == 'future':
                loop.call_later(d, S.set_future, fut)
            elif mode == 'workers':
                if run.workers is None:
                    run.workers = Workers(S, g.get('nworkers', 3), g.get('order', 'fifo'), S.seed + run.rid)
                run.workers.submit(loop, fut, d)
            await fut

        async def batch_fn(xs):
            cids = [x[0] for x in xs]
            S.log('batch', run.rid, len(cids))
            S.activity += 1
            await asyncio.sleep(max(S.delay(run, c, l, p) for c, l, p in xs))
            return [None] * len(xs)

        async def gap(pos):
            cid, p, lab = S.gap_call(run, pos)
            S.waiting += 1
            try:
                S.gap_fault(run, cid, 'call')
                if mode == 'batch':
                    if run.batch is None:
                        run.batch = BatchSubmitter(batch_fn, loop=asyncio.get_running_loop(),
                                                   timeout=g.get('timeout', 0.1), sleep_time=g.get('sleep_time', 0.01),
                                                   max_batch_size=g.get('max_batch', 20))
                    await run.batch((cid, lab, p))
                else:
                    await wait(cid, lab, p)
                S.gap_fault(run, cid, 'ret')
            except asyncio.CancelledError:
                S.log('gcancel', run.rid, cid)
                S.activity += 1
                if g.get('cleanup'):
                    # it gives back its resources before it ends
                    try:
                        await asyncio.sleep(g['cleanup'])
                    finally:
                        S.log('gclean', run.rid, cid)
                raise
            finally:
                S.waiting -= 1
            return S.gap_value(run, cid, lab, p)

        return gap

    @staticmethod
    def set_future(fut):
        if not fut.done():
            fut.set_result(None)

    # -- set-up ---------------------------------------------------------------
    def install(self):
        S = self
        gc.disable()
        gc.freeze()
        random.seed(self.seed)
        np.random.seed(self.seed % 2**32)
        ur = random.Random(self.seed + 3)
        os.urandom = lambda n: bytes(ur.getrandbits(8) for _ in range(n))
        pid = 4000 + self.life.get('index', 0)
        os.getpid = lambda: pid
        import tempfile
        tempfile._name_sequence = _Names(self.life.get('index', 0))
        tempfile.tempdir = os.path.join(self.root, 'systmp')
        _real['mkdir'](tempfile.tempdir) if not os.path.isdir(tempfile.tempdir) else None

        time.time = S.wall
        time.monotonic = lambda: S.now
        time.perf_counter = lambda: S.now
        time.time_ns = lambda: int(S.wall() * 1e9)
        time.monotonic_ns = lambda: int(S.now * 1e9)
        time.perf_counter_ns = lambda: int(S.now * 1e9)

        def sleep(d):
            S.log('blocksleep', d)
            S.advance(S.now + d)
        time.sleep = sleep

        asyncio.set_event_loop_policy(SimPolicy(S))

        orig_init = ControllerState.__init__

        def init(st, *a, **k):
            orig_init(st, *a, **k)
            run = CURRENT_RUN.get()
            if run is not None and run.ncalls == 0 and not run.ended:
                run.state = st
                try:
                    run.main = asyncio.current_task()
                except RuntimeError:
                    run.main = None
                c = st.result
                run.counts = (len(c.nodes), len(c.rejected_results), len(c.refined_results))
                S.log('state', run.rid, run.counts, S.observe_p(run))
                run.initial = dump_state(st, full=False)
                S.result.setdefault('initial', {})[run.rid] = run.initial
                st._nfsim = run.rid
        ControllerState.__init__ = init

        # threads: inherit the run, detect deadlock deterministically
        orig_start = threading.Thread.start

        def start(th):
            ctx = contextvars.copy_context()
            target = th.run
            th.run = lambda: ctx.run(target)
            S.count('thread')
            S.starting = threading.current_thread() is S.real_main
            try:
                orig_start(th)
            finally:
                S.starting = False
        threading.Thread.start = start

        orig_join = threading.Thread.join

        def join(th, timeout=None):
            S.main_blocks()
            S.blocked.add(threading.get_ident())
            try:
                if S.interrupts and threading.current_thread() is S.real_main:
                    while th.is_alive():
                        orig_join(th, 0.01)
                        if S.main_interrupt:
                            S.main_interrupt = False
                            raise KeyboardInterrupt('interrupt')
                else:
                    orig_join(th, None)
            finally:
                S.blocked.discard(threading.get_ident())
        threading.Thread.join = join

        orig_wait = threading.Condition.wait

        def cwait(cond, timeout=None):
            me = threading.get_ident()
            others = [t for t in threading.enumerate()
                      if t.ident != me and t.ident not in S.blocked and (t.is_alive() or not t._started.is_set())]
            if not others:
                if timeout is None:
                    S.hang('deadlock', 'a thread waits for a notification nobody can send')
                S.advance(S.now + timeout)
                return False
            S.main_blocks()
            S.blocked.add(me)
            try:
                if S.interrupts and threading.current_thread() is S.real_main and not S.starting:
                    while not orig_wait(cond, 0.01):
                        if S.main_interrupt:
                            S.main_interrupt = False
                            raise KeyboardInterrupt('interrupt')
                    return True
                return orig_wait(cond, timeout)
            finally:
                S.blocked.discard(me)
        threading.Condition.wait = cwait

        mon = sys.monitoring
        mon.use_tool_id(3, 'nfsim')
        prefix = os.path.dirname(os.path.abspath(nf.__file__))

        def on_jump(code, frm, to):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            if to < frm:
                S.jump_budget += 1
                if S.jump_budget > 2000000:
                    mon.set_events(3, 0)
                    S.hang('spin', 'synchronous loop without end in %s' % code.co_name)
        mon.register_callback(3, mon.events.JUMP, on_jump)
        what = mon.events.JUMP
        if any(r.get('interrupt_line') is not None for r in self.life['runs']) or self.life.get('switch_lines'):
            # Ctrl-C at any line of the program which the main thread executes
            what |= mon.events.LINE

            def on_line(code, line):
                if not code.co_filename.startswith(prefix):
                    return mon.DISABLE
                if S.threads and S.life.get('switch_lines'):
                    S.line_in_thread(code)
                    return None
                run = S.line_run
                if run is None or run.ended or run.interrupted or threading.current_thread() is not S.real_main:
                    return None
                run.lines += 1
                if run.lines < run.spec['interrupt_line']:
                    return None
                if asyncio._get_running_loop() is None:
                    # nothing can be guaranteed before and after the loop runs
                    return None
                run.interrupted = True
                S.count('interrupt_line')
                S.log('interrupt', run.rid, '%s:%s' % (code.co_name, line))
                S.activity += 1
                raise KeyboardInterrupt('interrupt')
            mon.register_callback(3, mon.events.LINE, on_line)
        mon.set_events(3, what)

        if self.life.get('path_style', 'abs') != 'abs':
            os.chdir(self.root)
        d = self.life.get('disk') or {}
        self.disk = SimDisk(self.root, self.life.get('save_name', 'save.hdf5'), d, self.fslog, self.crash)
        if self.crash_spec is not None and self.crash_spec['at'] == 'op':
            self.disk.crash = self.crash_spec
        self.disk.over_cb = lambda: self.hang('budget', 'disk operations')
        self.disk.install()
        self.watch_busy()

    def watch_busy(self):
        """
        Code under test which computes for ever without a call, file operation or loop
        iteration cannot be seen by the scheduler: give up after a minute of CPU time.
        """
        seen = [None, 0]

        def tick(signum, frame):
            now = (self.activity, self.total_calls, self.iter, self.disk.nop)
            seen[1] = seen[1] + 1 if now == seen[0] else 0
            seen[0] = now
            if seen[1] >= 12:
                self.hang('hang', 'computes without end')
        signal.signal(signal.SIGVTALRM, tick)
        signal.setitimer(signal.ITIMER_VIRTUAL, 5, 5)

    # -- running searches --------------------------------------------------
    def share(self, what, spec, make):
        """Searches with equal arguments get the same objects, as from one caller."""
        k = (what, repr(spec))
        if k not in self.shared:
            self.shared[k] = make()
        return self.shared[k]

    def kwargs(self, run):
        s = run.search
        dim = len(s['limits'])
        st = s.get('stencil', 'auto')
        if isinstance(st, dict):
            if 'mesh' in st:
                from nodefinder.search.refinement_stencil import get_mesh_stencil
                spec = st
                st = self.share('stencil', spec, lambda: get_mesh_stencil(mesh_size=spec['mesh'],
                                                                          dist_multiplier=spec.get('mult', 2.5)))
            else:
                spec = st
                st = self.share('stencil', spec, lambda: np.array(spec['custom'], dtype=float))
        kw = dict(
            limits=self.share('limits', s['limits'], lambda: [tuple(l) for l in s['limits']]), periodic=s['periodic'],
            initial_mesh_size=tuple(s['mesh']) if isinstance(s['mesh'], (list, tuple)) else s['mesh'],
            force_initial_mesh=s.get('force', False),
            refinement_stencil=st, gap_threshold=s['gap_threshold'], feature_size=s['feature_size'],
            use_fake_potential=s.get('fake', False), nelder_mead_kwargs=self.share('nm', s.get('nm', {}), lambda: dict(s.get('nm', {}))),
            num_minimize_parallel=s['P'],
        )
        for k, name in (('recheck', 'recheck_pos_dist'), ('count_cutoff', 'recheck_count_cutoff'),
                        ('simplex_cutoff', 'simplex_check_cutoff'), ('save_delay', 'save_delay'),
                        ('load', 'load'), ('load_quiet', 'load_quiet')):
            if k in s:
                kw[name] = s[k]
        if s.get('save', True):
            kw['save_file'] = self.save_arg(run)
        init = s.get('initial_state')
        if init == 'save':
            if os.path.exists(self.save_path(run)):
                kw['initial_state'] = nf.io.load(self.save_path(run))
        elif init == 'file':
            kw['initial_state'] = self.share('state', 0, lambda: nf.io.load(os.path.join(self.root, 'initial.hdf5')))
        return kw

    def finish(self, run, kind, value):
        self.poll()
        run.ended = True
        if kind == 'return':
            run.outcome = {'kind': 'return', 'result': dump_container(value, full=False), 'type': type(value).__name__,
                           'same': run.state is not None and value is run.state.result}
        else:
            exc = value
            run.outcome = {'kind': 'raise', 'exc': type(exc).__name__,
                           'msg': self.message(exc),
                           'injected': any(exc is e for e in run.injected),
                           'mro': [c.__name__ for c in type(exc).__mro__]}
        run.outcome['seq'] = len(self.events)
        run.outcome['time'] = self.now
        run.outcome['iter'] = self.iter
        run.outcome['state'] = dump_of_run(run, full=False)
        run.outcome['file'] = self.file_sha(run)
        self.log('end', run.rid, kind, run.outcome.get('exc'))
        self.activity += 1

    def file_sha(self, run):
        import hashlib
        from .disk import read_file
        if not run.search.get('save', True):
            return None
        try:
            return hashlib.sha1(read_file(self.save_path(run))).hexdigest()
        except OSError:
            return None

    def message(self, exc):
        """What an exception says, without what differs from run to run."""
        s = str(exc).replace(self.root, '<root>')
        # HDF5 gives the real time and addresses
        s = re.sub(r'time = [^,]*,', 'time,', re.sub(r'0x[0-9a-f]+', '0x', s))
        return s[:300]

    def save_arg(self, run):
        """The save file as the caller names it."""
        path, style = self.save_path(run), self.life.get('path_style', 'abs')
        if style == 'abs':
            return path
        if style == 'updown':
            return os.path.join(self.root, 'systmp', '..', os.path.basename(path))
        rel = os.path.relpath(path, os.getcwd())
        return os.path.join(os.curdir, rel) if style == 'dot' else rel

    def save_path(self, run):
        return os.path.join(self.root, run.spec.get('save_name', self.life.get('save_name', 'save.hdf5')))

    def leftovers(self, run, loop):
        """Tasks of the loop other than the current one and the harness's own."""
        out = []
        for t in asyncio.all_tasks(loop):
            if getattr(t, '_sim_harness', False):
                continue
            out.append(str(t.get_coro().__qualname__))
        run.outcome['left_tasks'] = sorted(out)

    async def await_run(self, run):
        """Entry 'async': await run_async in its own task on the current loop."""
        CURRENT_RUN.set(run)
        kw = self.kwargs(run)
        task = asyncio.ensure_future(nf.search.run_async(self.make_gap(run), **kw))
        run.main = task
        self.waiting += 1
        try:
            res = await task
        except asyncio.CancelledError as exc:
            if task.cancelled():
                self.finish(run, 'raise', exc)
            else:
                raise
        except Exception as exc:
            self.finish(run, 'raise', exc)
        except BaseException as exc:
            if task.done():
                self.finish(run, 'raise', exc)
            raise
        else:
            self.objs['returned%d' % run.rid] = res
            self.finish(run, 'return', res)
        finally:
            self.waiting -= 1

    def blocking_run(self, run):
        """Entry through search.run in the current thread."""
        CURRENT_RUN.set(run)
        kw = self.kwargs(run)
        gap = self.make_gap(run)
        n0 = len(self.loops)
        try:
            try:
                if run.spec.get('interrupt_line') is not None:
                    self.line_run = run
                res = nf.search.run(gap, **kw)
            finally:
                self.line_run = None
        except BaseException as exc:
            self.finish(run, 'raise', exc)
        else:
            self.objs['returned%d' % run.rid] = res
            self.finish(run, 'return', res)
        return n0

    async def aftermath(self, runs):
        w = self.life.get('aftermath', 600.)
        loop = asyncio.get_running_loop()
        # give ended tasks a moment to be finalised, then look
        for _ in range(3):
            await asyncio.sleep(0)
        for run in runs:
            if run.outcome is not None and 'left_tasks' not in run.outcome:
                self.leftovers(run, loop)
        self.waiting += 1
        self.log('aftermath')
        await asyncio.sleep(w)
        self.waiting -= 1

    def after_on(self, loop, runs):
        t = self.harness_task(self.aftermath(runs), loop)
        for _ in range(5):
            try:
                loop.run_until_complete(t)
                break
            except (KeyboardInterrupt, SystemExit, InjectedBase) as exc:
                # only something the search left behind can raise here
                self.log('escaped_after', type(exc).__name__)

    def harness_task(self, coro, loop):
        t = loop.create_task(coro)
        t._sim_harness = True
        return t

    def run_async_entry(self, runs, loop=None):
        """asyncio.run-like: own loop, all runs gathered on it."""
        own = loop is None
        if own:
            loop = asyncio.new_event_loop()
            self.harness_loops.add(loop)

        async def outer():
            if len(runs) == 1:
                await self.await_run(runs[0])
            else:
                ts = []
                for r in runs:
                    t = self.harness_task(self.await_run(r), loop)
                    ts.append(t)
                    gap = r.spec.get('offset', 0)
                    if gap:
                        self.waiting += 1
                        await asyncio.sleep(gap)
                        self.waiting -= 1
                await asyncio.gather(*ts)

        t = self.harness_task(outer(), loop)
        try:
            loop.run_until_complete(t)
        except (KeyboardInterrupt, SystemExit, asyncio.CancelledError, InjectedBase) as exc:
            self.log('escaped', type(exc).__name__)
            self.activity += 1
            # what asyncio.run does: cancel everything, wait for it
            tasks = [x for x in asyncio.all_tasks(loop)]
            tasks.sort(key=lambda x: getattr(x, '_sim_serial', -1))
            for x in tasks:
                x.cancel()

            async def drain():
                await asyncio.gather(*tasks, return_exceptions=True)
            for _ in range(4):
                try:
                    loop.run_until_complete(self.harness_task(drain(), loop))
                    break
                except (KeyboardInterrupt, SystemExit, InjectedBase) as again:
                    self.log('escaped', type(again).__name__)
            for r in runs:
                if r.outcome is not None and r.outcome['kind'] == 'raise' and r.outcome['exc'] == 'CancelledError' \
                        or r.outcome is None:
                    self.finish(r, 'raise', exc)
                    r.outcome['escaped'] = True
        self.after_on(loop, runs)
        if own:
            loop.close()

    def run_entry(self, run):
        entry = run.spec['entry']
        if entry == 'async':
            self.run_async_entry([run])
        elif entry in ('sync', 'sync_noloop'):
            pol = asyncio.get_event_loop_policy()
            if entry == 'sync_noloop' and not self.noloop:
                # as asyncio.run leaves the thread: without a current loop
                self.noloop = True
                pol.set_event_loop(None)
            n0 = self.blocking_run(run)
            cur = getattr(pol._local, '_loop', None)
            run.outcome['open_loops'] = sum(1 for lp in self.loops[n0:] if not lp.is_closed() and lp is not cur)
            if cur is not None and not cur.is_closed():
                if not run.spec.get('no_after'):
                    self.after_on(cur, [run])
                else:
                    self.leftovers(run, cur)
        elif entry == 'sync_in_loop':
            loop = asyncio.new_event_loop()
            self.harness_loops.add(loop)

            async def outer():
                n0 = self.blocking_run(run)
                run.outcome['open_loops'] = sum(1 for lp in self.loops[n0:] if not lp.is_closed())
                await self.aftermath([run])
            loop.run_until_complete(self.harness_task(outer(), loop))
            loop.close()
        elif entry == 'sync_thread':
            box = []

            group = [run]
            if self.life.get('one_thread'):
                # one thread which makes several searches, one after the other
                for r in self.runs[run.rid + 1:]:
                    if r.spec['entry'] != 'sync_thread':
                        break
                    group.append(r)

            def target():
                for r in group:
                    box.append(self.blocking_run(r))
                box.append(len(self.loops))
            CURRENT_RUN.set(run)
            th = threading.Thread(target=target)
            th.start()
            th.join()
            for i, r in enumerate(group):
                r.outcome['open_loops'] = sum(1 for lp in self.loops[box[i]:box[i + 1]] if not lp.is_closed())
                r.outcome['threads'] = threading.active_count() - 1
        else:
            raise ValueError(entry)
        run.outcome['threads'] = threading.active_count() - 1

    def run_threads(self, runs):
        """Several callers in threads of their own, one running at a time."""
        ths = []

        def target(run, lock):
            lock.acquire()
            CURRENT_RUN.set(run)
            try:
                self.blocking_run(run)
            finally:
                me = threading.get_ident()
                self.threads[:] = [t for t in self.threads if t[0] != me]
                self.held = None
                if self.threads:
                    self.baton_rng.choice(self.threads)[1].release()

        for run in runs:
            lock = _thread.allocate_lock()
            lock.acquire()
            th = threading.Thread(target=target, args=(run, lock))
            th.start()
            ths.append((th, lock))
        self.threads = [(th.ident, lock) for th, lock in ths]
        self.baton_rng.choice(self.threads)[1].release()
        for th, _ in ths:
            th.join()
        for run in runs:
            run.outcome['open_loops'] = sum(1 for lp in self.loops if not lp.is_closed())
            run.outcome['threads'] = threading.active_count() - 1

    def main(self):
        self.install()
        for i, spec in enumerate(self.life['runs']):
            run = Run(i, spec)
            run.cancelled_at = set()
            run.stalled = set()
            self.runs.append(run)
        compose = self.life.get('compose', 'seq')
        settings = self.settings()
        if compose == 'seq':
            shared = None
            if self.life.get('shared_loop'):
                shared = asyncio.new_event_loop()
                self.harness_loops.add(shared)
            for run in self.runs:
                if run.outcome is not None:
                    continue
                if shared is not None and run.spec['entry'] == 'async':
                    self.run_async_entry([run], loop=shared)
                else:
                    self.run_entry(run)
        elif compose == 'gather':
            self.run_async_entry(self.runs)
        elif compose == 'threads':
            self.run_threads(self.runs)
        self.disk.observe('final')
        after = self.settings()
        self.result['settings'] = {k: [settings[k], v] for k, v in after.items() if k in settings and settings[k] != v}
        self.do_ops()
        for run in self.runs:
            if run.outcome is not None:
                run.outcome['file_later'] = self.file_sha(run)
                run.outcome['dead_tasks'] = sorted(t.get_coro().__qualname__ for lp in self.loops if lp.is_closed()
                                                   and lp not in self.harness_loops for t in asyncio.all_tasks(lp))
        self.result['files'] = sorted(n for n in os.listdir(self.root))
        self.leave('ok', EXIT_OK)


    # -- operations on the results -----------------------------------------
    def do_ops(self):
        """Saving, loading and identifying after the searches, each with disk faults of its own."""
        self.result['ops'] = []
        for run in self.runs:
            if run.state is not None:
                self.objs['state%d' % run.rid] = run.state
                self.objs['result%d' % run.rid] = self.objs.get('returned%d' % run.rid, run.state.result)
        for i, op in enumerate(self.life.get('ops', ())):
            out = {'op': op['op'], 'src': op.get('src'), 'i': i}
            self.result['ops'].append(out)
            if op.get('seed') is not None:
                random.seed(op['seed'])
                np.random.seed(op['seed'] % 2**32)
            if op.get('src') is not None and op['src'] not in self.objs and op['op'] in ('save', 'identify', 'sweep'):
                out['how'] = 'skipped'
                continue
            if op['op'] == 'sweep':
                self.sweep(op, out)
                continue
            self.disk.arm(op.get('faults', ()))
            try:
                self.do_op(op, out)
                out['how'] = 'ok'
            except Exception as exc:
                out['how'] = 'raise'
                out['exc'] = type(exc).__name__
                out['msg'] = self.message(exc)
            out['fired'] = self.disk.disarm()
            if out['fired']:
                self.count('io_op_fault:' + op['op'])
            self.log('op', i, op['op'], out['how'], out.get('exc'), hash_of(out.get('dump')))

    def sweep(self, op, out):
        """The same load or save again and again, each time failing at another point."""
        out['how'] = 'ok'
        out['each'] = []
        path = os.path.join(self.root, op['file'])
        for nth in op['nths']:
            one = {'nth': nth}
            self.disk.arm([dict(op['fault'], nth=nth)])
            obj = None
            try:
                if op.get('src') is not None:
                    nf.io.save(self.objs[op['src']], path)
                else:
                    obj = nf.io.load(path)
                one['how'] = 'ok'
            except Exception as exc:
                one['how'] = 'raise'
                one['exc'] = type(exc).__name__
                one['msg'] = self.message(exc)
            one['fired'] = self.disk.disarm()
            if one['fired']:
                self.count('io_op_fault:' + ('save' if op.get('src') is not None else 'load'))
            if one['how'] == 'ok' and (one['fired'] or not out['each']):
                if obj is None:
                    try:
                        obj = nf.io.load(path)
                    except Exception as exc:
                        one['how'] = 'lost'
                        one['msg'] = '%s: %s' % (type(exc).__name__, self.message(exc))
                if obj is not None:
                    one['kind'], one['dump'] = dump_any(obj)
            out['each'].append(one)
            self.log('sweep', out['i'], nth, one['how'], one.get('exc'), hash_of(one.get('dump')))
            if not one['fired']:
                break

    def do_op(self, op, out):
        k = op['op']
        path = os.path.join(self.root, op['file']) if 'file' in op else None
        if k == 'save':
            obj = self.objs[op['src']]
            out['kind'], out['dump'] = dump_any(obj)
            nf.io.save(obj, path)
        elif k == 'load':
            obj = nf.io.load(path)
            out['kind'], out['dump'] = dump_any(obj)
            if 'as' in op:
                self.objs[op['as']] = obj
        elif k == 'identify':
            obj = self.objs[op['src']]
            if op.get('inner'):
                obj = obj.result
            kw = {}
            if op.get('method'):
                kw['evaluate_line_method'] = op['method']
            if op.get('fs'):
                kw['feature_size'] = op['fs']
            res = nf.identify.run(obj, **kw)
            out['kind'], out['dump'] = dump_any(res)
            self.objs[op.get('as', 'ident%d' % out['i'])] = res
        elif k == 'container':
            # a search result with the given nodes, in the given order
            cs = nf.coordinate_system.CoordinateSystem(limits=op['limits'], periodic=op['periodic'])
            from nodefinder.search.result import SearchResultContainer, MinimizationResult
            c = SearchResultContainer(coordinate_system=cs, gap_threshold=op['thr'], dist_cutoff=op['fs'] / 3)
            for p, v in zip(op['pos'], op['val']):
                c.add_result(MinimizationResult(pos=np.array(p), value=v, success=True, status=0, num_fev=1, num_iter=1,
                                                message='ok'))
            self.objs[op['as']] = c
            out['kind'], out['dump'] = dump_any(c)
        elif k == 'make':
            # objects as identify returns them, with given content
            from nodefinder.identify.result import IdentificationResult, IdentificationResultContainer, NodalLine, NodalPoint
            import networkx as nx

            def make(d):
                if d is None:
                    return None
                if d['what'] == 'point':
                    return NodalPoint(position=np.array(d['pos']) if d.get('array') else tuple(d['pos']))
                if d['what'] == 'line':
                    nodes = [tuple(p) for p in d['nodes']]
                    g = nx.Graph()
                    g.add_nodes_from(nodes)
                    g.add_edges_from([(nodes[i], nodes[j]) for i, j in d['edges']])
                    return NodalLine(graph=g, degree_count={a: b for a, b in d['degree']})
                if d['what'] == 'object':
                    return IdentificationResult(positions=[tuple(p) for p in d['pos']], dimension=d['dim'], shape=make(d['shape']))
                cs = nf.coordinate_system.CoordinateSystem(limits=d['limits'], periodic=d['periodic'])
                if d['what'] == 'coords':
                    return cs
                return IdentificationResultContainer(coordinate_system=cs, feature_size=d['fs'], results=[make(x) for x in d['results']])
            self.objs[op['as']] = make(op['spec'])
            out['kind'], out['dump'] = dump_any(self.objs[op['as']])
        elif k == 'part':
            obj = self.objs[op['src']]
            for key in op['path']:
                obj = obj[key] if isinstance(key, int) else getattr(obj, key)
            self.objs[op['as']] = obj
            out['kind'], out['dump'] = dump_any(obj)
        elif k == 'truncate':
            n = os.path.getsize(path)
            m = op['n'] if 'n' in op else int(n * op['frac'])
            m = max(0, min(n - 1, m if m >= 0 else n + m))
            with open(path, 'rb') as f:
                data = f.read()
            with open(path, 'wb') as f:
                f.write(data[:m])
            out['size'] = n
            out['kept'] = m
        else:
            raise ValueError(k)


def hash_of(dump):
    import hashlib
    return hashlib.sha1(repr(dump).encode()).hexdigest()[:12]


class Workers:
    """A pool with limited capacity and an order of its own."""
    def __init__(self, S, n, order, seed):
        self.S = S
        self.n = n
        self.order = order
        self.busy = 0
        self.queue = []
        self.rng = random.Random(seed)

    def submit(self, loop, fut, d):
        self.queue.append((loop, fut, d))
        self.kick()

    def kick(self):
        while self.busy < self.n and self.queue:
            if self.order == 'fifo':
                job = self.queue.pop(0)
            elif self.order == 'lifo':
                job = self.queue.pop()
            else:
                job = self.queue.pop(self.rng.randrange(len(self.queue)))
            loop, fut, d = job
            if fut.done():
                continue
            self.busy += 1
            loop.call_later(d, self.done, fut)

    def done(self, fut):
        self.busy -= 1
        Sim.set_future(fut)
        self.kick()


class _Names:
    def __init__(self, index):
        self.i = 0
        self.index = index

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return 'sim%d_%05d' % (self.index, self.i)


class SimTask(asyncio.Task):
    def __init__(self, coro, *, loop, **kw):
        S = loop._sim
        self._sim_serial = next(S.task_serial)
        self._sim_hash = S.hash_rng.getrandbits(60)
        try:
            self._sim_parent = asyncio.current_task(loop)
        except RuntimeError:
            self._sim_parent = None
        p = self._sim_parent
        if p is not None:
            for run in S.runs:
                if run.main is p and run.state is not None:
                    S.poll()
                    S.log('spawn', run.rid, self._sim_serial, len(run.state.result.nodes))
        super().__init__(coro, loop=loop, **kw)

    def __hash__(self):
        return self._sim_hash


class SimFuture(asyncio.Future):
    def __init__(self, *, loop):
        self._sim_hash = loop._sim.hash_rng.getrandbits(60)
        super().__init__(loop=loop)

    def __hash__(self):
        return self._sim_hash


def _factory(loop, coro, **kw):
    return SimTask(coro, loop=loop, **kw)


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, S):
        self._sim = S
        super().__init__()
        self._clock_resolution = 1e-9
        self.set_task_factory(_factory)
        self.set_exception_handler(self._on_exc)
        S.loops.append(self)

    def _on_exc(self, loop, context):
        self._sim.log('loopexc', str(context.get('message')), type(context.get('exception')).__name__)

    def create_future(self):
        return SimFuture(loop=self)

    def time(self):
        return self._sim.now

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def _run_once(self):
        S = self._sim
        S.iteration(self)
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(sched)
            h._scheduled = False
        if not self._ready:
            if self._stopping:
                return
            if not sched:
                S.hang('deadlock', 'the event loop has nothing left to do but the search has not ended')
            S.advance(sched[0]._when)
            S.activity += 0
        end = S.now + self._clock_resolution
        while sched and sched[0]._when < end:
            h = heapq.heappop(sched)
            h._scheduled = False
            self._ready.append(h)
        for _ in range(len(self._ready)):
            h = self._ready.popleft()
            if h._cancelled:
                continue
            h._run()
            S.poll()


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def __init__(self, S):
        super().__init__()
        self._sim = S

    def new_event_loop(self):
        return SimLoop(self._sim)


def run_life(life, root, out_path):
    import warnings
    # not the entry which simplefilter makes: a program under test that leaves such an entry is seen
    warnings.resetwarnings()
    warnings.filterwarnings('ignore', message='.*')
    import logging
    logging.disable(logging.CRITICAL)
    S = Sim(life, root, out_path)
    try:
        S.main()
    except BaseException:
        import traceback
        S.result['harness_error'] = traceback.format_exc()
        S.leave('harness_error', 3)
