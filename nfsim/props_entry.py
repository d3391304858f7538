"""P12 (failures surface) and P13 (nothing left behind, searches are independent)."""
import json

from . import gen
from .core import Violation
from .hist import events, outcome_str, light
from .props_search import compare_search, strip, ended, fmt

EXCS = ['ValueError', 'ValueError', 'RuntimeError', 'OSError', 'Injected', 'Injected', 'InjectedBase', 'KeyboardInterrupt',
        'SystemExit', 'CancelledError', 'TimeoutError', 'ZeroDivisionError', 'MemoryError', 'KeyError']


def fault_list(rng, n, top):
    return [{'at': rng.choice(['call', 'ret']), 'n': rng.choice([rng.randint(1, 8), rng.randint(1, top)]), 'exc': rng.choice(EXCS)}
            for _ in range(n)]


def surfaced(o, h, rid=0):
    """Is outcome `o` one of the exceptions which the gap function raised?"""
    if o['kind'] != 'raise':
        return False
    if o['injected']:
        return True
    for _, e in events(h, 'exc', rid):
        name = e[5]
        if name == 'CancelledError' and o['exc'] == 'CancelledError':
            return True
        if o['exc'] == {'TimeoutError': 'TimeoutError'}.get(name, name) and 'injected %d' % e[4] in o['msg']:
            return True
    return False


class P12:
    id = 'P12'

    def gen(self, rng, tier):
        s = gen.search(rng, save=rng.random() < 0.4, P=rng.choice([1, 1, 2, 3, 5, 50]))
        g = gen.gap(rng)
        entry = rng.choice(gen.ENTRIES)
        top = rng.choice([30, 100, 400])
        g['faults'] = fault_list(rng, rng.choice([1, 1, 1, 2, 4]), top)
        if rng.random() < 0.25:         # a burst
            n = g['faults'][0]['n']
            for k in range(rng.randint(1, 6)):
                g['faults'].append({'at': rng.choice(['call', 'ret']), 'n': n + k, 'exc': rng.choice(EXCS)})
        if g['mode'] not in ('sync', 'async0') and rng.random() < 0.6:
            g['stalls'] = [{'n': max(1, g['faults'][0]['n'] + rng.randint(-8, 2)), 'd': rng.choice([1e4, 1e6])}
                           for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.15 and s['save']:
            s['save_delay'] = rng.choice([0.05, 1e3, 1e6])
        else:
            s['save_delay'] = gen.save_delay(rng, g, s['P'], 5)
        r = gen.run(rng, s, g, entry)
        if entry in ('sync', 'sync_noloop', 'sync_in_loop') and rng.random() < 0.25:
            g['faults'] = []
            r['interrupt'] = rng.choice([rng.randint(1, 30), rng.randint(1, 500)])
            if entry in ('sync', 'sync_noloop') and rng.random() < 0.6:
                del r['interrupt']
                r['interrupt_line'] = round(10**rng.uniform(0.5, rng.choice([3., 4.5, 5.5])))
        if entry == 'async' and rng.random() < 0.25:
            g['faults'] = []
            r['cancel'] = {'iter': [rng.randint(1, 500)]} if rng.random() < 0.5 else {'gap': [rng.randint(1, top)]}
        return {'prop': 'P12', 'lives': [gen.life(rng, [r])]}

    def run(self, sc, ctx):
        ctx.fresh()
        l = sc['lives'][0]
        h = ctx.life(l)
        out = []
        excs = events(h, 'exc', 0)
        cancels = events(h, 'cancel_request', 0)
        intr = events(h, 'interrupt', 0)
        first = min((x for x in excs + cancels + intr), default=None, key=lambda x: x[0])
        if first is None:
            return out
        ctx.stats.nontrivial += 1
        at, ev = first
        what = {'exc': 'the gap function raised %s' % ev[-1], 'cancel_request': 'the search was cancelled',
                'interrupt': 'the caller was interrupted (KeyboardInterrupt)'}[ev[2]]
        where = '%s, started by %s' % (what, l['runs'][0]['entry'])
        o = h['runs'][0]['outcome']
        end = next((i for i, e in enumerate(h['events']) if e[2] == 'end' and e[3] == 0), None)
        if end is None:
            if h['exit'] == 'harness_error':
                return out
            return [Violation('no-end', '%s, and the search goes on or hangs: %s (%s)' % (where, h['exit'], h['why']))]
        if o['kind'] == 'return':
            last = at == end - 1 or all(e[2] in ('cancel_request', 'fs', 'ver') for e in h['events'][at:end])
            if ev[2] != 'cancel_request' or not last:
                out.append(Violation('swallowed', '%s, and the search returned as if nothing had happened' % where))
        elif ev[2] == 'exc' and not surfaced(o, h):
            out.append(Violation('other', '%s, but the search %s' % (where, outcome_str(o))))
        elif ev[2] == 'cancel_request' and o['exc'] != 'CancelledError':
            out.append(Violation('other', '%s, but the search %s' % (where, outcome_str(o))))
        elif ev[2] == 'interrupt' and o['exc'] != 'KeyboardInterrupt':
            out.append(Violation('other', '%s, but the search %s' % (where, outcome_str(o))))
        its = o['iter'] - ev[0]
        ctx.stats.probe('iterations until the search ended', its)
        ctx.stats.probe('ended after %s iterations' % (its if its < 12 else '12-60' if its < 60 else 'more than 60'))
        ctx.stats.probe('failures surfaced')
        dt = o['time'] - ev[1]
        if its > 60:
            out.append(Violation('late', '%s, and the search ended %d loop iterations (%.4g s) later' % (where, its, dt)))
        late = [e for e in h['events'][at:end] if e[2] == 'call' and e[0] > ev[0] + 8]
        if late:
            out.append(Violation('goes-on', '%s, but %d iterations later it still evaluates the gap at %r'
                                 % (where, late[0][0] - ev[0], late[0][6])))
        # simulated time: the calls that were made anyway, and the ticks of the loop
        spent = 0.
        g = l['runs'][0]['gap']
        if g['mode'] == 'sync':
            n = sum(1 for e in h['events'][at:end] if e[2] == 'call')
            spent = dt if n else 0.
        jumps = sum(e[3] for e in h['events'][at:end] if e[2] == 'clockjump')
        if dt - spent - jumps > 1.0 + 200 * l['clock'].get('tick', 1e-4):
            out.append(Violation('waits', '%s, and it took %.6g s until the search ended' % (where, dt)))
        return out


def own_tasks(names):
    return [n for n in names if 'BatchSubmitter' not in n and 'batch_fn' not in n]


def change(before, after):
    if isinstance(before, list):
        return 'added %r, removed %r' % ([x for x in after if x not in before], [x for x in before if x not in after])
    return '%s instead of %s' % (after, before)


class P13:
    id = 'P13'

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 2, 3])
        compose = rng.choice(['seq', 'seq', 'seq', 'gather', 'gather', 'threads', 'threads', 'threads']) if n > 1 else 'seq'
        sc = {'prop': 'P13', 'lives': []}
        init = rng.random() < 0.2
        if compose == 'threads' and rng.random() < 0.5:
            # many nodes near each other
            base = gen.search(rng, save=True, dim=rng.choice([1, 2, 2]), kind='plane', periodic=rng.random() < 0.7)
        else:
            base = gen.search(rng, save=True)
        if init:
            g = gen.gap(rng, modes=['sync', 'async0'])
            base['P'] = rng.choice([1, 2])
            s0 = dict(base, save_delay=gen.save_delay(rng, g, base['P'], 10))
            l = gen.life(rng, [gen.run(rng, s0, g, 'async')])
            if rng.random() < 0.7:
                l['crash'] = {'at': 'gap', 'n': rng.randint(5, 200)}
            sc['make'] = l
        runs = []
        for i in range(n):
            if i and rng.random() < (0.8 if compose == 'threads' else 0.5) or init:
                s = json.loads(json.dumps(base))
                if rng.random() < 0.4:
                    s['feature_size'] = gen.rnd(s['feature_size'] * rng.choice([0.8, 1.3, 1.7]), 3)
                if rng.random() < 0.4:
                    s['gap_threshold'] = gen.rnd(s['gap_threshold'] * rng.choice([0.3, 3]), 3)
                if rng.random() < 0.3:
                    s['landscape'] = gen.search(rng, dim=len(s['limits']), kind='points')['landscape']
                if rng.random() < 0.3:
                    s['fake'] = not s['fake']
            elif i == 0:
                s = json.loads(json.dumps(base))
            else:
                s = gen.search(rng, save=rng.random() < 0.6)
            s['P'] = 1 if compose == 'threads' and rng.random() < 0.5 else rng.choice([1, 1, 1, 2, 3, 6])
            if init:
                s['initial_state'] = 'file'
            g = gen.gap(rng)
            if rng.random() < 0.4:
                g['faults'] = fault_list(rng, rng.choice([1, 1, 2, 3]), rng.choice([20, 100, 300]))
                if compose != 'seq':
                    for f in g['faults']:
                        if f['exc'] in ('KeyboardInterrupt', 'SystemExit', 'InjectedBase'):
                            f['exc'] = 'Injected'
            if g['mode'] not in ('sync', 'async0'):
                if rng.random() < 0.3:
                    g['stalls'] = [{'n': rng.randint(1, 60), 'd': rng.choice([5., 200.])} for _ in range(rng.randint(1, 3))]
                if rng.random() < 0.25:
                    g['cleanup'] = rng.choice([0.01, 0.5, 20.])
            s['save_delay'] = gen.save_delay(rng, g, s['P'], 5)
            entry = 'async' if compose == 'gather' else 'sync' if compose == 'threads' else rng.choice(gen.ENTRIES)
            r = gen.run(rng, s, g, entry, save_name='save%d.hdf5' % i)
            if rng.random() < 0.2:
                r['offset'] = gen.rnd(rng.uniform(0, 5))
            if compose == 'seq' and entry in ('sync', 'sync_noloop', 'sync_in_loop') and rng.random() < 0.3:
                g.pop('faults', None)
                if entry in ('sync', 'sync_noloop') and rng.random() < 0.6:
                    r['interrupt_line'] = round(10**rng.uniform(0.5, rng.choice([3., 4.5, 5.5])))
                else:
                    r['interrupt'] = rng.choice([rng.randint(1, 30), rng.randint(1, 500)])
            finished = init and 'crash' not in sc['make']
            if finished and rng.random() < 0.3 and compose != 'threads':
                # nothing is left to do, and it is cancelled at once
                r['entry'] = 'async'
                r.pop('interrupt', 0), r.pop('interrupt_line', 0)
                r['cancel'] = {'iter': [rng.randint(1, 7)]}
            elif entry == 'async' and rng.random() < 0.25:
                c = {'iter': [rng.choice([rng.randint(1, 5), rng.randint(1, 600), rng.randint(1, 600)])]} if rng.random() < 0.5 else {'gap': [rng.randint(1, 150)]}
                k = next(iter(c))
                if rng.random() < 0.3:
                    c[k].append(c[k][0] + rng.choice([0, 1, 2, 3, 4, 5, 30]))
                r['cancel'] = c
            runs.append(r)
        same = rng.random()
        if compose == 'seq' and n > 1 and same < 0.3:
            # several searches from the same thread
            for r in runs:
                if 'interrupt_line' not in r and 'interrupt' not in r and 'cancel' not in r:
                    r['entry'] = 'sync_noloop' if same < 0.1 else 'sync_thread'
        l = gen.life(rng, runs, compose=compose, save_name='save0.hdf5')
        if compose == 'seq' and rng.random() < 0.5:
            l['one_thread'] = True
        if rng.random() < 0.3:
            l['shared_loop'] = True
        if compose == 'threads' and rng.random() < 0.8:
            # pre-empted at any line, not only between two steps of the loop
            l['switch_lines'] = round(10**rng.uniform(0.1, 3.5), 2)
            if rng.random() < 0.7:
                l['switch_meet'] = rng.choice([3, 10, 30])
        if rng.random() < 0.3:
            l['aftermath'] = rng.choice([0., 0.01, 1.])
        sc['lives'].append(l)
        return sc

    def run(self, sc, ctx):
        files = {}
        if 'make' in sc:
            ctx.fresh()
            ctx.life(sc['make'])
            data = ctx.files().get('save.hdf5')
            if data is None:
                return []
            files['initial.hdf5'] = data
        ctx.fresh(files)
        l = sc['lives'][0]
        h = ctx.life(l)
        out = []
        if h['exit'] != 'ok':
            if h['exit'] in ('deadlock', 'livelock', 'spin', 'hang'):
                out.append(Violation('no-end', '%s: %s' % (h['exit'], h['why'])))
            else:
                ctx.stats.inconclusive += 1
            return out
        ctx.stats.probe('composition ' + l.get('compose', 'seq'))
        for rid, (r, spec) in enumerate(zip(h['runs'], l['runs'])):
            out += self.leftovers(h, rid, r, spec)
        for k, (before, after) in sorted((h.get('settings') or {}).items()):
            if any(spec.get('interrupt_line') for spec in l['runs']):
                # Ctrl-C on the way into or out of a 'with' block: no program can undo what it did
                break
            out.append(Violation('settings', 'after the searches (%s), the %s of the process are changed: %.300s'
                                 % (l.get('compose', 'seq'), k, change(before, after))))
        if out:
            return out
        ctx.stats.nontrivial += 1
        if len(l['runs']) > 1 or 'make' in sc:
            for rid, (r, spec) in enumerate(zip(h['runs'], l['runs'])):
                if spec.get('cancel') or spec.get('interrupt') or spec.get('interrupt_line'):
                    continue
                err = self.alone(ctx, files, l, rid, r, spec, h)
                if err:
                    out.append(Violation('influence', 'search %d of %d (%s) is not what it is alone: %s'
                                         % (rid, len(l['runs']), l.get('compose', 'seq'), err)))
                    break
        return out

    def leftovers(self, h, rid, r, spec):
        out = []
        o = r['outcome']
        how = 'search %d (%s, %s)' % (rid, spec['entry'], outcome_str(o))
        if o is None:
            return [Violation('no-outcome', 'search %d did not end' % rid)]
        at = o['seq']
        for e in h['events'][at:]:
            if e[2] in ('call', 'ret', 'gcancel', 'gclean', 'exc') and e[3] == rid:
                out.append(Violation('evaluation-after-end', '%s: %.4g s after it ended: %s of evaluation %d'
                                     % (how, e[1] - o['time'], {'call': 'call', 'ret': 'return', 'gcancel': 'cancellation',
                                                               'gclean': 'clean-up', 'exc': 'failure'}[e[2]], e[4])))
                break
        for e in h['events'][at:]:
            if e[2] in ('result', 'queue') and e[3] == rid:
                out.append(Violation('result-after-end', '%s: its state changed after it ended' % how))
                break
        if o.get('left_tasks') and own_tasks(o['left_tasks']):
            out.append(Violation('task-left', '%s: still on its loop: %s' % (how, own_tasks(o['left_tasks']))))
        if own_tasks(o.get('dead_tasks', ())):
            out.append(Violation('task-left', '%s: unfinished on a closed loop: %s' % (how, own_tasks(o['dead_tasks']))))
        if o.get('open_loops'):
            out.append(Violation('loop-left', '%s: %d event loops it made are still open' % (how, o['open_loops'])))
        if o.get('threads'):
            out.append(Violation('thread-left', '%s: %d threads are still running' % (how, o['threads'])))
        if spec['search'].get('save', True):
            name = spec.get('save_name')
            for e in h['events'][at:]:
                if e[2] == 'fs' and e[5] == name:
                    out.append(Violation('save-after-end', '%s: file operation %s on its save file after it ended' % (how, e[4])))
                    break
            if o.get('file') != o.get('file_later'):
                out.append(Violation('save-after-end', '%s: its save file changed after it ended' % how))
        return out

    def alone(self, ctx, files, l, rid, r, spec, h):
        s = spec['search']
        faulty = bool(spec['gap'].get('faults'))
        if s['P'] > 1 and (s.get('fake') or faulty or s.get('initial_state')):
            return None
        solo = json.loads(json.dumps(l))
        solo['runs'] = [json.loads(json.dumps(spec))]
        solo['compose'] = 'seq'
        solo.pop('shared_loop', None)
        ctx.fresh(files)
        b = ctx.life(solo)
        if b['exit'] != 'ok':
            ctx.stats.inconclusive += 1
            return None
        ctx.stats.probe('searches compared with themselves alone')
        o, p = r['outcome'], b['runs'][0]['outcome']
        if o['kind'] != p['kind'] or o.get('exc') != p.get('exc'):
            names = [f['exc'] for f in spec['gap'].get('faults', ())]
            if s['P'] == 1 and len(names) > 1 and o.get('exc') in names and p.get('exc') in names:
                # the evaluations of a start simplex run together: either failure can be the first
                return None
            return 'it %s, alone it %s' % (outcome_str(o), outcome_str(p))
        if s['P'] == 1:
            if (o['state'] is None) != (p['state'] is None):
                return 'it has %s state' % ('no' if o['state'] is None else 'a')
            if o['state'] is not None:
                return compare_search(r['state'], b['runs'][0]['state'], 0., 'it', 'it alone', exact=True)
            return None
        by = {}
        for x in b['runs'][0]['state']['nodes'] + b['runs'][0]['state']['rejected']:
            if 'start' in x:
                by.setdefault(x['start'], strip(x))
        for x in r['state']['nodes'] + r['state']['rejected']:
            if 'start' in x and x['start'] in by and strip(x) != by[x['start']]:
                return 'minimising start simplex %s gives %r, alone it gives %s' % (fmt(x['start']), light(x), by[x['start']][:300])
        return None
