"""P01, P02, P05, P06, P18: the save file under crashes, power loss, failing disks."""
import random

from . import gen, proc
from .core import Violation
from .hist import (counts_around, counts_of, counts_timeline, events, outcome_str, snapshot_error)


def small_search(rng, **kw):
    """A search cheap enough that most of the run is saving."""
    s = gen.search(rng, **kw)
    if s['landscape']['kind'] in ('plane', 'circle', 'flat') and rng.random() < 0.7:
        s = gen.search(rng, kind='points', **kw)
    return s


def unloadable(h, versions):
    """Inspector results for the versions that hold data."""
    blobs = [v[2] for v in versions]
    return proc.inspect([b for b in blobs if b is not None])


def check_versions(h, pre, rid=0, final=None, label=''):
    """Every content the save file ever had is the earlier content or a complete snapshot,
    and never goes back."""
    out = []
    versions = h['versions']
    tl = counts_timeline(h, rid)
    final = final or h['runs'][rid]['state']
    idx = [i for i, v in enumerate(versions) if v[2] is not None]
    ins = dict(zip(idx, unloadable(h, versions)))
    last = None
    seen_new = False
    for i, (op, kind, data, at) in enumerate(versions):
        if i == 0 and data == pre:
            continue
        if data == pre and not seen_new:
            continue
        where = '%sat file operation %d (%s)' % (label, op, kind)
        if data is None:
            out.append(Violation('missing', '%s the save file is gone' % where))
            continue
        seen_new = True
        ok, d = ins[i]
        if not ok:
            out.append(Violation('damaged', '%s the save file holds %d bytes that do not load: %s' % (where, len(data), d)))
            continue
        if 'nodes' not in d:
            out.append(Violation('damaged', '%s the save file holds a %s' % (where, d)))
            continue
        if final is None:
            out.append(Violation('early', '%s a file was written before the search had a state' % where))
            continue
        lo, hi = counts_around(tl, at)
        err = snapshot_error(d, final, lo, hi)
        if err:
            out.append(Violation('incomplete', '%s the save file %s' % (where, err)))
        c = counts_of(d)
        if last is not None and any(x < y for x, y in zip(c, last)):
            out.append(Violation('older', '%s the save file went back from %s to %s' % (where, last, c)))
        last = c
    return out


def check_resume(pre_file, h, ctx, what='resume'):
    """The life h was started with load=True: it must have taken over the file."""
    out = []
    init = (h.get('initial') or {}).get(0)
    o = h['runs'][0]['outcome']
    if init is None:
        if o is not None and o['kind'] == 'raise':
            out.append(Violation('resume-fails', '%s: the save file was not accepted: %s' % (what, outcome_str(o))))
        return out
    ok, d = proc.inspect([pre_file])[0]
    if ok and counts_of(d) != counts_of(init):
        out.append(Violation('resume-loses', '%s: starts with %s (nodes, rejected, refined), the save file holds %s'
                             % (what, counts_of(init), counts_of(d))))
    return out


class P01:
    id = 'P01'
    title = 'crash at any instant'

    def gen(self, rng, tier):
        s = small_search(rng)
        g = gen.gap(rng)
        s['save_delay'] = gen.save_delay(rng, g, s['P'], 10)
        sc = {'prop': 'P01', 'pre': rng.choice(['none', 'none', 'garbage', 'empty', 'older']), 'lives': []}
        n = rng.choice([1, 2, 2, 3])
        for i in range(n):
            s2 = dict(s)
            if i:
                s2['load'] = True
                s2['load_quiet'] = rng.random() < 0.3
            elif sc['pre'] in ('garbage', 'empty') and rng.random() < 0.5:
                s2['load'] = True
                s2['load_quiet'] = True
            l = gen.life(rng, [gen.run(rng, s2, g if rng.random() < 0.7 else None)], index=i)
            l['runs'][0]['search']['save_delay'] = gen.save_delay(rng, l['runs'][0]['gap'], s['P'], 10)
            how = rng.random()
            if i < n - 1 or how < 0.75:
                r = rng.random()
                if r < 0.6:
                    op = rng.choice(['any', 'any', 'rename', 'open', 'write', 'unlink', 'fsync'])
                    l['crash'] = {'at': 'op', 'op': op, 'phase': rng.choice(['before', 'mid', 'after']) if op in ('any', 'write')
                                  else rng.choice(['before', 'after']),
                                  'n': rng.choice([1, 1, 2, 3, rng.randint(1, 8)]) if op not in ('any', 'write')
                                  else rng.choice([rng.randint(1, 6), rng.randint(1, 15), rng.randint(1, 40), rng.randint(1, 400)])}
                elif r < 0.75:
                    l['crash'] = {'at': 'gap', 'n': rng.randint(1, 400)}
                elif r < 0.82:
                    l['crash'] = {'at': 'iter', 'n': rng.randint(1, 1000)}
                elif r < 0.88:
                    l['runs'][0]['entry'] = 'sync'
                    l['runs'][0]['interrupt_line'] = round(10**rng.uniform(0.5, rng.choice([3., 4.5, 5.])))
                else:
                    l['disk'] = {'faults': [{'op': rng.choice(['any', 'any', 'rename', 'open', 'fsync', 'unlink']),
                                             'nth': rng.choice([rng.randint(1, 6), rng.randint(1, 20), rng.randint(1, 200)]),
                                             'count': 1, 'errno': 'KI'}]}
                    if l['disk']['faults'][0]['op'] != 'any':
                        l['disk']['faults'][0]['nth'] = rng.randint(1, 6)
            sc['lives'].append(l)
        return sc

    def run(self, sc, ctx):
        out = []
        files = {}
        if sc['pre'] == 'garbage':
            files['save.hdf5'] = b'not an HDF5 file, but somebody wants it\n' * 20
        elif sc['pre'] == 'empty':
            files['save.hdf5'] = b''
        ctx.fresh(files)
        if sc['pre'] == 'older':
            # a snapshot of some other, earlier search
            l0 = dict(sc['lives'][0], crash=None, disk=None)
            l0['runs'] = [dict(l0['runs'][0], search=dict(l0['runs'][0]['search'], mesh=1, load=False), entry='async',
                               gap={'mode': 'async0'})]
            ctx.life(l0)
        crashed_in_save = False
        for i, l in enumerate(sc['lives']):
            pre = ctx.files().get('save.hdf5')
            h = ctx.life(l)
            out += check_versions(h, pre, label='life %d, ' % i)
            if h['exit'] == 'crash':
                ctx.stats.probe('crash while a snapshot file is open',
                                int(len(ctx.files()) > 1))
            elif h['exit'] in ('hang', 'deadlock', 'livelock'):
                ctx.stats.inconclusive += 1
            s = l['runs'][0]['search']
            if s.get('load') and pre is not None and not l.get('disk') and 'interrupt_line' not in l['runs'][0]:
                loadable = proc.inspect([pre])[0][0]
                if loadable:
                    ctx.stats.probe('resumed from a crashed life')
                    out += check_resume(pre, h, ctx, 'life %d' % i)
            ctx.stats.probe('snapshots seen', len(h['versions']) - 1)
            if out:
                break
        ctx.stats.nontrivial += 1
        return out


def coverage_dist(limits, periodic, a, b):
    s = 0.
    for (lo, hi), x, y in zip(limits, a, b):
        d = abs(x - y)
        if periodic:
            L = abs(hi - lo)
            d = d % L
            d = min(d, L - d)
        s += d * d
    return s**0.5


def file_vs_state(d, state):
    """Does the loaded file `d` hold everything of the in-memory state?  None or what differs."""
    if counts_of(d) != counts_of(state):
        return 'holds %s (nodes, rejected, refined) of %s recorded' % (counts_of(d), counts_of(state))
    err = snapshot_error(d, state)
    if err:
        return err
    if sorted(d['simplices']) != sorted(state['simplices']):
        return 'lists %d start simplices to be done instead of %d' % (len(d['simplices']), len(state['simplices']))
    have = set(d['positions'])
    if not set(state['positions']) <= have:
        return 'lacks positions to be refined'
    for p in have - set(state['positions']):
        # a discarded position need not be written again, but only if it is covered
        if not any(coverage_dist(state['limits'], state['periodic'], p, q) <= state['dist_cutoff'] * (1 + 1e-9)
                   for q in state['refined']):
            return 'lists position %r as to be refined, which is neither queued nor near a refined one' % (p, )
    return None


def load_versions(h):
    versions = h['versions']
    idx = [i for i, v in enumerate(versions) if v[2] is not None]
    return dict(zip(idx, unloadable(h, versions)))


def freshness(h, save_delay, rid=0, faulty=False):
    """Results must reach the file within save_delay (plus the event-loop step in progress)."""
    tl = counts_timeline(h, rid)
    ins = load_versions(h)
    vers = []
    for i, (op, kind, data, at) in enumerate(h['versions']):
        if i in ins and ins[i][0] and 'nodes' in ins[i][1] and i > 0:
            e = h['events'][at]
            vers.append((e[0], e[1], counts_of(ins[i][1])))
    # a save of what is in the file already, as after a search which could not read it, makes no new version
    at_op = {e[3]: i for i, e in enumerate(h['events']) if e[2] == 'ver'}
    now = None
    by_at = {at: i for i, (op, kind, data, at) in enumerate(h['versions'])}
    for k, e in enumerate(h['events']):
        if k in by_at:
            i = by_at[k]
            now = counts_of(ins[i][1]) if i in ins and ins[i][0] and 'nodes' in ins[i][1] else None
        elif e[2] == 'fs' and e[4] == 'rename' and e[6] == 'ok' and e[3] not in at_op and now is not None:
            vers.append((e[0], e[1], now))
    vers.sort()
    faults = [(e[0], e[1]) for e in h['events'] if e[2] == 'fs' and isinstance(e[6], str) and e[6] not in ('ok', 'SHORT')] if faulty else []
    times = h['iter_times']
    ends = [e for e in h['events'] if e[2] == 'end' and e[3] == rid]
    last_iter = ends[0][0] if ends else h['iters']
    # from here on the search is ending, the final save is due instead
    for e in h['events']:
        if e[2] in ('exc', 'cancel_request', 'interrupt') and e[3] == rid:
            last_iter = min(last_iter, e[0])
            break
    out = []
    import bisect
    for _, it, t, c in tl[1:]:
        cover = next((v for v in vers if all(x >= y for x, y in zip(v[2], c))), None)
        def first_iter(when):
            # first iteration that starts at or after `when`; iterations are numbered from 1
            k = bisect.bisect_left(times, when - 1e-9)
            return k + 1 + 2 if k < len(times) else 10**9
        allowed = first_iter(t + save_delay)
        # a failing attempt allows another delay
        for fi, ft in faults:
            if it <= fi <= allowed and (cover is None or fi <= cover[0]):
                allowed = max(allowed, first_iter(ft + save_delay))
        if allowed >= last_iter:
            continue
        if cover is None or cover[0] > allowed:
            out.append(Violation('stale', 'results %s recorded at t=%.6g (iteration %d) should be in the file by iteration %d, '
                                 'but %s' % (c, t - 1000, it, allowed,
                                             'never were' if cover is None else 'came at t=%.6g (iteration %d)' % (cover[1] - 1000, cover[0]))))
            break
    return out, len(tl) - 1


class P02:
    id = 'P02'

    def gen(self, rng, tier):
        s = small_search(rng)
        if rng.random() < 0.5:
            s['mesh'] = 1
        g = gen.gap(rng)
        sc = {'prop': 'P02', 'lives': []}
        n = rng.choice([1, 2, 2, 3])
        for i in range(n):
            s2 = dict(s)
            s2['save_delay'] = gen.save_delay(rng, g, s['P'], 6)
            if i:
                s2['load'] = True
                s2['load_quiet'] = rng.random() < 0.5
            l = gen.life(rng, [gen.run(rng, s2, g)], index=i)
            l['disk'] = {'power_watch': True, 'power_seed': rng.randrange(1 << 30)}
            if i < n - 1 or rng.random() < 0.5:
                op = rng.choice(['rename', 'rename', 'any', 'unlink', 'open', 'fsync', 'fsync'])
                l['crash'] = {'at': 'op', 'op': op, 'phase': rng.choice(['before', 'after']),
                              'n': rng.randint(1, 5) if op != 'any' else rng.choice([rng.randint(1, 10), rng.randint(1, 30), rng.randint(1, 400)])}
                if rng.random() < 0.2:
                    l['crash'] = {'at': 'gap', 'n': rng.randint(1, 300)}
                l['crash']['power'] = rng.randrange(1 << 30)
            sc['lives'].append(l)
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        out = []
        for i, l in enumerate(sc['lives']):
            pre = ctx.files().get('save.hdf5')
            h = ctx.life(l)
            final = h['runs'][0]['state']
            images = h['images']
            ctx.stats.probe('power-loss images of the save file', len(images))
            todo = [im for im in images if im[2] is not None and im[2] != pre]
            todo.sort(key=lambda im: im[1].endswith('blocks'))
            ins = []
            for k in range(0, len(todo), 25):
                ins += proc.inspect([im[2] for im in todo[k:k + 25]])
                if not all(ok for ok, _ in ins):
                    break
            for op, desc, data in images:
                if data is None and pre is not None:
                    out.append(Violation('power-missing', 'life %d: power loss at file operation %d (%s) leaves no save file although there was one'
                                         % (i, op, desc)))
                    break
            for (op, desc, data), (ok, d) in zip(todo, ins):
                if not ok:
                    out.append(Violation('power-torn', 'life %d: power loss at file operation %d (%s) leaves %d bytes that do not load: %s'
                                         % (i, op, desc, len(data), d)))
                    break
                err = snapshot_error(d, final) if final else 'exists before any state'
                if err:
                    out.append(Violation('power-mixed', 'life %d: power loss at file operation %d (%s) leaves a file that %s'
                                         % (i, op, desc, err)))
                    break
            post = ctx.files().get('save.hdf5')
            if h['exit'] == 'crash' and l.get('crash', {}).get('power') is not None:
                if post is None and pre is not None:
                    out.append(Violation('power-missing', 'life %d: the save file is gone after the power loss (%s)' % (i, h['why'])))
                elif post is not None and post != pre:
                    ok, d = proc.inspect([post])[0]
                    err = d if not ok else snapshot_error(d, final)
                    if err:
                        out.append(Violation('power-torn' if not ok else 'power-mixed',
                                             'life %d: the save file is damaged after the power loss (%s): %s' % (i, h['why'], err)))
            if out:
                break
        ctx.stats.nontrivial += 1
        return out


EXITS = ['ValueError', 'RuntimeError', 'Injected', 'InjectedBase', 'KeyboardInterrupt', 'KeyboardInterrupt', 'CancelledError',
         'SystemExit', 'OSError', 'TimeoutError', 'MemoryError']


class P05:
    id = 'P05'

    def gen(self, rng, tier):
        s = small_search(rng)
        g = gen.gap(rng)
        s['save_delay'] = gen.save_delay(rng, g, s['P'], 12)
        if rng.random() < 0.1:
            s['save_delay'] = 1e6
        l = gen.life(rng, [gen.run(rng, s, g)], index=0)
        how = rng.choice(['return', 'exc', 'exc', 'cancel', 'crash', 'interrupt'])
        n = rng.choice([rng.randint(1, 20), rng.randint(1, 300), rng.randint(1, 300)])
        r = l['runs'][0]
        if how == 'exc':
            g['faults'] = [{'at': rng.choice(['call', 'ret']), 'n': n, 'exc': rng.choice(EXITS)}]
        elif how == 'cancel':
            r['entry'] = 'async'
            r['cancel'] = {'gap': [n]} if rng.random() < 0.6 else {'iter': [rng.randint(2, 800)]}
            if 'iter' in r['cancel'] and rng.random() < 0.5:
                r['cancel']['iter'].append(r['cancel']['iter'][0] + rng.randint(0, 6))
            if g['mode'] not in ('sync', 'async0') and rng.random() < 0.3:
                g['cleanup'] = rng.choice([0.01, 5.])
        elif how == 'interrupt':
            r['entry'] = rng.choice(['sync', 'sync_in_loop'])
            r['interrupt'] = rng.choice([rng.randint(1, 30), rng.randint(1, 500)])
        elif how == 'crash':
            l['crash'] = rng.choice([{'at': 'gap', 'n': n}, {'at': 'iter', 'n': rng.randint(2, 800)}])
        sc = {'prop': 'P05', 'lives': [l], 'how': how}
        if rng.random() < 0.2:
            # resumed search: the file is already there and must be kept fresh as well
            l0 = gen.life(rng, [gen.run(rng, dict(s), gen.gap(rng))], index=1)
            l0['crash'] = {'at': 'gap', 'n': rng.randint(1, 200)}
            s['load'] = True
            sc['lives'].insert(0, l0)
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        out = []
        for i, l in enumerate(sc['lives']):
            h = ctx.life(l)
            s = l['runs'][0]['search']
            v, n = freshness(h, s['save_delay'])
            ctx.stats.probe('freshness deadlines checked', n)
            out += v
            o = h['runs'][0]['outcome']
            st = h['runs'][0]['state']
            if h['exit'] == 'ok' and o and st:
                what = o['kind'] if o['kind'] == 'return' else o['exc']
                ctx.stats.probe('end by ' + what)
                data = ctx.files().get('save.hdf5')
                if data is None:
                    out.append(Violation('final-missing', 'the search %s, but there is no save file' % outcome_str(o)))
                else:
                    ok, d = proc.inspect([data])[0]
                    err = d if not ok else file_vs_state(d, st)
                    if err:
                        out.append(Violation('final-stale', 'the search %s, but the save file %s' % (outcome_str(o), err)))
            elif h['exit'] in ('deadlock', 'livelock', 'spin'):
                ctx.stats.inconclusive += 1
        ctx.stats.nontrivial += 1
        return out


class P06:
    id = 'P06'

    def gen(self, rng, tier):
        s = small_search(rng)
        g = gen.gap(rng)
        s['save_delay'] = gen.save_delay(rng, g, s['P'], 10)
        l = gen.life(rng, [gen.run(rng, s, g)], index=0)
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = rng.choice(['open', 'write', 'write', 'rename', 'rename', 'fsync', 'any', 'read', 'alloc'])
            nth = {'alloc': rng.choice([rng.randint(1, 60), rng.randint(1, 400), rng.randint(1, 2000)]), 'open': rng.randint(1, 10), 'rename': rng.randint(1, 6), 'fsync': rng.randint(1, 6)}.get(
                op, rng.choice([rng.randint(1, 4), rng.randint(1, 10), rng.randint(1, 60), rng.randint(1, 400)]))
            faults.append({'op': op, 'nth': nth, 'count': rng.choice([1, 1, 2, 5, 1000000]),
                           'errno': rng.choice(['EIO', 'ENOSPC', 'EROFS', 'EACCES', 'EDQUOT', 'EMFILE'] + ['SHORT'] * (op == 'write'))})
            if op == 'alloc':
                faults[-1]['errno'] = rng.choice(['NOMEM', 'NOMEM', 'RT'])
        l['disk'] = {'faults': faults}
        sc = {'prop': 'P06', 'lives': [l], 'pre': rng.choice(['none', 'none', 'resume'])}
        return sc

    def run(self, sc, ctx):
        ctx.fresh()
        out = []
        l = sc['lives'][0]
        s = l['runs'][0]['search']
        pre = None
        if sc['pre'] == 'resume':
            l0 = dict(l, disk=None, crash={'at': 'gap', 'n': 60})
            ctx.life(l0)
            pre = ctx.files().get('save.hdf5')
            s['load'] = pre is not None
            s['load_quiet'] = True
            for n in ctx.files():
                if n != 'save.hdf5':
                    import os
                    os.unlink(os.path.join(ctx.root, n))
        h = ctx.life(l)
        out += check_versions(h, pre)
        o = h['runs'][0]['outcome']
        st = h['runs'][0]['state']
        fired = [(k, e) for k, e in enumerate(h['events']) if e[2] == 'fs' and isinstance(e[6], str) and e[6] not in ('ok', 'SHORT')]
        if not fired:
            ctx.stats.probe('no fault fired')
        if h['exit'] == 'ok' and o is not None and st is not None:
            files = ctx.files()
            left = [n for n in files if n != 'save.hdf5']
            if left:
                out.append(Violation('temp-left', 'temporary files stay behind: %s' % left[:3]))
            data = files.get('save.hdf5')
            ok, d = proc.inspect([data])[0] if data is not None else (False, 'is missing')
            diff = d if not ok else file_vs_state(d, st)
            done = not st['simplices'] and not st['positions']
            if o['kind'] == 'return':
                ctx.stats.probe('returned after failing saves', int(bool(fired)))
                if diff:
                    out.append(Violation('silent', 'the search returned although its final state was not saved: the file %s' % diff))
            else:
                ctx.stats.probe('raised the save error')
                tl = counts_timeline(h, 0)
                last_result = tl[-1][0]
                state_at = tl[0][0]
                if not fired:
                    out.append(Violation('raised', 'the search %s although no operation failed' % outcome_str(o)))
                elif not done:
                    out.append(Violation('aborted', 'a failing save ended the search with %d start simplices and %d positions to be done: %s'
                                         % (len(st['simplices']), len(st['positions']), outcome_str(o))))
                elif 'injected' not in o['msg'] and not any(c in o['mro'] for c in ('OSError', 'RuntimeError')):
                    out.append(Violation('other-error', 'a failing save surfaced as %s' % outcome_str(o)))
                elif not diff and any(e[2] == 'ver' for e in h['events'][fired[-1][0] + 1:]):
                    out.append(Violation('raised', 'the search %s although the file holds the final state' % outcome_str(o)))
                elif fired[-1][0] < last_result:
                    out.append(Violation('gave-up', 'the disk worked when the last result was recorded, but the search %s' % outcome_str(o)))
            v, n = freshness(h, s['save_delay'], faulty=True)
            if v and h['exit'] == 'ok':
                # only if the disk works again for good
                heavy = any(f['count'] > 1000 for f in l['disk']['faults'])
                if not heavy:
                    out.append(Violation('not-retried', v[0].msg))
        elif h['exit'] in ('deadlock', 'livelock', 'spin'):
            out.append(Violation('hang', 'after failing saves: %s' % h['why']))
        if fired:
            ctx.stats.nontrivial += 1
        return out


class P18:
    id = 'P18'

    def gen(self, rng, tier):
        s = small_search(rng)
        if rng.random() < 0.5:
            s['P'] = 1
        g = gen.gap(rng)
        s['save_delay'] = gen.save_delay(rng, g, s['P'], 4)
        mk = gen.life(rng, [gen.run(rng, dict(s), gen.gap(rng))], index=0)
        if rng.random() < 0.7:
            mk['crash'] = {'at': 'gap', 'n': rng.randint(20, 400)}
        s2 = dict(s, load=True, load_quiet=rng.random() < 0.6)
        l = gen.life(rng, [gen.run(rng, s2, g)], index=1)
        kind = rng.choice(['missing', 'empty', 'garbage', 'trunc', 'trunc', 'trunc', 'header', 'zeros', 'flip', 'flip', 'other',
                           'dir', 'eio', 'eio', 'eio', 'ropen', 'tail', 'intact'])
        dmg = {'kind': kind, 'u': rng.random(), 'v': rng.random(), 'n': rng.randint(1, 8), 'seed': rng.randrange(1 << 30)}
        if kind == 'eio':
            l['disk'] = {'faults': [{'op': 'read', 'nth': 0, 'count': rng.choice([1, 1, 2, 1000000]), 'errno': rng.choice(['EIO', 'EIO', 'ESTALE', 'ENOMEM'])}]}
        if kind == 'ropen':
            l['disk'] = {'faults': [{'op': 'ropen', 'nth': 1, 'count': 1, 'errno': rng.choice(['EACCES', 'EIO', 'EMFILE', 'ELOOP'])}]}
        if rng.random() < 0.35:
            # one snapshot, many ways to fail; only the start of each search matters
            dmg = {'kind': 'sweep', 'what': rng.choice(['eio', 'eio', 'trunc', 'flip']), 'points': sorted(rng.random() for _ in range(24)),
                   'from': rng.random(), 'dense': rng.random() < 0.5, 'count': rng.choice([1, 1, 2, 1000000]), 'seed': rng.randrange(1 << 30)}
            if dmg['what'] == 'flip':
                dmg['points'] = dmg['points'][::3]
            l.pop('disk', None)
            l['runs'][0]['entry'] = 'async'
            l['crash'] = {'at': 'gap', 'n': 1}
        return {'prop': 'P18', 'make': mk, 'damage': dmg, 'lives': [l]}

    @staticmethod
    def damage(data, d):
        k = d['kind']
        rng = random.Random(d['seed'])
        if k == 'empty':
            return b''
        if k == 'garbage':
            return bytes(rng.getrandbits(8) for _ in range(2000))
        if k == 'trunc':
            return data[:int(len(data) * d['u'])]
        if k == 'tail':
            return data[:max(0, len(data) - d['n'])]
        if k == 'header':
            b = bytearray(data)
            for _ in range(d['n']):
                b[rng.randrange(min(96, len(b)))] ^= 1 << rng.randrange(8)
            return bytes(b)
        if k == 'zeros':
            b = bytearray(data)
            p = int(len(b) * d['u'])
            n = 512 * d['n']
            b[p:p + n] = b'\0' * len(b[p:p + n])
            return bytes(b)
        if k == 'flip':
            b = bytearray(data)
            for _ in range(d['n'] * 20):
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            return bytes(b)
        return data

    def run(self, sc, ctx):
        import os
        ctx.fresh()
        out = []
        ctx.life(sc['make'])
        files = ctx.files()
        data = files.get('save.hdf5')
        if data is None:
            return out
        dmg = sc['damage']
        k = dmg['kind']
        l = sc['lives'][0]
        s = l['runs'][0]['search']
        ok0, d0 = proc.inspect([data])[0]
        if not ok0:
            return out
        if k == 'sweep':
            return self.sweep(sc, ctx, data, d0)
        new = self.damage(data, dmg)
        ctx.fresh({} if k in ('missing', 'dir') else {'save.hdf5': new})
        if k == 'other':
            p = os.path.join(ctx.root, 'save.hdf5')

            def mk():
                import nodefinder as nf
                import h5py
                os.unlink(p)
                if dmg['n'] % 2 == 0:
                    h5py.File(p, 'w').close()
                else:
                    with h5py.File(p, 'w') as f:
                        f['type_tag'] = 'nobody.expects'
            proc.call_in_child(mk)
            new = ctx.files()['save.hdf5']
        if k == 'dir':
            os.mkdir(os.path.join(ctx.root, 'save.hdf5'))
            s['load_quiet'] = False
        ok, d = (False, 'missing') if k in ('missing', 'dir') else proc.inspect([new])[0]
        if not ok and 'hangs or dies' in d:
            ctx.stats.probe('damage that kills any reader')
            return out
        readable = ok and 'nodes' in d
        if k == 'other':
            readable = False
        if readable and new != data and k not in ('eio', 'ropen'):
            same = repr(d) == repr(d0)
            if not same:
                # damage in the numbers themselves, invisible to any reader
                ctx.stats.probe('damage no reader can see')
                return out
        if k == 'eio':
            l['disk']['faults'][0]['nth'] = 1 + int(dmg['u'] * self.reads(ctx, l))
        h = ctx.life(l)
        fired = sum(h.get('disk_counts', {}).values())
        if k in ('eio', 'ropen'):
            first_state = next((i for i, e in enumerate(h['events']) if e[2] == 'state'), len(h['events']))
            hit = [i for i, e in enumerate(h['events']) if e[2] == 'fs' and isinstance(e[6], str) and e[6] not in ('ok', 'SHORT')]
            if not hit or hit[0] > first_state and h['runs'][0]['state'] is not None and self.took(h, d0):
                ctx.stats.probe('fault missed the load')
                return out
            readable = None
        o = h['runs'][0]['outcome']
        init = (h.get('initial') or {}).get(0)
        post = ctx.files().get('save.hdf5')
        quiet = s['load_quiet']
        ctx.stats.probe('%s, load_quiet=%s, readable=%s' % (k, quiet, readable))
        calls = h['runs'][0]['ncalls']
        fresh = init is not None and counts_of(init) == (0, 0, 0)
        took = init is not None and self.took(h, d0)
        if readable:
            if not took:
                out.append(Violation('ignored', 'a readable save file was not taken over (%s)' % outcome_str(o)))
            return out
        if not quiet:
            if readable is None and took and o and o['kind'] == 'return':
                # the read error went unnoticed, but everything was read
                return out
            if o is None or o['kind'] != 'raise':
                out.append(Violation('accepted', 'load=True, load_quiet=False with an unreadable file (%s): the search %s, starting from %s'
                                     % (k, outcome_str(o), init and counts_of(init))))
            elif calls:
                out.append(Violation('late', 'load=True, load_quiet=False with an unreadable file (%s): %d evaluations before the error' % (k, calls)))
            elif k != 'dir' and post != (None if k == 'missing' else new):
                out.append(Violation('touched', 'load=True, load_quiet=False with an unreadable file (%s): the file was changed' % k))
        else:
            if took and not fresh:
                if readable is None:
                    return out
            if init is None or o is None or o['kind'] != 'return':
                if h['exit'] in ('budget', ) or fired and readable is None and o and o['kind'] == 'raise' and self.late_fault(h):
                    ctx.stats.inconclusive += 1
                    return out
                out.append(Violation('not-quiet', 'load_quiet=True with an unreadable file (%s): the search %s (%s)'
                                     % (k, outcome_str(o), h['exit'])))
            elif not fresh:
                out.append(Violation('half-used', 'load_quiet=True with an unreadable file (%s): the search continued from %s, the file held %s'
                                     % (k, counts_of(init), counts_of(d0))))
            else:
                import json
                l2 = json.loads(json.dumps(l))
                l2['runs'][0]['search']['load'] = False
                l2.pop('disk', None)
                ctx.fresh()
                h2 = ctx.life(l2)
                i2 = (h2.get('initial') or {}).get(0)
                if i2 and sorted(i2['simplices']) != sorted(init['simplices']) or i2['positions'] != init['positions']:
                    out.append(Violation('half-used', 'load_quiet=True with an unreadable file (%s): the starting work differs from a fresh search' % k))
                ok, d = proc.inspect([post])[0] if post is not None else (False, 'is missing')
                diff = d if not ok else file_vs_state(d, h['runs'][0]['state'])
                if diff and not self.late_fault(h):
                    out.append(Violation('no-snapshot', 'load_quiet=True with an unreadable file (%s): afterwards the save file %s' % (k, diff)))
        ctx.stats.nontrivial += 1
        return out

    def sweep(self, sc, ctx, data, d0):
        """Damage the same file in many ways, and look what each search starts from."""
        out = []
        dmg = sc['damage']
        l = sc['lives'][0]
        quiet = l['runs'][0]['search']['load_quiet']
        l0 = dict(l, runs=[dict(l['runs'][0], search=dict(l['runs'][0]['search'], load=False))])
        ctx.fresh()
        fresh = (ctx.life(l0).get('initial') or {}).get(0)
        if fresh is None:
            return out
        cases = []
        if dmg['what'] == 'eio':
            ctx.fresh({'save.hdf5': data})
            n = self.reads(ctx, l)
            a = 1 + int(dmg['from'] * n)
            nths = [a + i for i in range(len(dmg['points']))] if dmg['dense'] else sorted({1 + int(u * n) for u in dmg['points']})
            for nth in nths:
                cases.append(('its read no. %d failing' % nth, data, dict(l, disk={'faults': [
                    {'op': 'read', 'nth': nth, 'count': dmg['count'], 'errno': 'EIO'}]})))
        else:
            for i, u in enumerate(dmg['points']):
                if dmg['what'] == 'trunc':
                    n = int(u * len(data))
                    new, name = data[:n], 'truncated to %d of %d bytes' % (n, len(data))
                else:
                    new, name = self.damage(data, {'kind': 'flip', 'n': 1 + i % 8, 'seed': dmg['seed'] + i}), 'damaged'
                cases.append((name, new, l))
        seen = {c[1]: None for c in cases}
        for blob, got in zip(seen, proc.inspect(list(seen))):
            seen[blob] = got
        for name, new, l2 in cases:
            ok, d = seen[new]
            if not ok and 'hangs or dies' in d or ok and repr(d) != repr(d0):
                ctx.stats.probe('damage no reader can see')
                continue
            ctx.fresh({'save.hdf5': new})
            h = ctx.life(l2)
            o = h['runs'][0]['outcome']
            init = (h.get('initial') or {}).get(0)
            is_fresh = init is not None and counts_of(init) == (0, 0, 0) and sorted(init['simplices']) == sorted(fresh['simplices']) \
                and not init['positions']
            took = self.took(h, d0)
            ctx.stats.probe('sweep %s, load_quiet=%s: %s' % (dmg['what'], quiet, 'taken' if took else 'fresh' if is_fresh else 'raised'))
            if took and ok:
                continue
            if quiet and not is_fresh:
                kind, what = ('not-quiet', 'the search %s (%s)' % (outcome_str(o), h['exit'])) if init is None else (
                    'half-used', 'the search continued from %s, the file held %s' % (counts_of(init), counts_of(d0)))
            elif not quiet and init is not None:
                kind, what = 'accepted', 'the search started from %s, the file held %s' % (counts_of(init), counts_of(d0))
            elif not quiet and (o is None or o['kind'] != 'raise'):
                kind, what = 'accepted', 'the search %s (%s)' % (outcome_str(o), h['exit'])
            elif not quiet and ctx.files().get('save.hdf5') != new:
                kind, what = 'touched', 'the file was changed'
            else:
                continue
            out.append(Violation(kind, 'load_quiet=%s with a save file %s: %s' % (quiet, name, what)))
        ctx.stats.nontrivial += 1
        return out

    @staticmethod
    def took(h, d0):
        init = (h.get('initial') or {}).get(0)
        return init is not None and counts_of(init) == counts_of(d0) and sorted(init['simplices']) == sorted(d0['simplices']) \
            and sorted(init['positions']) == sorted(d0['positions'])

    @staticmethod
    def late_fault(h):
        """A fault fired after the state was made: it hit a save, not the load."""
        first_state = next((i for i, e in enumerate(h['events']) if e[2] == 'state' and tuple(e[4]) == (0, 0, 0)), len(h['events']))
        return any(e[2] == 'fs' and isinstance(e[6], str) and e[6] not in ('ok', 'SHORT') for e in h['events'][first_state:])

    @staticmethod
    def reads(ctx, l):
        """How many reads loading takes (a throw-away life that ends at the first evaluation)."""
        l2 = dict(l, crash={'at': 'gap', 'n': 1}, disk=None)
        l2['runs'] = [dict(l['runs'][0], entry='async')]
        files = ctx.files()
        h = ctx.life(l2)
        n = h.get('op_kinds', {}).get('read', 1)
        ctx.fresh(files)
        # the load comes first; saves may add some reads
        return max(1, n)
