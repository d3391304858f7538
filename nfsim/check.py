"""Command line: python -m nfsim.check P01 [--tier quick|thorough] [--seed N] [--replay FILE]."""
import argparse
import json
import os
import pickle
import random
import sys
import time

from . import core, proc

VERIF = core.VERIF

QUICK_S = float(os.environ.get('NFSIM_SECONDS', 90))
THOROUGH_S = float(os.environ.get('NFSIM_SECONDS', 780))


def props():
    from . import props_disk
    out = {}
    mods = [props_disk]
    for name in ('props_search', 'props_entry', 'props_identify', 'props_io'):
        try:
            mods.append(__import__('nfsim.' + name, fromlist=['x']))
        except ImportError as exc:
            if 'nfsim.' + name not in str(exc):
                raise
    for m in mods:
        for k, v in vars(m).items():
            if isinstance(v, type) and getattr(v, 'id', None):
                out[v.id] = v()
    return out


def scenario(prop, seed, index, tier):
    rng = random.Random('%s/%d/%d' % (prop.id, seed, index))
    sc = prop.gen(rng, tier)
    sc['seed'] = seed
    sc['index'] = index
    return json.loads(json.dumps(sc))


def worker(prop, seed, tier, wid, nw, deadline, nmin, nmax, hard, out_path, stop_path, keep=False):
    import traceback
    proc.set_scratch(os.path.join(proc.scratch_base(), 'w%d' % wid))
    os.makedirs(proc.scratch_base(), exist_ok=True)
    st = core.Stats()
    i = wid
    while i < nmax:
        now = time.monotonic()
        if now > hard or (now > deadline and i >= nmin) or os.path.exists(stop_path):
            break
        sc = scenario(prop, seed, i, tier)
        try:
            t1 = time.monotonic()
            vs, _ = core.judge(prop, sc, st)
            st.scenarios += 1
            st.slow = sorted(st.slow + [(round(time.monotonic() - t1, 2), i)])[-3:]
            if len(st.samples) < 1:
                st.samples.append(sc)
            if vs:
                st.violations.append((i, [(v.kind, v.msg) for v in vs], sc))
                if not keep and not known_all(prop, vs, sc):
                    open(stop_path, 'w').close()
                    break
        except proc.TooSlow:
            st.inconclusive += 1
            st.probe('given up: too slow')
        except Exception:
            st.errors.append((i, traceback.format_exc(), sc))
            if len(st.errors) > 3:
                break
        i += nw
    with open(out_path + '.part', 'wb') as f:
        pickle.dump(st, f)
    os.rename(out_path + '.part', out_path)


KNOWN = None


def known_findings():
    global KNOWN
    if KNOWN is None:
        KNOWN = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            KNOWN = json.load(open(p)).get('findings', [])
    return KNOWN


def is_known(prop, v, sc):
    for k in known_findings():
        if k['property'] == prop.id and k['kind'] == v.kind and k.get('match', '') in v.msg:
            return k
    return None


def known_all(prop, vs, sc):
    return all(is_known(prop, v, sc) for v in vs)


def build_shim():
    """The library that turns the system calls of HDF5 into events; built once per version of its source."""
    import hashlib
    import subprocess
    src = os.path.join(VERIF, 'nfsim', 'shim.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha1(f.read()).hexdigest()[:12]
    so = os.path.join(VERIF, 'build', 'nfshim-%s.so' % tag)
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = '%s.%d' % (so, os.getpid())
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
        os.rename(tmp, so)
    return so


def env_check():
    want = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg'}
    if os.environ.get('NFSIM_ENV') == '1':
        return
    env = dict(os.environ, NFSIM_ENV='1', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR='/tmp', **want)
    if 'NFSIM_HASHSEED' in env:
        env['PYTHONHASHSEED'] = env['NFSIM_HASHSEED']
    env['NFSIM_SHIM'] = env['LD_PRELOAD'] = build_shim()
    repo = os.environ.get('NFSIM_REPO', '/repo')
    env['PYTHONPATH'] = repo + os.pathsep + VERIF
    py = '/opt/venv/bin/python'
    os.execve(py, [py, '-B', '-m', 'nfsim.check'] + sys.argv[1:], env)


def write_evidence(prop, tier, seed, st, wall, nviol, extra):
    rate = st.lives / max(wall, 1e-6) * 3600
    cov = {
        'evaluations': st.scenarios,
        'distinct_nontrivial': len(st.schedules),
        'rule': 'each case is one scenario (search, entry mode, gap service, clock, disk and fault plan) drawn from the seed; '
                'distinct_nontrivial counts distinct interleavings: different orders of evaluation calls, returns, results, '
                'file operations and faults over the simulated lives (simulated processes), ignoring times and positions',
        'samples': st.samples[:2] or ['none'],
        'simulated_lives': st.lives,
        'runs_per_hour': round(rate),
        'seeds_per_hour': round(st.scenarios / max(wall, 1e-6) * 3600),
        'simulated_seconds': round(st.sim_time, 1),
        'gap_evaluations': st.calls,
        'faults_fired': dict(sorted(st.faults.items())),
        'probes': dict(sorted(st.probes.items())),
        'scenarios_with_full_workload': st.nontrivial,
        'inconclusive_lives': st.inconclusive,
        'real_components': 'all of nodefinder as in /repo, fsc.async_tools, fsc.hdf5_io, h5py/HDF5, numpy, networkx, asyncio tasks and futures',
        'simulated_components': 'event loop clock and selector, time.*, gap evaluation service, file operations (seam at os.*, open, h5py.File), '
                                'process death, power loss, thread hand-over, random sources',
    }
    cov.update(extra)
    ev = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
        'assumptions': getattr(prop, 'assumptions', [
            'asyncio runs ready callbacks first-in first-out, as CPython does',
            'a crash stops the process between two Python-level operations or inside a write',
        ]),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop.id + '.json')
    with open(p + '.part', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + '.part', p)


def replay(path):
    r = json.load(open(path))
    prop = props()[r['property']]
    vs, dig = core.judge(prop, r['scenario'])
    for v in vs:
        print('%s: %s' % (v.kind, v.msg))
    print('digests: %s' % ' '.join(d[:12] for d in dig))
    same = any(v.kind == r['kind'] for v in vs)
    exact = [d[:12] for d in dig] == [d[:12] for d in r.get('digests', [])]
    print('reproduced: %s, event log identical: %s' % (same, exact))
    return 1 if same else 0


def main():
    env_check()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--max', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', type=int)
    ap.add_argument('--show', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--digests')
    a = ap.parse_args()
    try:
        if a.replay:
            sys.exit(replay(a.replay))
        import nodefinder
        prop = props()[a.prop]
        if a.only is not None:
            sc = scenario(prop, a.seed, a.only, a.tier)
            if a.show:
                print(json.dumps(sc, indent=1))
            t = time.monotonic()
            st = core.Stats()
            vs, dig = core.judge(prop, sc, st)
            for v in vs:
                print('%s: %s' % (v.kind, v.msg))
            print('%.2f s, %d lives, digests %s' % (time.monotonic() - t, st.lives, [d[:10] for d in dig]))
            print(st.faults, st.probes)
            sys.exit(1 if vs else 0)
        if a.digests:
            sys.exit(digests(prop, a))
        sys.exit(batch(prop, a))
    finally:
        proc.remove_scratch()


def digests(prop, a):
    """Event-log digests of a range of scenarios, for the determinism comparison."""
    lo, hi = map(int, a.digests.split('-'))
    for i in range(lo, hi):
        vs, dig = core.judge(prop, scenario(prop, a.seed, i, a.tier))
        print(prop.id, i, ' '.join(d[:16] for d in dig), [v.kind for v in vs])
    return 0


def batch(prop, a):
    t0 = time.monotonic()
    secs = a.seconds or (QUICK_S if a.tier == 'quick' else THOROUGH_S) * getattr(prop, 'weight', 1.)
    base = proc.scratch_base()
    nw = a.workers
    nmin = 40
    nmax = a.max or 10**9
    stop = os.path.join(base, 'stop')
    hard = t0 + max(2 * secs, secs + 240)
    pids = {}
    print('check %s tier=%s seed=%d seconds=%.0f workers=%d' % (prop.id, a.tier, a.seed, secs, nw), flush=True)
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                worker(prop, a.seed, a.tier, w, nw, t0 + secs, nmin, nmax, hard, os.path.join(base, 'out%d' % w),
                       stop, a.keep_going)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = w
    st = core.Stats()
    bad = []
    ended = {}
    kill_at = hard + 120
    while len(ended) < len(pids):
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid:
            ended[pid] = status
            continue
        time.sleep(0.05)
        if os.path.exists(stop) and kill_at > hard:
            kill_at = min(hard, time.monotonic() + 20)
        if time.monotonic() > kill_at:
            for p in pids:
                if p not in ended:
                    try:
                        os.killpg(p, 9)
                    except OSError:
                        pass
            kill_at = time.monotonic() + 1e9
    stopped_early = os.path.exists(stop)
    for pid in list(pids):
        status = ended[pid]
        w = pids[pid]
        p = os.path.join(base, 'out%d' % w)
        if status != 0 or not os.path.exists(p):
            if not (stopped_early and status == 9):
                bad.append('worker %d ended with status %d' % (w, status))
            continue
        with open(p, 'rb') as f:
            st.merge(pickle.load(f))
    search_wall = time.monotonic() - t0
    viol = []
    for i, vs, sc in sorted(st.violations, key=lambda x: x[0]):
        vs = [core.Violation(k, m) for k, m in vs]
        unknown = [v for v in vs if not is_known(prop, v, sc)]
        for v in vs:
            k = is_known(prop, v, sc)
            if k and not k.get('_printed'):
                k['_printed'] = True
                print('KNOWN-FINDING: property=%s %s' % (prop.id, k['what']))
        if unknown:
            viol.append((i, unknown, sc))
    if a.keep_going:
        for i, vs, sc in viol[:40]:
            print('scenario %d: %s' % (i, '; '.join(repr(v)[:300] for v in vs[:2])))
        kinds = {}
        for i, vs, sc in viol:
            for v in vs:
                kinds.setdefault(v.kind, []).append(i)
        for k, v in kinds.items():
            print('   %s: %d scenarios, e.g. %s' % (k, len(set(v)), sorted(set(v))[:8]))
    for i, e, sc in st.errors[:3]:
        print('HARNESS ERROR in scenario %d:\n%s' % (i, e))
    for b in bad:
        print('HARNESS ERROR: %s' % b)
    code = 0
    extra = {}
    if viol:
        i, vs, sc = viol[0]
        v = vs[0]
        best, tries = sc, 0
        print('scenario %d violates: %s' % (i, v), flush=True)
        if not a.keep_going:
            best, tries = core.shrink(prop, sc, v.kind, time.monotonic() + (60 if a.tier == 'quick' else 240))
        vs2, dig = core.judge(prop, best)
        msgs = [x for x in vs2 if x.kind == v.kind] or vs
        path = os.path.join(VERIF, 'evidence', 'replay-%s-%d-%d.json' % (prop.id, a.seed, i))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': prop.id, 'kind': v.kind, 'message': msgs[0].msg, 'seed': a.seed, 'index': i,
                       'scenario': best, 'original': sc, 'digests': dig, 'shrink_tries': tries,
                       'how': 'python -m nfsim.check --replay <this file>  (run in /verif)'}, f, indent=1)
        # confirm in a fresh process
        import subprocess
        env = dict(os.environ)
        env.pop('NFSIM_ENV', None)
        env.pop('LD_PRELOAD', None)
        try:
            r = subprocess.run(['/usr/bin/python3', '-m', 'nfsim.check', '--replay', path], cwd=VERIF, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            print(r.stdout.decode(errors='replace').strip())
            confirmed = r.returncode == 1
        except subprocess.TimeoutExpired:
            confirmed = None
        print('minimised in %d tries; %s: %s' % (tries, v.kind, msgs[0].msg))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        extra['replay_confirmed'] = confirmed
        code = 1
    elif st.errors or bad or st.scenarios == 0:
        code = 2
    wall = time.monotonic() - t0
    extra['harness_errors'] = len(st.errors) + len(bad)
    extra['search_wall_s'] = round(search_wall, 2)
    write_evidence(prop, a.tier, a.seed, st, search_wall, len(viol), extra)
    print('%s: %d scenarios, %d lives, %d interleavings, %.0f simulated s, %.1f s; inconclusive %d; violations %d; errors %d' % (
        prop.id, st.scenarios, st.lives, len(st.schedules), st.sim_time, wall, st.inconclusive, len(viol), len(st.errors)))
    print('faults: %s' % dict(sorted(st.faults.items())))
    print('probes: %s' % dict(sorted(st.probes.items())))
    print('slowest: %s' % sorted(st.slow)[-5:])
    return code


if __name__ == '__main__':
    main()
