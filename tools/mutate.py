"""Try small changes of the code (without demonstrations) against the checks.

python3 tools/mutate.py [names…]      each mutant: name, properties to run, [(file, old, new)]
"""
import os
import subprocess
import sys
import time

WT = '/tmp/nfmut'
C = 'nodefinder/search/_controller.py'
Q = 'nodefinder/search/_queue.py'
NM = 'nodefinder/search/_minimization/_nelder_mead.py'
MR = 'nodefinder/search/_minimization/_run.py'
R = 'nodefinder/search/result/'
I = 'nodefinder/identify/'
M = []


def m(name, props, *subs):
    M.append((name, props.split(), subs))


RN = '                    os.rename(tmpf.name, self.save_file)\n'
m('copy-onto-existing', 'P01', (C, RN, '''                    if os.path.exists(self.save_file):
                        import shutil
                        shutil.copyfile(tmpf.name, self.save_file)
                        os.remove(tmpf.name)
                    else:
                        os.rename(tmpf.name, self.save_file)
'''))
m('sleep-before-refined', 'P03', (C, '                                self.state.result.set_refined(np.array(pos))',
  '                                await asyncio.sleep(0.)\n                                self.state.result.set_refined(np.array(pos))'))
m('sleep-after-pop', 'P03', (C, '                            pos = self.state.position_queue.pop_queued()\n',
  '                            pos = self.state.position_queue.pop_queued()\n                            await asyncio.sleep(0.)\n'))
m('unique-on-load', 'P04', (Q, "        objects = np.array(hdf5_handle['objects'])\n",
  "        objects = np.array(hdf5_handle['objects'])\n        if len(objects):\n            objects = np.unique(objects, axis=0)\n"))
m('save-error-old-kept', 'P06', (C, '                    raise exc\n', '                    if not (isinstance(exc, OSError) and os.path.exists(self.save_file)):\n                        raise exc\n'))
m('round-normalize', 'P07', (Q, 'tuple(sorted(tuple(coord) for coord in simplex))', 'tuple(sorted(tuple(np.round(coord, 9)) for coord in simplex))'))
m('abs-value', 'P10', (R + '_search_result_container.py', 'res.value > self.gap_threshold', 'abs(res.value) > self.gap_threshold'))
m('maxfev-success', 'P10', (NM, '    if fcalls[0] >= maxfun:', '    if fcalls[0] > maxfun:'))
m('maxiter-success', 'P10', (NM, '    elif iterations >= maxiter:', '    elif iterations > maxiter:'))
m('count-nodes-not-vertices', 'P11', (C, '''                    if count > self.simplex_check_cutoff:
                        return False
                    break
''', '''                    if count > self.simplex_check_cutoff:
                        return False
'''))
m('boundary-neighbours', 'P11', (R + '_cell_list.py', 'np.all(i < self._total_num_cells)', 'np.all(i <= self.num_cells)'))
m('arith-inf', 'P12', (NM, '        return await function(*args)', '''        try:
            return await function(*args)
        except ArithmeticError:
            return float('inf')'''))
m('alias-position-queue', 'P13', (C, '''            position_queue = PositionQueue(
                objects=initial_state.position_queue.objects,
                known_objects=initial_state.position_queue.known_objects
            )''', '''            position_queue = initial_state.position_queue'''))
m('stencil-in-place', 'P13', (C, '            self.refinement_stencil = refinement_stencil * self.dist_cutoff', '            refinement_stencil *= self.dist_cutoff\n            self.refinement_stencil = refinement_stencil'))
m('ends-with-positions', 'P14 P11', (C, '''            ) or self.state.position_queue.has_queued:''', '''            ):'''))
m('potential-copied', 'P15', (MR, '    if fake_potential is not None:\n', '    if fake_potential is not None:\n        import copy\n        fake_potential = copy.deepcopy(fake_potential)\n'))
m('naive-average', 'P16', ('nodefinder/coordinate_system.py', 'np.average(deltas, axis=0)', 'np.median(deltas, axis=0)'))
m('average-unwrapped', 'P16', ('nodefinder/coordinate_system.py', '            deltas = [self.connecting_vector(origin, pos) for pos in positions]', '            deltas = [pos - origin for pos in positions]'))
m('cs-without-periodic', 'P17', ('nodefinder/coordinate_system.py', "HDF5_ATTRIBUTES = ['limits', 'periodic']", "HDF5_ATTRIBUTES = ['limits']"))
m('edges-optional', 'P17', (I + 'result/_shapes.py', '''        if 'edges' in graph_group:
            graph.add_edges_from([(tuple(p1), tuple(p2))
                                  for p1, p2 in graph_group['edges']])
''', '''        try:
            graph.add_edges_from([(tuple(p1), tuple(p2))
                                  for p1, p2 in graph_group['edges']])
        except Exception:
            pass
'''))
m('missing-ignored', 'P18', (C, '        if load:\n', '        if load and os.path.exists(self.save_file):\n'))
m('damaged-moved', 'P18', (C, '                if not load_quiet:\n', '                if os.path.exists(self.save_file):\n                    os.rename(self.save_file, str(self.save_file) + ".bak")\n                if not load_quiet:\n'))
m('fsync-after', 'P02', (C, '''                    os.fsync(tmpf.fileno())
                    os.rename(tmpf.name, self.save_file)
''', '''                    os.rename(tmpf.name, self.save_file)
                    os.fsync(tmpf.fileno())
'''))
m('check-nodes-not-refined', 'P11', (C, '''        for dist in self.state.result.get_refined_neighbour_distance_iterator(
            pos
        ):
            if dist < self.dist_cutoff:
                count += 1
''', '''        for dist in self.state.result.get_neighbour_distance_iterator(pos):
            if dist < self.dist_cutoff:
                count += 1
'''))
m('shared-neighbour-cache', 'P13', (R + '_cell_list.py', '        self._neighbour_indices = dict()\n', ''), (R + '_cell_list.py', '    def __init__(self, num_cells, periodic):\n', '    _neighbour_indices = {}\n\n    def __init__(self, num_cells, periodic):\n'))
m('eval-cache', 'P07', (NM, '''        ncalls[0] += 1
        return await function(*args)''', '''        key = tuple(args[0])
        if key not in cache:
            ncalls[0] += 1
            cache[key] = await function(*args)
        return cache[key]'''), (NM, '    ncalls = [0]\n', '    ncalls = [0]\n    cache = {}\n'))
m('nonperiodic-negative-index', 'P11', (R + '_cell_list.py', 'vals = np.array(frac * self.num_cells, dtype=int)', 'vals = np.array(np.abs(frac) * self.num_cells, dtype=int)'))
m('refined-lost-order', 'P04', (R + '_search_result_container.py', '        for res in refined_results:', '        for res in sorted(map(tuple, refined_results)):'))

# second batch
m('fresh-removes-old', 'P01', (C, '        if load:\n', '        if not load and self.save_file and os.path.exists(self.save_file):\n            os.remove(self.save_file)\n        if load:\n'))
m('float32-pos', 'P17 P04', (R + '_minimization.py', '            hdf5_handle[key] = val\n', '            hdf5_handle[key] = val.astype(np.float32) if key == "simplex_history" else val\n'))
m('results-sorted-on-load', 'P04', (C, '                minimization_results=initial_state.result.minimization_results,', '                minimization_results=sorted(initial_state.result.minimization_results, key=lambda r: tuple(r.pos)),'))
m('threshold-of-file', 'P18 P07 P10', (C, '                gap_threshold=gap_threshold,\n                dist_cutoff=dist_cutoff,\n                refined_results', '                gap_threshold=initial_state.result.gap_threshold,\n                dist_cutoff=dist_cutoff,\n                refined_results'))
m('delay-min', 'P05', (C, 'delay=self.save_delay, run_on_exit', 'delay=max(self.save_delay, 1.), run_on_exit'))
m('needs-saving-and', 'P05', (R + '_controller_state.py', 'return self.result.needs_saving or self.simplex_queue.needs_saving or self.position_queue.needs_saving', 'return self.simplex_queue.needs_saving and self.result.needs_saving'))
m('clean-in-finally', 'P06', (C, "                    self.state.needs_saving = False\n                except Exception as exc:\n                    os.remove(tmpf.name)\n                    raise exc", "                except Exception as exc:\n                    os.remove(tmpf.name)\n                    raise exc\n                finally:\n                    self.state.needs_saving = False"))
m('no-sort', 'P07', (Q, 'tuple(sorted(tuple(coord) for coord in simplex))', 'tuple(tuple(coord) for coord in simplex)'))
m('dedup-queued-only', 'P07', (Q, 'obj for obj in new_objects if obj not in self._all_objects', 'obj for obj in new_objects if obj not in set(self._queued_objects.queue)'))
m('range-slots', 'P08', (C, """                while (
                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
                ):
""", """                for _ in range(
                    self.num_minimize_parallel -
                    self.state.simplex_queue.num_running
                ):
"""))
m('skipped-not-finished', 'P08', (C, '                        else:\n                            self.state.simplex_queue.set_finished(simplex)\n', ''))
m('history-alias', 'P10', (NM, '            simplex_history.append(np.copy(sim))', '            simplex_history.append(sim)'))
m('fun-history-alias', 'P10', (NM, '            fun_simplex_history.append(np.copy(fsim))', '            fun_simplex_history.append(fsim)'))
m('nohist-first', 'P15', (NM, '            simplex_history[0] = np.copy(sim)', '            pass'))
m('np-all', 'P15 P11', (R + '_search_result_container.py', 'np.any(c.pos != pos)', 'np.all(c.pos != pos)'))
m('set-loop', 'P13', ('nodefinder/search/_run.py', '        loop = asyncio.new_event_loop()\n        close_loop = True', '        loop = asyncio.new_event_loop()\n        asyncio.set_event_loop(loop)\n        close_loop = True'))
m('close-thread-loop', 'P13', ('nodefinder/search/_run.py', '        finally:\n            loop.close()\n        res_queue', '        finally:\n            pass\n        res_queue'))
m('blowup-fake', 'P15', (MR, '            func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs', '            func=add_fake_potential(fake_potential, func), initial_simplex=simplex_blowup, **nelder_mead_kwargs'))
m('fake-ftol', 'P15', (MR, "        modified_kwargs['ftol'] = float('inf')\n", ''))
m('identify-set-order', 'P16', (I + '_dimension.py', '        random.shuffle(positions_to_evaluate)\n', '        pass\n'))
m('dim-first', 'P16', (I + '_dimension.py', '    if count >= (2 / 3) * sum(counter.values()):', '    if count > 0:'))
m('cluster-2fs', 'P16', (I + '_cluster.py', 'distances <= feature_size', 'distances <= 2 * feature_size'))
m('cluster-neighbours', 'P16', (I + '_cluster.py', 'zip(pos_unique[:-1], pos_unique_array)', 'zip(pos_unique[:-2], pos_unique_array)'))
m('min-neighbours', 'P16', (I + '_dimension.py', '            if abs(limit_value - avg) / 2 > error_mean:\n                return avg > limit_value', '            return avg > limit_value'))
m('degree-count-str', 'P17', (I + 'result/_shapes.py', '        to_hdf5(self.degree_count, degree_count_group)', '        to_hdf5(list(self.degree_count.items()), degree_count_group)'))
m('no-shape-none', 'P17', (I + 'result/_containers.py', "        to_hdf5(self.shape, hdf5_handle.create_group('shape'))", "        if self.shape is not None:\n            to_hdf5(self.shape, hdf5_handle.create_group('shape'))"), (I + 'result/_containers.py', "        shape = from_hdf5(hdf5_handle['shape'])", "        shape = from_hdf5(hdf5_handle['shape']) if 'shape' in hdf5_handle else None"))
m('half-load', 'P18', (C, '                if not load_quiet:\n                    raise exc\n', '                if not load_quiet:\n                    raise exc\n                try:\n                    import h5py\n                    from fsc.hdf5_io import from_hdf5\n                    with h5py.File(self.save_file, "r") as f:\n                        res = from_hdf5(f["result"])\n                    initial_state = ControllerState(result=res, simplex_queue=SimplexQueue(self.get_initial_simplices(initial_mesh_size)), position_queue=PositionQueue())\n                except Exception:\n                    pass\n'))
m('recheck-ge', 'P11', (C, '            if count > count_cutoff:', '            if count >= max(1, count_cutoff):'))
m('simplex-ge', 'P11', (C, '                    if count > self.simplex_check_cutoff:', '                    if count >= max(1, self.simplex_check_cutoff):'))
m('queue-check-recheck', 'P11', (C, '            if self._check_pos_refinement(pos):\n                SEARCH', '            if self._check_pos_refinement(pos, count_cutoff=self.recheck_count_cutoff):\n                SEARCH'))
m('cached-refine-check', 'P11', (C, '                                pos + self.refinement_stencil\n', '                                self.coordinate_system.normalize_position(pos) + self.refinement_stencil\n'))
m('frac-no-lower', 'P11', ('nodefinder/coordinate_system.py', '        frac = (pos - self._lower_limits) / self.size\n        if self.periodic:', '        frac = (pos - self._lower_limits) / self.size\n        if self.periodic and np.all(np.abs(frac) < 2):'))
m('first-done-only', 'P12', (C, '                exceptions = [exc for exc in exceptions if exc is not None]\n                if exceptions:', '                exceptions = [exc for exc in exceptions[:1] if exc is not None]\n                if exceptions:'))
m('return-exceptions', 'P12', (C, '        await asyncio.gather(*self.task_futures)', '        await asyncio.gather(*self.task_futures, return_exceptions=True)'))
m('exceptions-dropped-type', 'P12', (C, '                exceptions = [exc for exc in exceptions if exc is not None]', '                exceptions = [exc for exc in exceptions if isinstance(exc, Exception)]'))

# the fixes which cannot be reverted by git
RUN = 'nodefinder/search/_run.py'
m('fix-e572866', 'P07', (Q, 'dict.fromkeys(self.normalize(objects))', 'self.normalize(objects)'))
m('fix-cfe929e', 'P13 P05', (C, """            for fut in self.task_futures:
                fut.cancel()
            try:
                await asyncio.gather(
                    *self.task_futures, return_exceptions=True
                )
            finally:
                # Also if the search is cancelled again while it is ending.
                self.save()""", """            self.save()"""))
m('fix-09bda88', 'P06 P05', (C, '            self.save_periodic, delay', '            self.save, delay'))
m('fix-09bda88b', 'P06', (C, '            self.save_periodic, delay=self.save_delay, run_on_exit=False', '            self.save, delay=self.save_delay, run_on_exit=True'), (C, '                # Also if the search is cancelled again while it is ending.\n                self.save()', '                pass'))
m('fix-3cc12eb', 'P05 P13', (RUN, """    except BaseException:
        task.cancel()
        # The""", """    except BaseException:
        raise
        # The"""))
m('fix-8ce0700', 'P05', (RUN, """            if task.done():
                break
        raise""", """            break
        raise"""))
m('fix-0c9f2a7', 'P12', (RUN, '    except BaseException as exc:  # pylint: disable=broad-except\n        # The exc', '    except Exception as exc:  # pylint: disable=broad-except\n        # The exc'))
m('fix-57cac33', 'P12 P13', (RUN, """            try:
                thread.join()
            except BaseException:
                # Don't leave the search running if the caller is interrupted.
                # The loop is already closed if the search has just ended.
                with contextlib.suppress(RuntimeError):
                    thread_loop.call_soon_threadsafe(task.cancel)
                thread.join()
                raise
""", "            thread.join()\n"))

m('linger-sleep', 'P14', (C, '        await asyncio.gather(*self.task_futures)\n\n    def schedule', '        await asyncio.gather(*self.task_futures)\n        if self.save_file:\n            await asyncio.sleep(self.save_delay)\n\n    def schedule'))
m('force-drops-positions', 'P03', (C, """                objects=initial_state.position_queue.objects,
""", """                objects=() if force_initial_mesh else initial_state.position_queue.objects,
"""))
m('force-drops-queue', 'P03', (C, "                simplices.extend(\n", "                simplices = list(\n"))
m('force-only-without-results', 'P03', (C, "            if force_initial_mesh:\n", "            if force_initial_mesh and not simplices:\n"))
m('force-skips-known', 'P03', (C, """                simplices.extend(
                    self.get_initial_simplices(
                        initial_mesh_size=initial_mesh_size
                    )
                )
""", """                known = set(SimplexQueue.normalize(initial_state.simplex_queue.known_objects))
                simplices.extend(
                    x for x in self.get_initial_simplices(
                        initial_mesh_size=initial_mesh_size
                    ) if SimplexQueue.normalize([x])[0] not in known
                )
"""))
m('initial-state-copied-wrong', 'P03', (C, "            simplices = list(initial_state.simplex_queue.objects)\n", "            simplices = list(initial_state.simplex_queue.objects)\n            if not load:\n                simplices = simplices[initial_state.simplex_queue.num_running + 1:] + simplices[:initial_state.simplex_queue.num_running]\n"))

if __name__ == '__main__':
    def sh(cmd, **k):
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    want = sys.argv[1:]
    if want and want[0].startswith('+'):
        want = [x[0] for x in M[[x[0] for x in M].index(want[0][1:]):]]
    sh('rm -rf %s; mkdir %s; git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q && git add -A && git commit -qm x' % ((WT, ) * 4))
    for name, props, subs in M:
        if want and name not in want:
            continue
        sh('git checkout -q -- .', cwd=WT)
        bad = False
        for f, a, b in subs:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(name, 'DOES NOT MATCH', f, s.count(a))
                bad = True
                break
            open(p, 'w').write(s.replace(a, b))
        if bad:
            continue
        for prop in props:
            t = time.time()
            r = sh('python3 -m nfsim.check %s --tier quick' % prop, cwd='/verif', env=dict(os.environ, NFSIM_REPO=WT, VERIF_SEED='1', NFSIM_EVIDENCE='/tmp/nfmut-ev'))
            lines = r.stdout.decode().strip().splitlines()
            vio = [l for l in lines if l.startswith('VIOLATION')]
            why = [l for l in lines if not l.startswith('VIOLATION') and ':' in l]
            print('%-28s %s %s rc %d %5.1fs %s' % (name, prop, 'caught' if vio and r.returncode == 1 else 'MISSED', r.returncode, time.time() - t, (why or lines or [''])[0][:140]), flush=True)
