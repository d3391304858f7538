"""Writes /verif/properties.jsonl (kept as a generator so that edits stay valid JSON)."""
import json, os
F = 'nodefinder/search/'
R = F + 'result/'
I = 'nodefinder/identify/'
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

SAVE = ('write to a temporary file in the same directory, then rename over save_file', F + '_controller.py: Controller.save')
PT = ('periodic saver wrapped around the scheduling loop', F + '_controller.py: Controller.create_tasks')
QUE = ('queue state, running simplices first', F + '_queue.py: RunningQueue.objects / ObjectQueue.to_hdf5')

prop('P01', 'A killed search never leaves a damaged or missing save file',
 "Whatever instant a search with a save file is killed or interrupted - including in the middle of writing a snapshot - the file at save_file is either exactly what was there before this search first saved, or one complete snapshot this search wrote, and it loads. Once a snapshot has been put in place, a later kill never takes the file back to something older, partial or absent.",
 ['crash_points', 'schedules', 'fault_sequences'],
 'every file-system operation and event-loop step of every search (fresh, or resumed on top of an existing save file) as the kill instant, with and without failing I/O operations before it',
 'test_restart* only load the file after a run that finished; no test stops a run in the middle of a save.',
 [F + '_controller.py', 'nodefinder/io.py', R + '_controller_state.py'], [SAVE, ('HDF5 serialisation of the state', R + '_controller_state.py')],
 [('save_file', 'path of the durable snapshot', F + '_controller.py')], ['content of save_file after every file-system operation'])

prop('P02', 'A power loss leaves the old or the new snapshot, never a torn one',
 "If power fails at any instant of a search, so that only data explicitly forced to disk plus an arbitrary part of the rest survives, then the file at save_file is afterwards either what was there before the search (possibly nothing), or a complete snapshot this search wrote, and such a snapshot loads. A torn, truncated or empty file at save_file is never possible.",
 ['crash_points', 'fault_sequences'],
 'every file-system operation as the instant of power loss; un-synced file contents survive fully, partly, or not at all; un-synced directory operations survive as any prefix',
 'no test drops un-synced data; on a healthy machine the page cache hides the difference.',
 [F + '_controller.py'], [SAVE, ('fsync of the temporary file before the rename', F + '_controller.py: Controller.save')], (), ['disk image after simulated power loss'])

prop('P03', 'Every snapshot is a consistent cut and resuming loses or repeats nothing',
 "In every snapshot a search writes, no start simplex is both finished and still to be done, every start simplex queued so far is finished, still listed as to be done, or near a known node, and every node is near a refined position or one still listed for refinement. Resuming from a snapshot after a crash keeps every result in it, never re-evaluates a minimisation that it records as finished, and carries out all that was running or queued, so the completed search accounts for each start simplex exactly once. With force_initial_mesh=True the simplices of its initial mesh, be it the same or another one, are added to what the resumed search does, each once. It makes no difference whether the snapshot is resumed with load=True or passed as initial_state.",
 ['crash_points', 'schedules', 'histories'],
 'any number of crash / resume cycles at any instant, any evaluation timing, any parallelism, with and without fake potential',
 'test_restart_partial resumes only from finished runs; there are never running or queued items in the file.',
 [F + '_controller.py', F + '_queue.py', R + '_controller_state.py', R + '_search_result_container.py', R + '_minimization.py'],
 [QUE, ('result recorded and simplex marked finished without an intermediate await', F + '_controller.py: Controller.run_simplex'), ('restoring queues and results', F + '_controller.py: Controller.create_state')],
 [('simplex_queue', 'simplices to be minimised and running', F + '_queue.py'), ('position_queue', 'positions to be refined', F + '_queue.py')], ['every version of save_file', 'gap function calls after resume'])

prop('P04', 'An interrupted and resumed serial search equals an uninterrupted one',
 "With num_minimize_parallel=1 and a deterministic gap function, a search that crashes any number of times and is each time resumed from its save file ends with the same sequence of nodes, the same rejected results and the same refined positions as a search that was never interrupted.",
 ['crash_points', 'histories'],
 'all crash instants and all numbers of crash / resume cycles, for any landscape, mesh, stencil, periodicity and fake-potential setting',
 'tests never compare an interrupted search with an uninterrupted one, and never interrupt one.',
 [F + '_controller.py', F + '_queue.py', R + '_search_result_container.py', R + '_cell_list.py'], [QUE, ('order-preserving queue serialisation', F + '_queue.py'), ('reload of results and refined positions', R + '_search_result_container.py')], (), ['final SearchResultContainer of both searches'])

prop('P05', 'Saved state is at most save_delay old and final on every exit',
 "While a search runs on a working disk, a kill loses only what was recorded since the last save_delay seconds (plus the event-loop step in progress): everything recorded earlier is in save_file. When the search ends by itself - by returning, by an exception from the gap function, by cancellation of the coroutine, or by KeyboardInterrupt in the gap function - save_file holds everything recorded up to that point. save_file means the file it named when the search was started, even if the working directory changes.",
 ['schedules', 'crash_points', 'histories'],
 'any save_delay, evaluation durations, clock jumps, bursts of results, and any exit path',
 'tests never look at the file during a run and never let a run with a save file end by an error or a cancellation.',
 [F + '_controller.py', F + '_queue.py', R + '_controller_state.py', F + '_run.py'], [PT, ('needs_saving flags', R + '_controller_state.py')], [('needs_saving', 'whether memory is ahead of the file', R + '_controller_state.py')], ['save_file against in-memory state at each step and at exit'])

prop('P06', 'A failing save is contained, retried, and never passed over in silence',
 "If writing a snapshot fails (full disk, I/O error, failing rename or sync, lack of memory), the previous snapshot stays in place and loadable and no temporary file stays behind; the search keeps running and later saves are attempted again. A search returns normally only if its final state is in save_file; if the final save fails, the search raises the error.",
 ['fault_sequences', 'schedules'],
 'any file-system operation failing once, several times or for the rest of the run, at any save of the run',
 'no test makes a file-system call fail.',
 [F + '_controller.py', R + '_controller_state.py'], [SAVE, PT], (), ['directory content, outcome of the run'])

prop('P07', 'Each start simplex is minimised exactly once and all work is accounted for',
 "When a search returns, each simplex of the initial mesh and each stencil simplex around each refined position has exactly one minimisation result, unless it was skipped because it lies within the cutoff of a known node; there are no other results, and simplices that occur twice are minimised once. The num_fev values of the results add up to the number of gap function calls made.",
 ['schedules', 'inputs', 'configurations'],
 'all completion orders and timings of gap evaluations, parallelism limits, landscapes, stencils (also with repeated simplices), meshes and cutoff settings',
 'test_restart_partial counts nodes for one synchronous schedule only; nothing checks concurrent completion.',
 [F + '_controller.py', F + '_queue.py', F + '_run.py'], [('de-duplicating queue', F + '_queue.py: ObjectQueue.add_objects'), ('run_simplex / process_result / set_finished', F + '_controller.py')], (), ['minimization_results', 'gap function calls'])

prop('P08', 'Parallelism never exceeds num_minimize_parallel and never idles below it',
 "At no time are more than num_minimize_parallel minimisations in progress. Whenever fewer are in progress while start simplices or refinement positions are still to be done, new ones are started without waiting for the running ones.",
 ['schedules', 'configurations'],
 'all parallelism limits, queue lengths and evaluation timings including evaluations that stall indefinitely',
 'all tests use synchronous gap functions and the default limit, which no test mesh reaches.',
 [F + '_controller.py', F + '_queue.py'], [('slot accounting through the running set', F + '_controller.py: create_tasks'), ('num_running', F + '_queue.py')], (), ['minimisations with gap evaluations in flight'])

prop('P09', 'Timing never changes what a minimisation computes',
 "Without fake potential, the result of minimising a given start simplex (position, value, evaluation count, history) is the same whatever other minimisations run at the same time, in whatever order and after whatever delays gap evaluations complete. With num_minimize_parallel=1 the whole search result, in order, is the same for synchronous, asynchronous, slow or reordered evaluations, any save activity and any clock behaviour.",
 ['schedules', 'configurations'],
 'all delays, completion orders and evaluation styles (plain function, coroutine, batched), with saving on or off',
 'tests run one synchronous schedule and cannot compare schedules.',
 [F + '_minimization/_nelder_mead.py', F + '_minimization/_run.py', F + '_controller.py'], [('per-minimisation local state, ordered gather of vertex values', F + '_minimization/_nelder_mead.py')], (), ['minimization_results of the same search under different schedules'])

prop('P10', 'Every reported value really is the gap at the reported position',
 "Every result's value is the value the gap function returned at that result's position (shifted into the box for periodic systems), and the recorded simplex and function histories pair each vertex with its own value. A result is listed as a node if and only if its minimisation succeeded and its value does not exceed gap_threshold, so NaN or infinite values and unconverged runs are never nodes; after a resume with another gap_threshold the new one decides.",
 ['schedules', 'inputs', 'fault_sequences'],
 'all completion orders of concurrently evaluated vertices, all landscapes including ones with NaN and infinite regions, restarts included',
 'tests check a few nodes of two smooth functions evaluated in call order.',
 [F + '_minimization/_nelder_mead.py', R + '_search_result_container.py', R + '_minimization.py', 'nodefinder/coordinate_system.py'], [('add_result', R + '_search_result_container.py'), ('normalize_position', 'nodefinder/coordinate_system.py')], (), ['result.nodes, result.rejected_results against the log of gap evaluations'])

prop('P11', 'Refined positions are spaced out, and every node is near one',
 "With the default re-check settings and a refinement stencil, refinement centres are pairwise at least a third of feature_size apart (periodic distance where applicable), and when the search returns every node is closer than that to a refinement centre, in particular to itself. A start simplex with more vertices within that distance of already known nodes than allowed is not evaluated, and one without is not skipped. With recheck_count_cutoff=n a position queued for refinement is dropped only if more than n refined positions lie within that distance, and with recheck_pos_dist=False none is dropped.",
 ['schedules', 'inputs', 'histories'],
 'all orders in which neighbouring nodes are found concurrently, all box shapes and cutoff settings, restarts included',
 'no test inspects refined positions, and the synchronous order hides races between nodes found together.',
 [F + '_controller.py', R + '_search_result_container.py', R + '_cell_list.py', 'nodefinder/coordinate_system.py'], [('_check_pos_refinement at queueing and again at launch', F + '_controller.py'), ('neighbour lookup', R + '_cell_list.py')], (), ['result.refined_results, result.nodes'])

prop('P12', 'A failing evaluation always surfaces, promptly, in every calling context',
 "If a gap evaluation raises - any exception, including KeyboardInterrupt, SystemExit and cancellation - the search ends promptly by raising that exception, however it was started: run() without a loop, run() from inside a running loop, run() in another thread, or awaiting run_async(). It never hangs, never waits for other slow evaluations, and never returns a result as if nothing had happened. The same holds when the caller of run() is interrupted (Ctrl-C) while the search is running.",
 ['fault_sequences', 'schedules', 'configurations'],
 'any evaluation failing with any exception type at any time, alone or together with others, in every calling context',
 'test_raises covers one coroutine that always raises ValueError, on the main thread.',
 [F + '_run.py', F + '_controller.py'], [('collection of finished task exceptions', F + '_controller.py: create_tasks'), ('exception hand-over between threads', F + '_run.py')], (), ['outcome of run / run_async, steps until it'])

prop('P13', 'A finished search leaves nothing behind and searches do not affect each other',
 "Once a search has returned, raised or been cancelled, its gap function is not called again, none of its evaluations, tasks, threads or self-made event loops remain, and it does not write its save file again, and settings of the process (warnings filters, numpy error handling, random generators, signal handlers) are as before. Searches that follow each other, or run concurrently on one loop or in several threads, give the results each would give alone.",
 ['schedules', 'fault_sequences', 'histories'],
 'every exit path of a search followed by or interleaved with other searches, in every calling context',
 'tests run one search at a time and never look at the loop afterwards.',
 [F + '_controller.py', F + '_run.py', F + '_minimization/_nelder_mead.py'], [('task set of the controller', F + '_controller.py'), ('loop handling', F + '_run.py')], (), ['event loop and settings of the process after the call, results of other searches'])

prop('P14', 'A search terminates, and a stalled evaluation delays only its own work',
 "If every gap evaluation eventually completes and the nodes form a bounded set, the search returns after finitely many evaluations and does not keep running once all work is done. While fewer than num_minimize_parallel minimisations are stalled in slow evaluations, all other queued work, including the refinement it leads to, is completed without waiting for them.",
 ['schedules', 'configurations'],
 'all delay patterns including arbitrarily long stalls, clock jumps, and landscapes with extended nodal regions',
 'tests have no slow evaluations.',
 [F + '_controller.py', F + '_queue.py'], [('scheduling loop and its exit condition', F + '_controller.py: create_tasks')], (), ['progress of evaluations in simulated time'])

prop('P15', 'The fake potential repels from exactly the nodes known at that moment',
 "With use_fake_potential, each evaluation of the first minimisation stage counts as infinite if and only if a node already recorded when the gap value arrived lies within a third of feature_size (other than exactly at that point); the second stage sees the plain gap values only, and decides the reported position, value and success.",
 ['schedules', 'histories'],
 'all interleavings of finding nodes with evaluations in flight, periodic and open boxes, evaluations at or across the box boundary, resumed searches',
 'tests with fake potential evaluate synchronously and check only final accuracy.',
 [F + '_fake_potential.py', F + '_minimization/_run.py', R + '_search_result_container.py', R + '_cell_list.py', 'nodefinder/coordinate_system.py'], [('live lookup of known nodes', F + '_fake_potential.py')], (), ['function histories of both stages against the record of nodes'])

prop('P16', 'Identification does not depend on discovery order, restarts or random draws',
 "identify assigns each distinct node position to exactly one object, the objects being the groups of nodes connected by steps of at most feature_size. For well-separated nodal points (nodes within a quarter of feature_size) and evenly sampled closed lines the dimension of each object is zero or one respectively, and this dimension, as well as the reported location of points (inside the box, within the cluster), is the same for every order in which the search found the nodes, for the live result as for the reloaded save file, and for every state of the random generator. It raises no exception for any set of nodes.",
 ['schedules', 'histories', 'inputs'],
 'all schedules of the preceding search, orders of the nodes, crash / resume histories, and random streams',
 'identify tests use one stored sample and one random stream, and do not pass on this Python version.',
 [I + '_run.py', I + '_cluster.py', I + '_dimension.py', I + '_evaluate/_point.py', 'nodefinder/coordinate_system.py'], [('connected components of the distance graph', I + '_cluster.py'), ('sampling with an error estimate', I + '_dimension.py')], (), ['IdentificationResultContainer'])

prop('P17', 'What io.save reports as saved is what io.load returns',
 "For search states, search results and identification results, io.save on a disk that may fail at any operation either raises or leaves a file from which io.load restores an equal object: same nodes, rejected results, histories, refined positions, queued work, shapes, dimensions and settings. io.load on a disk with read errors, or of a truncated file, raises instead of returning an incomplete object. On a working disk, neither raises.",
 ['fault_sequences', 'inputs'],
 'all objects that searches and identification produce, every write or read operation failing, every truncation length',
 'no test does a round trip with failing I/O; the one loading test of an identification result fails on current h5py.',
 ['nodefinder/io.py', R + '_search_result_container.py', R + '_minimization.py', R + '_controller_state.py', F + '_queue.py', I + 'result/_containers.py', I + 'result/_shapes.py'], [('HDF5 mappings of the data classes', R + '*.py, ' + I + 'result/*.py')], (), ['object before saving and after loading'])

prop('P18', 'An unreadable save file is reported or ignored as asked, never half-used',
 "With load=True and load_quiet=False a missing, truncated, damaged or unreadable save file makes the search raise before any gap evaluation and leaves that file untouched. With load_quiet=True the search then runs as if started from scratch, completes all its work and puts a complete snapshot in place; in no case does it continue from part of the file's content.",
 ['fault_sequences', 'crash_points', 'configurations'],
 'missing files, permission errors, read errors at any operation, every truncation length, damaged headers',
 'tests load only intact files.',
 [F + '_controller.py', 'nodefinder/io.py', F + '_queue.py'], [('load in create_state', F + '_controller.py: create_state')], (), ['outcome, gap calls, save_file'])

# not simulation targets
prop('P24', 'Each minimisation is a Nelder-Mead descent that stops when and why it says',
 "Whatever order and delays its evaluations complete with, each recorded simplex of a minimisation follows from the one before by a Nelder-Mead step (reflection, expansion, contraction or shrinking, as the gap values demand), so its best value never rises. It stops as soon as, and only when, both xtol and ftol are met, the estimated derivative exceeds fprime_cutoff, or maxiter or maxfev is reached; it is successful exactly if the tolerances are what ended it, its status and message name the cause otherwise, and its counts of iterations and evaluations are true. With use_fake_potential the second stage starts from the final simplex of the first, enlarged about its best vertex.",
 ['schedules', 'inputs'],
 'all completion orders of the concurrent and sequential evaluations, landscapes with NaN and infinite values, tolerances and limits',
 'tests look at final positions of a few smooth landscapes with the default limits.',
 [F + '_minimization/_nelder_mead.py', F + '_minimization/_run.py'], [('the loop of the algorithm', F + '_minimization/_nelder_mead.py: root_nelder_mead')], (), ['simplex_history, fun_simplex_history, success, status, message, num_iter, num_fev of each result'])

prop('P19', 'Coordinate arithmetic is consistent',
 "Fractional and real coordinates convert into each other, distance is symmetric and, for periodic boxes, equals the length of the shortest connecting vector, and normalised positions lie in the box at zero distance from the original.",
 ['inputs'], 'all boxes and positions', 'no direct tests of the coordinate system.',
 ['nodefinder/coordinate_system.py'], [('CoordinateSystem', 'nodefinder/coordinate_system.py')])
prop('P20', 'Meshes and stencils have the documented geometry',
 "The initial mesh has the requested number of points per direction inside the box, one non-degenerate simplex per point; refinement stencils have shape (N, dim+1, dim) with non-degenerate simplices placed around, not at, the origin.",
 ['inputs'], 'all dimensions, limits and mesh sizes', 'no tests of mesh or stencil geometry.',
 [F + '_mesh_helper.py', F + 'refinement_stencil.py'], [('_generate_mesh_simplices', F + '_mesh_helper.py')])
prop('P21', 'Minimisation and refinement find nodes accurately and cover extended features',
 "For smooth landscapes and a mesh fine enough for the features, nodes are found to the requested accuracy and nodal lines and surfaces are covered at the scale of feature_size.",
 ['inputs'], 'all landscapes with features larger than the mesh and feature size', 'tests sample a few functions with scores.',
 [F + '_minimization/_nelder_mead.py', F + 'refinement_stencil.py'], [('modified Nelder-Mead', F + '_minimization/_nelder_mead.py')])
prop('P22', 'Line shapes are reconstructed correctly',
 "For a densely sampled nodal line the reported graph follows the line, with the degree count of its topology (closed loop, open line, crossings).",
 ['inputs'], 'all sampled curves', 'few samples, most missing from the test tree.',
 [I + '_evaluate/_line/_ballistic.py', I + '_evaluate/_line/_shortest_path.py', I + '_evaluate/_line/_dominating_set.py'], [('line methods', I + '_evaluate/_line/')])
prop('P23', 'Plots show the data they are given',
 "The plotting functions draw every node, simplex or shape of the given result inside the limits of its coordinate system, without altering the result.",
 ['inputs'], 'all results', 'image comparison is disabled in the test command.',
 [F + 'plot.py', I + 'plot.py', 'nodefinder/_common_plot.py'], [('plot functions', F + 'plot.py, ' + I + 'plot.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
