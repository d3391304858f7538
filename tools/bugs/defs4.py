from defs1 import *

NMD = '''
from nodefinder.search._minimization._nelder_mead import root_nelder_mead


def nm(f, start, **kw):
    async def g(x):
        return f(x)
    kw = dict(dict(xtol=1e-6, ftol=1e-6), **kw)
    return asyncio.run(root_nelder_mead(g, initial_simplex=np.array(start, float), **kw))


'''

bug('p24-greedy-expansion','P24',[(NM,'''            if fxe < fxr:
''','''            if fxe < fsim[0]:
''')],'an expanded point which is better than the best vertex, but worse than the reflected point',
'a step keeps the worse one of the two points it evaluated',NMD+'''
f = lambda x: abs(x[0] - 1.2) + 0.01
r = nm(f, [[0.], [0.6]], maxiter=2)
# reflected: 1.2 (best), expanded: 1.8, which has the value of the best vertex plus ...
f = lambda x: {0.: 5., 0.5: 4., 1.: 1., 1.5: 3.}.get(round(float(x[0]), 6), 9.)
r = nm(f, [[0.], [0.5]], maxiter=2)
check(r.fun_simplex_history[1][0] == 1., 'the reflected point has the value 1, but the simplex becomes %r' % (r.simplex_history[1].tolist(), ))
''')

bug('p24-limit-only-steps','P24',[(NM,'''    fcalls, func = wrap_function(func)
    N = len(initial_simplex[0])
''','''    fcalls, func = wrap_function(func)
    N = len(initial_simplex[0])
    if maxfun is not None and maxfun < N + 1:
        # the initial simplex is always evaluated
        maxfun = None
''')],'a limit maxfev smaller than the initial simplex',
'the limit is ignored', NMD+'''
r = nm(lambda x: float(np.sum(np.abs(x))) + 1., [[1., 2.], [2., 2.], [2., 1.]], maxfev=2)
check(r.num_fev <= 8, '%d evaluations with maxfev=2' % r.num_fev)
check(not r.success, 'a minimization that was stopped by maxfev is successful')
''')

bug('p24-cutoff-after-tolerance','P24',[(NM,'''            and _get_fprime_estimate(sim=sim, fval=fsim[0]) > fprime_cutoff
        ):
            break
''','''            and iterations > 1
            and _get_fprime_estimate(sim=sim, fval=fsim[0]) > fprime_cutoff
        ):
            break
''')],'an initial simplex which already exceeds fprime_cutoff',
'the minimisation makes a step although the cutoff is exceeded before',NMD+'''
r = nm(lambda x: float(np.sum(np.abs(x))) + 50., [[1., 2.], [2., 2.], [2., 1.]], fprime_cutoff=1.)
check(r.num_fev == 3, '%d evaluations where the first three exceed the cutoff' % r.num_fev)
''')

bug('p24-blowup-about-worst','P24',[('nodefinder/search/_minimization/_run.py','''        simplex_final = res_fake.simplex_history[-1]
''','''        # the first run can end because of NaN values
        simplex_final = res_fake.simplex_history[-1][::-1]
''')],'use_fake_potential, where the simplex is enlarged for the second stage',
'the second stage starts without the best vertex of the first', '''
f = points((0.3, 0.3))
res = nf.search.run(f, limits=[(0, 1)] * 2, initial_mesh_size=2, feature_size=0.3, gap_threshold=1e-3, refinement_stencil=None, use_fake_potential=True)
for r in list(res.nodes) + list(res.rejected_results):
    best = r.ancestor.simplex_history[-1][0]
    check(any(np.allclose(v, best, atol=1e-12) for v in r.child.simplex_history[0]), 'the second stage starts without the best vertex of the first')
''')

bug('p03-force-starts-refinement-over','P03',[(C,'''                objects=initial_state.position_queue.objects,
''','''                # new start simplices lead to new positions
                objects=() if force_initial_mesh else initial_state.position_queue.objects,
''')],'a resume with force_initial_mesh from a snapshot in which positions wait for their refinement',
'the queued refinement positions are dropped', '''
class Stop(Exception):
    pass


base = points((0.5, 0.5))
kw = dict(limits=[(0, 1)] * 2, periodic=False, initial_mesh_size=3, feature_size=0.3, gap_threshold=1e-3, save_file=SAVE,
          num_minimize_parallel=1, simplex_check_cutoff=10)
state = None
for n in range(1, 600):
    count = [0]
    def gap(x):
        count[0] += 1
        if count[0] == n:
            raise Stop()
        return base(x)
    if os.path.exists(SAVE):
        os.remove(SAVE)
    try:
        nf.search.run(gap, **kw)
        break
    except Stop:
        pass
    state = nf.io.load(SAVE)
    if state.position_queue.objects:
        break
    state = None
check(state is not None, 'no state with a queued position was reached')
queued = list(state.position_queue.objects)
# from now on, nothing new is found
nf.search.run(lambda x: 1., load=True, force_initial_mesh=True, **kw)
final = nf.io.load(SAVE)
for pos in queued:
    near = [
        s for s in final.simplex_queue.known_objects
        if s not in state.simplex_queue.known_objects
        and max(np.linalg.norm(np.array(v) - np.array(pos)) for v in s) < 0.3
    ]
    check(near, 'the queued position %r was not refined' % (pos, ))
''')
