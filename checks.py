"""What each check builds, runs, and requires to have observed."""
TR = ['trace_fixed.cpp', 'trace_fixed2.cpp', 'trace_float.cpp', 'trace_dyn.cpp', 'trace_gd.cpp', 'trace_pattern.cpp', 'trace_special.cpp', 'trace_judge.cpp']
CHECKS = {}
ORACLE = ('the oracle sees only the calls of the user function, the options and the returned Output/x; '
          'runs whose solvability it cannot decide from that record are counted as inconclusive')


def trace(prop, title, note, need, srcs=TR, **kw):
    CHECKS['C%02d' % prop] = dict(
        runs=[dict(name='trace', build='plain', srcs=srcs, flags=['-DVH_PROP=%d' % prop])],
        rule='one evaluation = one whole optimization run recorded call by call and judged offline; distinct = '
             '(solver, parameter type, response pattern, stop reason) signatures',
        technique='run-time monitoring: ' + title, level='exploration', level_note=note, min_events=need, assumptions=[ORACLE], **kw)


trace(2, 'evaluation and iteration counting of scripted and real user functions, with a call guard and a hang watchdog',
      'Random and exhaustive short outcome scripts plus long, timed and never-solvable runs; every run must stay within the documented budgets. Explores, does not prove.',
      {'evaluations': 100000, 'unsolvable-attempts': 5000, 'time-limited-runs': 8, 'long-runs': 8, 'stop:5': 500}, hang_is_violation=True)
trace(3, 'offline replay of the recorded calls against the reported statistics',
      'Every list entry, counter and final value is recomputed from what the user function returned.',
      {'accepted': 50000, 'rejected': 10000, 'unsolvable-attempts': 5000, 'long-runs': 8})
trace(4, 'offline replay deciding the stop reason that had to be reported',
      'The expected reason is derived from the record and options; thresholds that fall within rounding of the observed value accept either outcome.',
      {'stop:1': 100, 'stop:2': 100, 'stop:3': 100, 'stop:4': 100, 'stop:5': 100, 'stop:6': 100, 'stop:7': 100, 'stop:8': 4, 'stop:9': 100,
       'stop:-1': 100, 'stop:-2': 100, 'stop:-3': 100})
trace(5, 'monitoring of every evaluated point and of the returned parameters',
      'Points are compared with the best point and with the last computed step norm, up to rounding.',
      {'points:best': 5000, 'points:step': 50000, 'returned:must-be-best': 5000})
trace(6, 'observed Gauss-Newton steps substituted into the recorded normal equations',
      'Steps whose conditioning makes the residual meaningless are skipped and not counted.',
      {'steps-verified': 10000, 'unsolvable-attempts': 5000}, srcs=[s for s in TR if s != 'trace_gd.cpp'])
trace(7, 'damping recovered from observed Levenberg-Marquardt steps and tracked over accept/reject histories',
      'The damping is measured from each step vector (or bracketed from the reported step norm) and must stay within the interval implied by the history.',
      {'steps-verified': 10000, 'dampings-measured': 5000, 'dampings-observed': 5000}, srcs=[s for s in TR if s != 'trace_gd.cpp'])
trace(8, 'observed gradient-descent steps compared with -lr times the clipped gradient',
      'Every move and every reported step size is compared with the gradient the user function supplied.',
      {'steps-verified': 10000, 'directions': 20000, 'clipped': 8000, 'accepted-below-zero': 10000},
      srcs=['trace_gd.cpp', 'trace_pattern.cpp', 'trace_special.cpp', 'trace_judge.cpp', 'gd_auto.cpp'])
trace(18, 'costs, residual counts and inliers recomputed for recorded runs, for random sequences of cost operations and for scaled problems',
      'Cost objects are driven through random operation sequences against a reference model; reported costs follow from the values the user function returned.',
      {'states': 100000, 'residual-matrices': 10000, 'comparisons': 1000}, srcs=TR + ['cost_ops.cpp'])
trace(20, 'final Hessian and covariance of recorded runs compared with the recorded normal equations',
      'The Hessian of the accepted point is known from the recorded calls; covariances are checked by substitution in extended precision.',
      {'covariances': 10000, 'rescaled': 3000, 'refused': 500, 'stddevs': 3000, 'hessians': 3000, 'not-saved': 200, 'no-redundancy': 500}, srcs=TR + ['cov.cpp'])
def func(prop, srcs, title, note, rule, need, flags=None, **kw):
    CHECKS['C%02d' % prop] = dict(
        runs=[dict(name='func', build='plain', srcs=srcs, flags=flags if flags is not None else ['-DVH_PROP=%d' % prop])],
        rule=rule, technique='run-time monitoring: ' + title, level='exploration', level_note=note, min_events=need,
        assumptions=['the reference is evaluated in extended precision; results within a stated multiple of the rounding error of '
                     'the scalar type (times the conditioning of the input) are accepted'], **kw)


FORM = 'one evaluation = one random problem solved in every formulation of the suite; distinct = (formulation, solver, problem kind, outcome) signatures'
func(9, ['converge.cpp@1', 'converge.cpp@2', 'converge.cpp@3', 'converge.cpp@4', 'converge.cpp@5', 'converge.cpp@6', 'converge.cpp@7'], 'runs on problems whose optimum is known independently',
     'Random linear and well-posed nonlinear least squares with known optimum, every parameter type, solver, derivative source and Hessian storage.',
     FORM, {'converged': 60000, 'one-step': 8000, 'descents': 2000, 'small': 5000})
func(10, ['equiv.cpp@%d' % k for k in range(1, 8)], 'the same problem run in every formulation, compared iteration by iteration',
     'Compared with a dense dynamic-size reference run up to the first decision that rounding could flip.',
     FORM, {'formulations': 100000, 'iterations-compared': 250000, 'runs-with-rejections': 8000, 'whole-runs': 60000})
func(14, ['traits_params.cpp'], 'parameter access through the library compared with direct access for every parameter type',
     'Random values for flat, nested, paired and user-defined parameter types: sizes, increments, casts and single-component moves.',
     'one evaluation = one parameter type with random contents; distinct = (type, sizes) signatures',
     {'casts': 100000, 'increments': 100000, 'single-components': 50000})
func(15, ['ad_ops.cpp', 'diff_eval.cpp'], 'random programs run with dual numbers against an independent extended-precision dual interpreter',
     'Random expression programs over all supported functions, fixed and run-time sizes, every parameter type and residual shape.',
     'one evaluation = one random program differentiated; distinct = (operation sequence or parameter type, residual shape, size) signatures',
     {'dual-operations': 300000, 'dynamic-dual-operations': 200000, 'wide-range': 10000, 'edge-derivatives': 8000, 'jacobians': 200000})
func(16, ['diff_eval.cpp'], 'numerical derivatives against exact ones within the truncation error measured in extended precision, with every evaluated point recorded',
     'Random programs, methods, steps, parameter types and residual shapes; the allowed error is derived from the exact finite difference of the method.',
     'one evaluation = one function differentiated numerically; distinct = (parameter type, residual shape, method, size) signatures',
     {'num-jacobians': 20000, 'forward': 5000, 'central': 5000, 'fast-central': 5000, 'num-evaluations': 50000, 'generated-functions': 20000})
func(17, ['gradcheck.cpp'], 'the gradient checkers given right and deliberately wrong derivatives',
     'Random problems with one component of the gradient or Hessian left right or made wrong; cases where the numerical estimate itself is too coarse are skipped.',
     'one evaluation = one checker call; distinct = (parameter type, function form, sizes, method, defect) signatures',
     {'accepted-expected': 3000, 'rejected-expected': 8000, 'wrong-hessians': 600, 'nonfinite-derivatives': 2500, 'without-hessian': 3000})
func(19, ['linalg.cpp'], 'solutions and inverses substituted back in extended precision, refusals checked against the eigenvalues',
     'Random matrices of all sizes and storages with prescribed eigenvalues, scale, NaN entries and garbage in the unused triangle.',
     'one evaluation = one matrix; distinct = (size, storage, spectrum kind, verdict) signatures',
     {'solutions': 30000, 'inverses': 30000, 'refusals-expected': 30000, 'agreements': 5000, 'nan-inputs': 2500, 'differences': 6000, 'integer-roots': 6000})
func(21, ['loss_norms.cpp'], 'norms and robust losses against extended-precision formulas and derivatives',
     'Random values over many scales, every call form, duals and plain values.',
     'one evaluation = one vector through every norm or loss form; distinct = (type, size, loss, side of threshold) signatures',
     {'norm-values': 300000, 'norm-jacobians': 300000, 'chain-rules': 800000, 'duals': 500000, 'robust-values': 250000, 'robust-jacobians': 500000,
      'loss-jacobians': 1000000, 'inliers': 20000, 'outliers': 20000, 'shape-checks': 40000})
func(22, ['loss_act.cpp'], 'activations and softmax against extended-precision formulas and derivatives',
     'Random values over many scales incl. saturation, every call form, duals and plain values.',
     'one evaluation = one vector through every activation form; distinct = (type, size, function, regime) signatures',
     {'activation-values': 1000000, 'activation-jacobians': 300000, 'chain-rules': 500000, 'duals': 50000, 'shifts': 50000, 'softmaxes': 80000, 'softmax-jacobians': 150000})
func(23, ['loss_maha.cpp'], 'Mahalanobis norms and whitening against extended-precision formulas and derivatives',
     'Random covariances with prescribed spectra, garbage in the unused triangle, every call form, and covariances that must be refused.',
     'one evaluation = one vector and covariance through every form; distinct = (type, size, form, conditioning) signatures',
     {'squared-norms': 150000, 'norms': 100000, 'whitenings': 150000, 'jacobians': 800000, 'refusals': 120000, 'duals': 12000})
func(24, ['loss_maha.cpp'], 'distances and cosine against extended-precision formulas and derivatives',
     'Random vectors over many scales, equal and nearly equal arguments, every call form.',
     'one evaluation = one pair of vectors through every distance; distinct = (type, size, distance, configuration) signatures',
     {'distances': 200000, 'distance-jacobians': 350000, 'cosines': 35000})
RUNS = 'one evaluation = one random problem with random options, run several times; distinct = (solver, parameter type, options, outcome) signatures'
trace(11, 'repeated, logged and observed runs compared bit by bit, and the values passed to the callbacks compared with the recorded calls',
      'The same run is repeated with and without logging, callbacks, saved Hessian and a far time limit; evaluated points and results must be bitwise equal.',
      {'repeated': 6000, 'logged': 5000, 'observed': 5000, 'hessian-toggled': 1000, 'time-limited': 2000, 'callback-calls': 20000},
      srcs=TR + ['determ.cpp@%d' % k for k in range(1, 5)])
func(12, ['reuse.cpp@%d' % k for k in range(1, 5)], 'runs on reused optimizer objects compared bit by bit with runs on new ones',
     'Random sequences of runs (other sizes, aborted, failing and throwing ones) on one object; after reset() the next run must be bitwise that of a new object.',
     RUNS, {'after-reset': 10000, 'without-reset': 6000, 'first-steps': 1500, 'runs-that-threw': 1000, 'solvers-by-hand': 1500})
CHECKS['C13'] = dict(
    runs=[dict(name='threads', build='tsan', srcs=['threads.cpp@%d' % k for k in range(1, 5)], flags=['-DVH_PROP=13'], shards=4)],
    rule='one evaluation = one set of tasks run one after the other and then in 2-8 threads at once; distinct = (tasks, thread count) signatures',
    technique='ThreadSanitizer on concurrent independent optimizations, results compared with the sequential ones', level='exploration',
    level_note='Race-free for the interleavings that happened; ThreadSanitizer reports unordered conflicting accesses even when they did not collide.',
    min_events={'thread-tasks': 5000}, assumptions=['the standard library calls made by the library are race-free as documented'])
func(25, ['dispatch.cpp@%d' % k for k in range(1, 6)], 'requests through every entry point compared with what the options ask for',
     'Valid, empty, unsupported and contradictory requests; the refusal or the solver that ran is decided from the observed calls and steps.',
     RUNS, {'refusals': 3000, 'accepted-requests': 3000, 'first-steps': 1500, 'empty-parameters': 150, 'no-residuals': 200})
CHECKS['C26'] = dict(
    runs=[dict(name='faults', build='asan', srcs=['faults.cpp@%d' % k for k in range(1, 4)], flags=['-DVH_PROP=26'],
               ldflags=['-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc'])],
    rule='one evaluation = one random run repeated with a fault injected at every evaluation, callback and (sampled) allocation; distinct = (solver, parameters, outcome, evaluations, allocations) signatures',
    technique='fault injection under AddressSanitizer: exceptions at every evaluation and callback, refused memory at every allocation', level='exploration',
    level_note='Every evaluation and callback index and the first 13 plus a sample of the later allocation indices of random short runs.',
    min_events={'exceptions': 1000, 'callback-exceptions': 300, 'allocation-failures': 8000, 'out-of-memory': 300, 'used-at-another-size': 1000},
    assumptions=['memory leaked by Eigen\'s own constructors when an allocation inside them fails is not counted'])
func(27, ['describe.cpp@%d' % k for k in range(1, 5)], 'descriptions of arbitrary results and captured logs of whole runs read back and compared with the recorded run',
     'Every stop reason with and without options and list contents; every subset of the logging options over runs of all outcomes; both standard streams captured.',
     RUNS, {'described': 20000, 'values-quoted': 5000, 'lines': 8000, 'final-lines': 3000, 'silent-runs': 3000, 'parameters-read': 1000, 'refusals': 300})
CHECKS['C01'] = dict(
    runs=[dict(name='hostile', build='asan', srcs=['hostile.cpp@%d' % k for k in range(1, 5)], flags=['-DVH_PROP=1'], crash_only=True),
          dict(name='parts', build='asan', flags=['-DVH_PROP=0'], crash_only=True, scale={'quick': 0.2, 'thorough': 0.1},
               srcs=['ad_ops.cpp', 'diff_eval.cpp', 'gradcheck.cpp', 'linalg.cpp', 'loss_act.cpp', 'loss_maha.cpp', 'loss_norms.cpp',
                     'traits_params.cpp', 'cost_ops.cpp', 'cov.cpp']),
          dict(name='runs', build='asan', flags=['-DVH_PROP=1'], crash_only=True, scale={'quick': 0.3, 'thorough': 0.1},
               srcs=TR + ['reuse.cpp@%d' % k for k in range(1, 5)] + ['describe.cpp@2']),
          # uninitialised reads
          dict(name='memcheck', build='plain', flags=['-DVH_PROP=0', '-g1'], crash_only=True, scale={'quick': 0.25, 'thorough': 0.05},
               srcs=['hostile.cpp@%d' % k for k in range(1, 5)], wrapper=['valgrind', '-q', '--error-exitcode=23', '--leak-check=no', '--exit-on-first-error=yes']),
          dict(name='memcheck2', build='plain', flags=['-DVH_PROP=0', '-g1'], crash_only=True, scale=0.004,
               srcs=['ad_ops.cpp', 'diff_eval.cpp', 'linalg.cpp', 'loss_act.cpp', 'loss_maha.cpp', 'loss_norms.cpp', 'cov.cpp'],
               wrapper=['valgrind', '-q', '--error-exitcode=23', '--leak-check=no', '--exit-on-first-error=yes'])],
    rule='one evaluation = one case of a harness run under AddressSanitizer and UndefinedBehaviorSanitizer; distinct = signatures of those cases',
    technique='AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck on hostile and ordinary workloads', level='exploration',
    level_note='No report for the executed cases.',
    min_events={'runs': 8000, 'covariances': 3000, 'evaluations': 50000}, assumptions=['Eigen and the standard library are only monitored where their code is inlined'])
CHECKS['ALL'] = dict(runs=[dict(name='trace', build='plain', srcs=TR, flags=['-DVH_PROP=0'])], rule='all trace verdicts', internal=True)
