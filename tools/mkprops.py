"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib

M = 'fides/minimize.py'; S = 'fides/steps.py'; SP = 'fides/subproblem.py'
T = 'fides/trust_region.py'; SB = 'fides/stepback.py'
H = 'fides/hessian_approximation.py'; C = 'fides/constants.py'; L = 'fides/logging.py'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


p('C01', 'The objective is only ever evaluated inside the bounds',
  'For every feasible start and every combination of bounds (finite, one-sided, infinite, lower < upper), subproblem solver, step-back strategy and Hessian scheme, every point at which the objective is evaluated, and every point the optimizer reports (final and best-seen), lies within the bounds in every component, exactly and without a rounding allowance. '
  'The first evaluated point is exactly the given start, except that components on a bound may be moved off it by a rounding-sized amount. '
  'A start that violates a bound by more than a rounding error is refused with an error and the exceeded-boundary exit flag before the objective is evaluated at all.',
  ['inputs', 'configurations', 'histories'],
  'all objectives, bounds, feasible starts, options, solver x step-back x Hessian-scheme combinations, and every iterate of the run',
  'The tests never look at the evaluated points: they only compare the end point of two 2-D problems with two fixed boxes.',
  [M, S, SB],
  [('Step.step_back', f'{S}'), ('Optimizer.check_in_bounds', M), ('Optimizer.make_non_degenerate', M), ('TRStepReflected/TRStepTruncated break points', S)],
  ['every call of the objective', 'minimize() return value', 'Optimizer.x / x_min'])

p('C02', 'The reported result is one coherent snapshot of an evaluated point',
  'When a run returns, the reported point was evaluated in that run, the reported value and gradient are exactly (bit for bit) what the objective returned there, and the reported Hessian is the objective\'s Hessian there or, with an approximation scheme, the current matrix of that scheme. '
  'The returned tuple and the optimizer\'s attributes agree, and the same holds for the best-seen point, value and gradient.',
  ['inputs', 'configurations', 'histories'],
  'all objectives, starts, bounds, options and Hessian schemes; in particular runs that end at or next to a bound, and runs whose last trial was rejected',
  'The tests compare x with x_min only if the values are equal, and only up to np.isclose; no test re-evaluates the objective at the reported point.',
  [M], [('Optimizer.update', M), ('Optimizer.minimize return', M), ('Optimizer.track_minimum', M), ('Optimizer.make_non_degenerate', M)],
  ['objective call log vs. minimize() return value and Optimizer.x/fval/grad/hess/x_min/fval_min/grad_min'])

p('C03', 'Accepted values strictly decrease and rejected trials change nothing',
  'Along every run the objective value at the current iterate never increases, and strictly decreases whenever a trial point is accepted; the returned value is never above the value at the start. '
  'After a rejected trial the current point, value, gradient and Hessian (approximation) are exactly what they were before it; after an accepted one they are exactly the trial\'s.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all objectives (including non-convex and intermittently non-finite ones), all configurations, every iteration of the run',
  'Tests look only at the final state; an acceptance of an uphill step or a partial overwrite after a rejection is invisible to them because the run recovers.',
  [M], [('Optimizer.update_tr_radius', M), ('Optimizer.update', M)],
  ['Optimizer.x/fval/grad/hess as seen from inside consecutive objective calls', 'recorded history (accept, fval)'])

p('C04', 'The best point ever evaluated is tracked',
  'At every moment of a run the best-seen value is the smallest finite objective value returned so far in that run, whether or not that trial was accepted, and the best-seen point and gradient are exactly those of a trial that attained it. '
  'Non-finite values and values from earlier runs of the same optimizer never count.',
  ['inputs', 'histories', 'fault_sequences'],
  'all objectives, all runs including reruns on one optimizer, runs that abort with an error, and runs with non-finite trial values',
  'Tests only assert fval >= fval_min at the end of a run.',
  [M], [('Optimizer.track_minimum', M), ('Optimizer._reset', M)],
  ['Optimizer.x_min/fval_min/grad_min inside objective calls and after the run vs. the objective call log'])

p('C05', 'Acceptance and trust-region radius follow the agreement ratio',
  'In every iteration the agreement ratio equals (actual reduction minus the affine-scaling correction) divided by the reduction that the local quadratic model predicts for exactly the step that was taken, and is zero if no reduction is predicted or the trial value is not finite; the trial is accepted if and only if this ratio is positive. '
  'The radius starts at delta_init; it is multiplied by gamma2 if the ratio is at least eta and the scaled step reached at least 90% of the radius, is set to the smaller of gamma1 times the radius and a quarter of the scaled step length if the ratio is at most mu, and is otherwise unchanged (radii beyond 1e70, whose use would overflow, may be cut off there).',
  ['inputs', 'configurations', 'histories'],
  'all objectives, all values of delta_init, mu, eta, gamma1, gamma2, all solvers and step-back strategies, every iteration',
  'No test inspects the ratio or the radius; a wrong prediction or radius law only changes the number of iterations.',
  [M, S, T], [('Optimizer.update_tr_radius', M), ('Step.calculate / quadratic_form', S), ('get_affine_scaling', M)],
  ['objective call log', 'Optimizer.delta/delta_iter/tr_ratio', 'recorded history (tr_ratio, tr_radius, accept)'],
  [('delta', 'trust region radius', M), ('tr_ratio', 'agreement ratio', M)])

p('C06', 'Proposed steps stay inside the scaled trust region',
  'Every step the optimizer proposes, measured in the affine-scaled variables (distance to the bound the gradient points to), is no longer than the current trust-region radius up to rounding-size slack.',
  ['inputs', 'configurations'],
  'all points, gradients, Hessian models (definite, indefinite, singular, ill-conditioned, non-symmetric), radii, bounds, solvers and step-back strategies',
  'Tests check the norm only for one 3x3 diagonal subproblem; steps assembled from reflections, truncations and refinements are never measured.',
  [S, T, SB, SP], [('Step.compute_step', S), ('TRStepReflected/TRStepTruncated', S), ('solve_nd_trust_region_subproblem', SP)],
  ['trust_region() result', 'trial points seen by the objective together with Optimizer.delta_iter'])

p('C07', 'The proposed step is the best candidate and beats the gradient step',
  'The value of the quadratic model at the proposed step never exceeds its value at zero, is reported truthfully (it is the model value of exactly the displacement that is applied), and is at most that of the scaled-gradient step stepped back from the bounds whenever the full solver or the CG solver is used or the model is positive definite. '
  'If no bound interferes, the full solver\'s step attains the global minimum of the model over the trust region, the 2D solver\'s step is at least as good as any step in the span of the Newton direction and the gradient if the model is positive definite, and at least as good as any step along the direction of most negative curvature if it is indefinite. '
  'A step of the CG solver that ends inside the trust region leaves at most half of the model\'s gradient. '
  'With a single variable the step is the exact minimiser of the model within the radius, cut to the step-back fraction of the distance to a bound it would cross. '
  'A non-symmetric Hessian model stands for its symmetric part.',
  ['inputs', 'configurations'],
  'all points, gradients, Hessian models, radii, bounds, solvers and step-back strategies',
  'No test evaluates the model at a proposed step; a step with a mis-stated prediction still converges on the sample problems.',
  [T, S, SB], [('trust_region candidate selection', T), ('Step.calculate', S), ('GradientStep', S)],
  ['trust_region() result evaluated against an independent model'])

p('C08', 'The n-dimensional trust-region subproblem is solved to global optimality',
  'For every symmetric matrix, every gradient and every positive radius, the n-dimensional subproblem solver returns a step of length at most the radius (up to 1e-6 relative plus square-root-of-machine-precision slack) whose quadratic value is the global minimum over the ball up to rounding, including singular, indefinite, repeated-eigenvalue, nearly hard and hard cases. '
  'A zero radius yields the zero step, and the reported case says whether the solution is interior or on the boundary.',
  ['inputs'],
  'all symmetric matrices of any dimension, gradients and radii, including those with gradient components along the lowest eigenvector that are zero, tiny or dominant',
  'The tests use one diagonal 3x3 matrix and one gradient with a few radii and check local optimality along sampled directions.',
  [SP], [('solve_nd_trust_region_subproblem', SP), ('secular/slam', SP)],
  ['solve_nd_trust_region_subproblem return value'])

p('C09', 'The one-dimensional trust-region subproblem is solved to global optimality',
  'For every symmetric matrix, gradient, search direction, offset inside the trust region and radius, the one-dimensional solver returns a finite step length that keeps offset plus step inside the radius (up to rounding) and minimises the quadratic along the line within the radius; a zero direction or zero radius yields a zero step.',
  ['inputs'],
  'all matrices, gradients, directions (not only normalised ones), offsets up to the trust-region boundary and radii',
  'Tests call it with one matrix, and directions and offsets that are multiples of each other.',
  [SP], [('solve_1d_trust_region_subproblem', SP), ('get_1d_trust_region_boundary_solution', SP)],
  ['solve_1d_trust_region_subproblem return value'])

p('C10', 'The exit flag states the true reason for stopping',
  'A run stops exactly at the first iteration at which a documented criterion is met, and the exit flag names that criterion: function tolerance only after a trial with ratio above mu whose value differs from the previous one by less than fatol + frtol*|f|, step tolerance only if the scaled step is shorter than xtol, gradient tolerance only if the gradient at the reported point satisfies gatol or grtol, iteration limit, time limit or vanished radius only if those hold. '
  'The converged attribute is true exactly for the three tolerance flags, and a convergence flag is never raised on the strength of a rejected or non-finite trial\'s gradient. Flags are distinct, positive for convergence and negative otherwise.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all objectives (including plateaus and non-finite regions), all tolerance options, every iteration of the run',
  'Tests assert the flag only for the iteration and time limits on one problem.',
  [M, C], [('Optimizer.check_convergence', M), ('Optimizer.check_continue', M)],
  ['Optimizer.exitflag/converged/iteration after the run vs. objective call log and state seen inside objective calls'])

p('C11', 'Iteration, evaluation and time budgets are respected',
  'A run performs at most maxiter iterations and exactly one objective evaluation per iteration plus one at the start, for every maxiter including zero. '
  'No iteration is started once the remaining wall time is smaller than the average time per iteration so far, and a run that stops for another reason had budget left.',
  ['inputs', 'configurations', 'schedules'],
  'all iteration and time limits and all patterns of evaluation duration, including slow first, slow last and varying evaluations, on any objective and configuration',
  'One test with real wall time on a single problem; evaluation counts are never checked.',
  [M], [('Optimizer.check_continue', M), ('Optimizer.minimize loop', M), ('Optimizer._reset starttime', M)],
  ['number of objective calls', 'virtual clock', 'Optimizer.iteration/exitflag'])

p('C12', 'Non-finite evaluations are contained',
  'If a trial point\'s objective value is not finite, that trial is rejected, the trust region shrinks and the run goes on (or stops for a documented reason that truly holds) whatever gradient or Hessian came with it; if the value at the start is not finite, or a finite value comes with a non-finite gradient or Hessian, the run stops with an error and the not-finite exit flag. '
  'A run over an objective that returns only finite data at finite points never evaluates, reports or returns anything non-finite.',
  ['fault_sequences', 'inputs', 'histories'],
  'all patterns of NaN and infinities in value, gradient and Hessian over the evaluations of a run, in all configurations',
  'One test with uniformly random NaN in everything that only asserts that an error is raised eventually.',
  [M], [('Optimizer.check_finite', M), ('update_tr_radius non-finite branch', M), ('track_minimum', M)],
  ['objective call log with injected faults', 'exception / exit flag', 'Optimizer state'])

p('C13', 'Runs are deterministic and independent of earlier runs',
  'Minimising from a given start gives exactly the same sequence of evaluations, result, exit flag and history no matter whether the optimizer and its Hessian approximation object are fresh or have been used before, and no matter how the earlier runs ended (convergence, budget, exception from the objective, non-finite data, invalid input). '
  'Results already returned by earlier runs are not altered by later ones.',
  ['histories', 'configurations', 'fault_sequences'],
  'all sequences of runs on one optimizer or sharing one Hessian approximation object, with any outcomes of the earlier runs',
  'Tests reuse optimizers and schemes but never compare a reused one with a fresh one.',
  [M, H], [('Optimizer._reset', M), ('HessianApproximation._init_mat', H)],
  ['objective call logs, results and histories of repeated and fresh runs'])

p('C14', 'Optimizers running concurrently do not influence each other',
  'Any number of optimizers running in parallel threads, with separate objectives and approximation objects, each produce exactly the evaluations, result, exit flag and history they produce when run alone, and each logs only through its own logger with its own verbosity.',
  ['schedules', 'configurations'],
  'all interleavings of threads at objective evaluations and inside the optimizer, any mix of configurations',
  'The test-suite is single-threaded.',
  [L, M], [('create_logger', L), ('per-instance state', M)],
  ['per-thread objective call logs and results', 'log records per logger'])

p('C15', 'Caller-owned arrays are never modified and never relied upon',
  'The optimizer never modifies the start point, bounds, initial Hessian, options or anything the objective returned, nor the points it handed to the objective; and the run is the same whether the objective returns fresh arrays or reuses (overwrites) its own output buffers on every call or overwrites the point it was handed, and whether inputs and outputs are given as integer, single- or double-precision numbers of the same values. Hessian-approximation objects likewise neither modify nor keep the arrays they are given, and the matrices they and a finished run hand out are independent copies: overwriting them does not change the approximation, and later updates or runs do not change them.',
  ['inputs', 'histories'],
  'all objectives with fresh or reused output buffers, all input dtypes of equal value, all configurations',
  'Every test objective returns freshly allocated float arrays and no test looks at its inputs afterwards.',
  [M, H], [('copies in Optimizer.__init__/minimize/update', M), ('Funout', M), ('_init_mat', H)],
  ['byte images of caller-owned arrays before and after', 'objective call logs of paired runs'])

p('C16', 'The history file records every run completely, once, and truthfully',
  'When a history file is configured, every completed run adds exactly one group, named by its (not yet used) start id, in which every recorded quantity has one entry per iteration and the entries agree with what happened (trial value, acceptance, ratio, radius used, gradient norm, step length, step type, Hessian eigenvalue range, and how the step was found: directions searched, reflections, truncations, step-back fraction, definiteness and condition of the model). '
  'Groups written by earlier runs, by any optimizer, are left unchanged, and runs never share entries.',
  ['histories', 'configurations', 'inputs'],
  'all sequences of runs of one or several optimizers over one file, with given or generated ids, all configurations, zero-iteration runs and runs that fail in between',
  'The test counts the groups in the file and never reads a data set.',
  [M], [('Optimizer.track_history', M), ('h5py group creation in minimize', M), ('_reset history', M)],
  ['the HDF5 file read back after every run vs. the objective call log'])

p('C17', 'Broyden-class updates satisfy the secant equation and keep definiteness',
  'For every symmetric current matrix, step and gradient change with positive curvature and nonzero quadratic form of the step, the BFGS, DFP and Broyden-class schemes produce a symmetric matrix that maps the step to the gradient change and equals the documented convex combination of the BFGS and DFP updates, positive definite if the current one was and the mixing parameter is in [0,1]. '
  'If the curvature is not positive and the curvature condition is enforced, the matrix is left exactly unchanged; the reported update is always the difference between new and old matrix. The condition is enforced unless switched off, and a mixing parameter outside [0,1] is announced by a warning.',
  ['inputs', 'histories'],
  'all matrices, vector pairs, mixing parameters and sequences of updates',
  'One test applies single random updates and asserts nothing about the result.',
  [H], [('broyden_class_update', H), ('IterativeHessianApproximation.update', H)],
  ['get_mat()/get_diff() after update() on the scheme'])

p('C18', 'Rank-one updates (SR1, good and bad Broyden) satisfy their defining equations',
  'For every current matrix, step and gradient change, SR1, good-Broyden and bad-Broyden updates change the matrix by at most rank one so that it maps the step to the gradient change, SR1 keeping symmetry; a degenerate update (SR1 denominator too small relative to the vectors, non-positive product of the gradient change with the matrix times the step for bad Broyden, a zero step, or an already exact matrix) leaves the matrix unchanged and finite. '
  'The reported update is always the difference between new and old matrix.',
  ['inputs', 'histories'],
  'all matrices, vector pairs and sequences of updates, including exact and degenerate ones',
  'SR1/BG/BB are only run through two sample problems, and bad Broyden is even exempted from the convergence assertion.',
  [H], [('SR1/BG/BB', H)], ['get_mat()/get_diff() after update() on the scheme'])

p('C19', 'Hybrid schemes switch exactly when documented and never back',
  'HybridFixed and HybridFraction use the user-supplied Hessian until their switching criterion is first met and from the following update on the wrapped iterative scheme, which has received every update from the start of the run; the switch is irreversible within a run and undone at the start of the next. '
  'FX uses the Gauss-Newton matrix whenever the relative reduction of the squared residual reaches the tolerance and otherwise applies the wrapped scheme\'s update to the last matrix.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of updates, counters, thresholds and wrapped schemes',
  'Tests run the schemes on two sample problems with default thresholds, on which the switch is hardly ever taken, and look only at the end point.',
  [H, M], [('HybridFixed/HybridFraction/FX.update', H), ('Optimizer.update counters', M)],
  ['get_mat() after each update() vs. a reference automaton'],
  [('_switched', 'whether the iterative scheme is in use', H)])

p('C20', 'Structured secant schemes satisfy their structured secant equations',
  'For every step, gradient change, residual and Gauss-Newton matrix, SSM, TSSM and GNSBFGS maintain their second-order term so that the total matrix is the Gauss-Newton matrix plus that term (scaled by the residual norm for TSSM; plus residual norm times identity for GNSBFGS when its curvature test fails) and maps the step to the structured gradient change whenever its curvature is positive, as in the cited papers. '
  'Arguments that are left out have their documented values (BFGS, curvature condition enforced). The matrices stay symmetric, and the reported updates are the differences of successive matrices.',
  ['inputs', 'histories'],
  'all sequences of steps, residuals and Jacobians, mixing parameters and tolerances',
  'Tests only check the end point of one 2-D problem.',
  [H, M], [('SSM/TSSM/GNSBFGS.update', H), ('Optimizer.update yb', M)],
  ['get_mat()/get_diff()/get_structured_diff() after update()'])

p('C21', 'Approximation schemes receive exactly the accepted steps and drive the model',
  'With an approximation scheme, the scheme is initialised at the start of every run with the identity, the given initial Hessian, or the objective\'s Hessian at the start if requested; it is updated exactly once per accepted step, with that step, the gradient change and, where applicable, the residual and Gauss-Newton data of exactly that step, and not at all for rejected steps. '
  'The model Hessian used in the next iteration, and reported in the end, is exactly the scheme\'s current matrix.',
  ['histories', 'configurations', 'inputs'],
  'all schemes, initialisations, objectives and accept/reject sequences',
  'Tests never observe the updates; hess0 tests only assert that the run completes or is not slower.',
  [M, H], [('Optimizer.update dispatch', M), ('Optimizer.minimize hess0 handling', M), ('_init_mat', H)],
  ['update() arguments recorded by a subclass of the scheme', 'Optimizer.hess inside objective calls'])

p('C22', 'The residual interface is equivalent to supplying value, gradient and Hessian',
  'Minimising a residual function together with its derivative gives, up to rounding, the run that results from supplying half the squared norm, its gradient and (if no approximation scheme is used) the Gauss-Newton Hessian, for every configuration; with a scheme that needs residuals these are the value and gradient used; extra arguments are passed to the objective unchanged on every call.',
  ['inputs', 'configurations'],
  'all residual functions (any number of residuals, including fewer than variables), starts, bounds and configurations',
  'Tests use residuals only together with structured schemes and one problem.',
  [M], [('FunEvaluator.__call__', M), ('Optimizer.__init__ nargout', M)],
  ['objective call logs and results of paired runs'])

p('C23', 'Malformed objectives and starts are rejected before optimization',
  'If the objective returns the wrong number of outputs, a non-scalar value, or a gradient or Hessian whose dimensions do not match the variables, or if the start is not a vector or an initial Hessian has the wrong dimensions, the call fails with a ValueError without performing a single iteration, and an exception raised by the objective reaches the caller unchanged. A residual-based scheme with a value objective, or the reverse, is refused with a ValueError on construction. '
  'Well-formed objectives (Python or NumPy scalars, any dimension from one up) are never rejected.',
  ['inputs', 'configurations'],
  'all shapes and kinds of objective outputs, start points and initial Hessians, in all configurations',
  'Six fixed malformations of one 2-D objective without approximation schemes.',
  [M, H], [('FunEvaluator nargout check', M), ('Funout.checkdims', M), ('_init_mat', H)],
  ['exception type, number of objective calls, Optimizer.iteration'])

p('C24', 'Options are validated on construction and take effect however they are spelled',
  'Constructing an optimizer fails with a ValueError for an unknown option or an invalid choice and a TypeError for a value of the wrong type, and succeeds for every valid value; giving an option by enum member or by its string name, and a choice by enum member or by string, has exactly the same effect on the run, as has omitting it or giving its documented default. '
  'The unsupported combination of CG solver and refinement is refused in every spelling.',
  ['configurations', 'inputs'],
  'all option names, spellings and values, valid and invalid',
  'Four hand-picked invalid options.',
  [C, M], [('validate_options', C), ('DEFAULT_OPTIONS / get_option', M)],
  ['constructor outcome; objective call logs of paired runs'])

p('C25', 'Runs converge to the constrained minimiser of strongly convex problems',
  'On every strongly convex, smooth, moderately conditioned problem with any bounds, started anywhere feasible, with default tolerances and enough iterations, every supported combination of subproblem solver, step-back strategy and Hessian scheme (except Broyden\'s bad method, which has no convergence guarantee) ends, within the default iteration limit, at a value above the constrained optimum by at most a thousandth of the possible decrease plus a small absolute tolerance.',
  ['inputs', 'configurations'],
  'random strongly convex quadratics and smooth perturbations of them in dimensions 1 to 8 with any mixture of bounds, active or not, all configurations',
  'Two 2-D problems with three fixed boxes; with an active bound no test checks the solution at all.',
  [M, T, S, SB, SP, H], [('the whole algorithm', M)],
  ['minimize() result vs. an independent bound-constrained reference solution'])

p('C26', 'Every run on valid input terminates cleanly',
  'On every well-formed finite objective, whatever its curvature and in every configuration, each iteration takes a bounded amount of computation, each proposed step is finite, and the run ends by returning a result with a true exit flag; it never hangs and never raises an internal error.',
  ['inputs', 'configurations', 'histories'],
  'all finite objectives including linear, flat, singular, non-convex and badly scaled ones, starts at stationary points and on bounds, symmetric or non-symmetric Hessian models, in all configurations',
  'Tests use well-conditioned points of two functions.',
  [S, SP, M, T], [('TRStepSteihaug.conj_grad loop', S), ('TRStep2D degenerate cases', S), ('boundary solution', SP), ('stepback loops', SB)],
  ['exception type', 'interpreter branch/jump event counts per objective evaluation', 'finiteness of trial points'])

p('C27', 'The progress log reports every iteration once, faithfully, and honours verbosity',
  'At INFO level each iteration, and the start, produces exactly one progress line whose iteration number, value, gradient norm, ratio, radius, step norm and acceptance mark agree with what happened, column headers precede the start line and every tenth iteration line, and a run that stops for a documented reason logs that reason once; no record below the configured level is emitted. '
  'Each run logs through a logger of its own.',
  ['histories', 'configurations'],
  'all runs, verbosity levels and configurations',
  'No test reads the log.',
  [L, M], [('create_logger', L), ('Optimizer.log_step/log_step_initial', M)],
  ['log records captured from the run\'s logger vs. the objective call log'])

p('C28', 'Renaming, mirroring or reordering the problem only renames the run',
  'Permuting the variables, reversing the orientation of axes (with bounds, start and initial Hessian transformed alike) and rearranging residuals yields the same run: the same sequence of evaluated points after undoing the renaming and the same exit flag, up to rounding. '
  'Situations in which a convention has to break an exact tie (a vanishing gradient component, a point exactly on a bound, several bounds reached at the same fraction of a step, a repeated eigenvalue of negative curvature) or in which rounding decides are excepted, as is the refinement strategy.',
  ['inputs', 'configurations', 'histories'],
  'all objectives, permutations, axis orientations, bounds, starts, options, solver x step-back x Hessian-scheme combinations',
  'No test compares two runs; the sample problems are two-dimensional and always oriented the same way.',
  [M, T, S, SB, SP, H], [('the whole algorithm', M), ('get_affine_scaling', M), ('step_back break points', S)],
  ['objective call logs of paired runs'])

p('C29', 'Each step-back strategy delivers what it documents',
  'When the trust-region step meets a bound: with "truncate" the proposed step is at least as good, on the quadratic model, as every point obtained by stopping the variables that meet their bound at the step-back fraction and solving the model problem again for the remaining variables (within the directions the solver works in); with "reflect" as every point obtained by mirroring the direction at the bound and minimising along it, repeatedly, and with "reflect_single" once. '
  '"mixed" is at least as good as both, and "reflect" as "reflect_single", on the same subproblem. On convex models "refine" attains nine tenths of the decrease of the truncation path, or more, in most cases. The step reports the number of variables that were reflected or truncated to obtain it.',
  ['inputs', 'configurations'],
  'all points, gradients, Hessian models, radii, bounds and solvers (truncation paths for the full and CG solvers and, on convex models, the 2D solver; reflection paths and inclusions for all solvers)',
  'No test looks at the proposals of a strategy; all strategies converge on the sample problems whatever they propose.',
  [SB, S, T], [('stepback_reflect', SB), ('stepback_truncate', SB), ('TRStepReflected/TRStepTruncated/RefinedStep', S), ('candidate list in trust_region', T)],
  ['trust_region() results under all strategies vs. independently computed paths'])

p('C30', 'Watching a run does not change it, and a run leaves process-wide state alone',
  'Logging at any level with any handler, writing a history file, reading the public state of the optimizer and of its Hessian approximation during evaluations, and giving the run an identifier change nothing: the same evaluations, result, errors and final state, bit for bit, as an unobserved run. '
  'A run leaves process-wide state as the caller set it (floating-point error handling, NumPy random state and print options, warning filters, root logger, environment, working directory, signal handlers, threads, open files), and writes nothing to standard output and no file other than the requested history.',
  ['configurations', 'histories', 'inputs'],
  'all runs (including runs that end with an error), verbosity levels, history on or off, and caller settings',
  'Tests never run the same problem with and without logging and history, and do not look at process state.',
  [M, L], [('Optimizer.track_history', M), ('Optimizer.log_step', M), ('create_logger', L)],
  ['objective call logs of observed and unobserved runs', 'process state before and after a run'])

p('C31', 'Optimizers and approximation schemes can be copied and pickled',
  'A deep copy or pickle round trip of an optimizer, taken before, during or after a run, gives an optimizer that runs exactly like a new one and leaves the original unaffected; the same copy of a Hessian approximation in the middle of its history continues exactly as the original would, and neither sees the updates of the other.',
  ['histories', 'configurations'],
  'all schemes, solvers, strategies, moments of copying, orders of running copy and original',
  'No test copies anything; users do so to distribute starts over processes.',
  [M, H, L], [('Optimizer attributes', M), ('HessianApproximation attributes', H)],
  ['objective call logs of copies and originals', 'matrices of copied schemes vs. never-copied twins'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))
print(len(P), 'properties')
