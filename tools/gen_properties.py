#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
I='include/tinyopt/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":I+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","No memory error or undefined behaviour in any supported use",
 "Any supported call of the library (optimizing, differentiating, evaluating losses and distances, solving and inverting systems, printing results) performs no out-of-bounds, dangling or uninitialised access, no leak and no undefined operation, and never aborts. This holds for extreme dimensions, container-of-container parameters, residuals that do not depend on the parameters, NaN, infinite or huge values, and solvers that fail at any iteration.",
 ["inputs","programs","configurations"],
 "all parameter types, sizes, solver/derivative/Hessian-storage choices and function responses, valid per the documented API",
 "Tests run without sanitizers on a handful of small fixed sizes; an overread of a heap vector or a use of stale storage usually yields a plausible number.",
 ["traits.h","diff/optimize_autodiff.h","diff/auto_diff.h","optimizers/optimizer.h","solvers/lm.h","stop_reasons.h","math.h","losses/classif.h"],
 [("container parameter update","traits.h"),("Jet extraction into Jacobian rows","diff/optimize_autodiff.h"),("resizing and eval-only rebuild","solvers/lm.h"),("stop description","stop_reasons.h")],
 observe=["ASan/UBSan reports","valgrind memcheck reports","process exit status"])

p("C02","Every optimization call terminates within its evaluation budget",
 "For every user function and every options setting, an optimization call returns after at most the requested number of iterations plus one (plus one more when the final cost check is enabled), and within one iteration the user function is evaluated at most as many times as the consecutive-failure limit, or a few hundred times when that limit is disabled. An explicit per-call iteration budget takes precedence over the one in the options, and a duration limit stops the run no later than the end of the iteration that exceeded it.",
 ["inputs","configurations","fault_sequences"],
 "all user functions incl. those whose cost only grows, whose systems can never be solved or that return nothing, and all stop options incl. disabled (0) limits and extreme (65535/255) limits",
 "Non-termination needs disabled limits together with a system that never becomes solvable; tests only use benign functions.",
 ["optimizers/optimizer.h","optimizers/options.h","output.h"],
 [("outer iteration loop","optimizers/optimizer.h"),("solver retry loop","optimizers/optimizer.h"),("failure counters","output.h")],
 [("failure/iteration counters","bounded-width counters that gate both loops","output.h")],
 ["number of user-function calls","returned iteration count"])

p("C03","The reported run statistics match what the user function observed",
 "Per-iteration cost, step-size and acceptance lists have equal length; each cost is the (scaled) value the user function returned at that iteration, each step size is the squared norm of the step computed there, and an iteration is marked accepted exactly when its cost is strictly lower than every earlier one (the first always is). The final cost and number of residuals are those of the last accepted iteration, and iteration, failure and consecutive-failure counts equal the numbers that actually occurred without wrapping.",
 ["inputs","histories","configurations"],
 "all sequences of costs/derivatives a user function may return, all solvers and cost-scaling options",
 "Tests look at final_cost and list sizes of runs that converge monotonically; mixed accept/reject histories and counts above 255 never occur.",
 ["optimizers/optimizer.h","output.h","cost.h"],
 [("history update","optimizers/optimizer.h"),("statistics fields","output.h")],
 [("errs/deltas2/successes/final_cost","per iteration history and best cost","output.h")],
 ["Output fields against a client-side record of every call"])

p("C04","The reported stop reason is true and a failure is never called success",
 "Whatever stop reason is returned, its documented condition held at the last iteration (thresholds, failure limits, iteration or time budget, user request, non-finite system, unsolvable system, nothing to optimize, out of memory), and no enabled convergence condition had already held at an earlier iteration. Failures to solve, non-finite costs or steps and missing residuals are always reported as failures, and Succeeded()/Converged() classify the reasons as documented.",
 ["inputs","histories","configurations","fault_sequences"],
 "all response sequences, thresholds and limits, incl. several conditions becoming true at the same iteration",
 "Tests assert Succeeded/Converged on converging problems; coinciding conditions, timeouts with failures and disabled thresholds are not combined.",
 ["optimizers/optimizer.h","stop_reasons.h","output.h"],
 [("stop tests","optimizers/optimizer.h"),("time-out","optimizers/optimizer.h"),("classification","output.h")],
 observe=["Output.stop_reason vs client-side record"])

p("C05","Rejected steps are rolled back and x never degrades",
 "Every point the user function is evaluated at is, up to rounding, the starting point, the best point found so far, or that best point plus the step last computed, and the parameters returned are the best point found or that point plus one last step. When the run ends because of a failure (unsolvable system, non-finite cost or step, no residuals) or too many non-decreasing steps, the returned parameters are the best evaluated point; with the final cost check enabled and the iteration budget exhausted they are exactly a point whose cost is the reported final cost. Finite starting parameters never become non-finite.",
 ["histories","inputs","fault_sequences"],
 "all interleavings of accepted, rejected, unsolvable and non-finite iterations, every solver and parameter type",
 "Roll-back happens by subtracting the last step; only a history with consecutive rejections, or a failure right after a tentative move, exposes a missing or doubled roll-back.",
 ["optimizers/optimizer.h","traits.h"],
 [("move and roll-back","optimizers/optimizer.h"),("parameter update","traits.h")],
 [("last step","step to be undone on rejection","optimizers/optimizer.h")],
 ["parameters passed to the user function","x after return"])

p("C06","Gauss-Newton steps solve the accumulated normal equations",
 "Every step taken by Gauss-Newton satisfies H dx = -g for the gradient (after the configured clipping) and Hessian accumulated by the user function at the current point, for fixed, dynamic and sparse systems, full or upper-triangular-only Hessians, and both decomposition and inverse modes. Systems that are indefinite, or whose diagonal falls below the configured minimum, give a reported failure and no step.",
 ["inputs","configurations"],
 "all positive definite (and non positive definite) systems of any dimension, storage and solver mode",
 "Tests only look at the converged end result, which a wrong step direction or a missing mirrored triangle still reaches on small symmetric problems.",
 ["solvers/gn.h","solvers/base.h","math.h"],
 [("Build/Solve","solvers/gn.h"),("LDLT solve","math.h"),("clipping","solvers/base.h")],
 observe=["difference of consecutive evaluated points vs recorded g,H"])

p("C07","Levenberg-Marquardt steps use a bounded, correctly adapted damping",
 "Every step taken satisfies (H + lambda*diag(H)) dx = -g for the most recently accumulated g and H and one lambda within the configured range, starting at the configured initial damping, and the damping is never compounded over repeated attempts on the same system. Lambda shrinks by at least the good factor after an accepted step (unless the step-quality option, which may let it grow up to twofold, is on) and grows by at least the bad factor after a rejected or unsolvable one, up to the range limits; an initial damping of 0 disables damping altogether, giving exactly the Gauss-Newton iterates.",
 ["histories","inputs","configurations"],
 "all accept/reject/unsolvable patterns, damping options, dense and sparse, fixed and dynamic systems",
 "Accumulated damping errors only show after several rejections on the same linear system, which converging test problems do not produce, and a wrong damping still converges.",
 ["solvers/lm.h","solvers/gn.h","optimizers/optimizer.h"],
 [("diagonal damping and re-damping","solvers/lm.h"),("GoodStep/BadStep/FailedStep","solvers/lm.h")],
 [("lambda, previous lambda, bad factor","damping state","solvers/lm.h")],
 ["damping recovered from observed steps"])

p("C08","Gradient-descent steps are exactly -lr times the clipped gradient",
 "Every gradient-descent step equals minus the learning rate times the gradient supplied by the user function, each component limited to the configured clipping range and nothing else; a step that does not reduce the cost is undone. With automatic derivatives, the step points along minus the gradient of the user's cost, whatever its sign.",
 ["inputs","configurations"],
 "all gradients, learning rates, clipping values, fixed and dynamic dimensions, manual and automatic derivatives",
 "Tests check convergence of a few convex functions, which tolerates a wrong scale or clipping.",
 ["solvers/gd.h","solvers/base.h","diff/optimize_autodiff.h"],
 [("Solve","solvers/gd.h"),("clipping","solvers/base.h")],
 observe=["difference of consecutive evaluated points"])

p("C09","Well-posed problems converge to their known optimum",
 "On well-posed problems with a known minimiser (linear least squares, mildly nonlinear curve and pose fits, convex costs) every applicable combination of solver, parameter type, derivative source and Hessian storage ends successfully at the minimiser within solver tolerance, with a final cost matching the cost there. Linear least squares is solved by Gauss-Newton in one step.",
 ["inputs","configurations"],
 "randomly generated well-conditioned problems of dimension 1 to tens, from random starting points in the basin of attraction",
 "The tests exercise a few fixed problems and type combinations; regressions confined to one combination or dimension go unnoticed.",
 ["optimize.h","optimizers/optimizer.h","solvers/gn.h","solvers/lm.h","solvers/gd.h","diff/optimize_autodiff.h","diff/num_diff.h","traits.h"],
 [("dispatch","optimize.h"),("iteration","optimizers/optimizer.h"),("derivatives","diff/optimize_autodiff.h")],
 observe=["final x and Output"])

p("C10","Equivalent formulations of a problem give equivalent runs",
 "Formulating the same problem with fixed or dynamic sizes, dense or sparse Hessian, full or upper-only Hessian, decomposition or inverse, automatic or exact manual derivatives, flat vector, matrix, array, std::vector, pair, nested containers or a user-defined type yields the same sequence of costs, the same number of iterations and stop reason, and the same final parameters up to rounding. Single precision follows double precision within single-precision accuracy.",
 ["inputs","configurations","programs"],
 "random problems whose iterates are well separated from the stopping thresholds, all pairs of formulations",
 "Tests check each formulation on its own problem with loose tolerances; they never compare runs with each other.",
 ["optimize.h","optimizers/optimizer.h","traits.h","diff/optimize_autodiff.h","solvers/gn.h","solvers/lm.h","math.h"],
 [("type dispatch","optimize.h"),("parameter traits","traits.h"),("AD accumulation","diff/optimize_autodiff.h")],
 observe=["Output.errs, final x across formulations"])

p("C11","Runs are deterministic and observing them changes nothing",
 "Repeating a run with the same inputs gives bit-identical parameters, costs, step sizes and stop reason, whatever ran before in the process. Enabling any logging option, saving the Hessian, or installing stop callbacks that never request a stop leaves them bit-identical too, and the callbacks receive the true current cost, step and gradient.",
 ["inputs","configurations","histories"],
 "all problems, all subsets of logging options and observers",
 "Tests never repeat a run nor compare runs with different logging; uninitialised state often reads as zero in a fresh process.",
 ["optimizers/optimizer.h","optimizers/options.h","log.h","solvers/lm.h","solvers/gn.h"],
 [("logging block","optimizers/optimizer.h"),("callbacks","optimizers/optimizer.h"),("std-dev logging","solvers/gn.h")],
 observe=["Output, x, callback arguments"])

p("C12","A reused optimizer behaves like a new one",
 "After reset(), an optimizer or solver object that has run any earlier optimizations (converged, rejected, failed, thrown out of, or of another size) produces the same iterates and result as a newly constructed one. Without reset() a later run still starts from derivatives evaluated at its own starting point and never uses the system of an earlier run.",
 ["histories","inputs"],
 "all sequences of runs on one object with differing problems, sizes, budgets and outcomes",
 "Tests construct a new optimizer per run.",
 ["optimizers/optimizer.h","solvers/lm.h","solvers/gn.h","solvers/gd.h"],
 [("reset","solvers/lm.h"),("rebuild flag","solvers/lm.h"),("resize","solvers/gn.h")],
 [("rebuild flag, damping, last cost","state surviving a run","solvers/lm.h")],
 ["derivative requests seen by the user function","Output of reused vs fresh objects"])

p("C13","Independent optimizations may run concurrently",
 "Optimizations, differentiation, losses and linear solves on distinct objects can run in any number of threads, sharing only const options and const user functions, without data races. Each thread obtains exactly the result it would obtain alone.",
 ["schedules","inputs"],
 "all thread interleavings of independent runs sharing const options",
 "Tests are single threaded.",
 ["optimizers/optimizer.h","solvers/lm.h","math.h","diff/num_diff.h","losses/robust_norms.h"],
 [("absence of shared mutable state","optimizers/optimizer.h"),("constants","math.h")],
 observe=["TSan reports","per-thread results vs sequential results"])

p("C14","Composite parameters are updated component by component",
 "For every supported parameter type (scalars, vectors, matrices, std::array, std::vector, std::pair, nested ones, user-defined), the reported dimension is the number of underlying scalars, applying an increment adds each increment component to exactly its own scalar in flattening order and to nothing else, a zero increment changes nothing, and converting to another scalar type preserves every component.",
 ["inputs","programs"],
 "all nestings of supported types incl. dynamically sized elements of differing sizes, and all increments",
 "Tests cover only equal-size fixed elements; elements with run-time sizes and pairs are never updated.",
 ["traits.h","diff/jet_traits.h"],
 [("dims/PlusEq/cast of each specialisation","traits.h")],
 observe=["components before/after the update"])

p("C15","Automatic derivatives equal the true derivatives",
 "For any program composed of the supported arithmetic and elementary functions, evaluating it with the library's dual numbers gives the same value as plain evaluation and the exact derivative (chain rule) with respect to every parameter, identically for compile-time and run-time numbers of parameters, including constants mixed with variables. The differentiation helpers return the residuals and the full Jacobian (rows in residual order, columns in parameter order, zeros where there is no dependence) for scalar, vector and matrix residuals and scalar, vector, matrix, array, std::vector, pair, nested and user-defined parameters.",
 ["programs","inputs"],
 "randomly composed expression programs over all supported functions, at random and special points within the domains of differentiability",
 "Tests differentiate a few fixed polynomials; most functions of the dual-number class are never called, in particular with run-time dimensions.",
 ["3rdparty/ceres/jet.h","diff/jet.h","diff/auto_diff.h","diff/optimize_autodiff.h"],
 [("Jet arithmetic and functions","3rdparty/ceres/jet.h"),("Jacobian extraction","diff/auto_diff.h")],
 observe=["value and derivative vectors"])

p("C16","Numerical derivatives are accurate and side-effect free",
 "Numerical differentiation (forward, central and fast central) returns the residuals at x and a Jacobian within the truncation and rounding error bound of the chosen method and step, for scalar, vector and matrix residuals and scalar, vector, matrix, array, std::vector, pair, nested and user-defined parameters, evaluating the function only at x and at points one or two steps away along single coordinates, and leaves x unchanged. The generated accumulation functions return the gradient J^T r, the Hessian approximation J^T J, the residual norm and the number of residuals.",
 ["inputs","programs","configurations"],
 "random smooth functions, points, methods and step sizes, all parameter and residual types",
 "Tests compare a few functions with loose tolerances and the default method; a perturbation left in place on one coordinate stays below the tolerance.",
 ["diff/num_diff.h"],
 [("NumEval","diff/num_diff.h"),("CreateNumDiffFunc1/2","diff/num_diff.h")],
 observe=["points of evaluation","returned Jacobian"])

p("C17","The gradient checker accepts correct and rejects wrong derivatives",
 "The gradient checkers return true when the supplied gradient (and Hessian approximation) is correct and false when any single component is off by clearly more than the tolerance or is not finite, for dense and sparse Hessians, functions with or without a Hessian argument, all methods, and any parameter dimension; they do not modify x.",
 ["inputs","configurations"],
 "random problems, each derivative component corrupted in turn by small-above-tolerance, large and NaN errors",
 "Tests check only the accepting verdict and one gross error.",
 ["diff/gradient_check.h","diff/num_diff.h","math.h"],
 [("CheckGradient/CheckResidualsGradient","diff/gradient_check.h"),("sparse comparison","math.h")],
 observe=["verdict vs injected error"])

p("C18","Costs aggregate and scale consistently",
 "Accumulating costs adds their values, their residual counts and their inlier counts, with inliers plus outliers always equal to the number of residuals; a residual vector or matrix contributes its squared norm and its size, and log texts are concatenated. The scaling options (norm instead of squared norm, halving, division by the number of residuals) apply exactly as documented to every cost an optimization reports and change neither steps nor iterates.",
 ["inputs","configurations","histories"],
 "all accumulation sequences, sizes, inlier ratios and combinations of scaling options",
 "Tests never accumulate costs with inlier ratios and never combine scaling options.",
 ["cost.h","solvers/base.h"],
 [("operator+=/AddResiduals/NumInliers","cost.h"),("NormalizeCost","solvers/base.h")],
 observe=["Cost fields","Output costs"])

p("C19","Linear solves and inverses are exact or refused",
 "The dense and sparse symmetric solve and inverse functions use only the upper triangle of their input, return a solution or inverse whose residual is at rounding level for every positive definite matrix, and return nothing for matrices with a negative eigenvalue (of any size, including 1x1); the input is not modified. Given a shift offset, the sparse inverse of a matrix that is exactly singular is that of the matrix with the offset added to its diagonal, and regular matrices are unaffected. Sparse and dense variants agree, as do fixed, dynamic and block arguments, and the sparse difference and integer square root helpers return the exact maximum difference and floor of the square root.",
 ["inputs"],
 "random positive definite, indefinite and negative definite matrices of dimension 1 to tens over many scales, full or upper-only storage, dense/sparse/block",
 "Tests invert a handful of small well-scaled full matrices.",
 ["math.h"],
 [("DenseInvCov/SparseInvCov/InvCov","math.h"),("SolveLDLT","math.h"),("SQRT, MaxAbsDiff","math.h")],
 observe=["A*x-b, A*A^-1-I"])

p("C20","The reported Hessian and covariance describe the final system",
 "When saving is enabled the returned Hessian equals the last one accumulated by the user function, free of any damping, whichever iteration the run stopped at and whichever storage is used; when disabled none is returned. The covariance is its inverse (nothing if it has a negative eigenvalue), optionally scaled by the final cost divided by the redundancy (number of residuals minus dimension) when that is positive, and the solver-level covariance and maximum standard deviation agree with it.",
 ["histories","inputs","configurations"],
 "all runs (stopping at the first iteration, after accepted or rejected steps, by any reason), dampings, dense and sparse",
 "Tests compare covariances on converged runs, where damping has shrunk to nothing.",
 ["output.h","solvers/lm.h","solvers/gn.h","optimizers/optimizer.h"],
 [("final_hessian","optimizers/optimizer.h"),("Covariance","output.h"),("un-damped Hessian","solvers/lm.h")],
 observe=["Output.final_hessian, Covariance"])

p("C21","Norms and robust losses match their definitions and derivatives",
 "Each norm (squared L2, L2, L1, L-infinity) returns its mathematical value and each robust loss its documented function of the squared norm, which never decreases as the norm grows, behaves like the squared norm near zero up to a constant, and is continuous at the threshold; every returned scale or Jacobian is the derivative of the returned value. Passing an inner Jacobian yields the chain-rule product, and all ways of calling (value only, flag, inner Jacobian, value-Jacobian pair, dual numbers, scalar, fixed or dynamic vectors) agree.",
 ["inputs","programs"],
 "all losses, arguments from tiny to huge around the threshold, thresholds, argument types and call forms within the domain of differentiability",
 "Tests check a few vectors with the flag form only; scalars, inner Jacobians and threshold neighbourhoods are not covered.",
 ["losses/norms.h","losses/robust_norms.h"],
 [("norm functions","losses/norms.h"),("robust functions","losses/robust_norms.h")],
 observe=["value and Jacobian"])

p("C22","Activations and softmax match their definitions for all inputs",
 "Sigmoid, tanh, ReLU, leaky ReLU return their mathematical value (finite and in range for every finite input, however large) elementwise, and their Jacobian is the exact diagonal derivative, or its product with a supplied inner Jacobian. Softmax and safe softmax return non-negative entries summing to one with the exact Jacobian; the safe variant is finite for every finite input and invariant to a constant shift; scalar, fixed, dynamic and pair call forms agree.",
 ["inputs","programs"],
 "all inputs incl. very large magnitudes, dimensions, call forms",
 "Tests use small inputs and one call form.",
 ["losses/activations.h","losses/classif.h","losses/helpers.h"],
 [("activation definitions","losses/activations.h"),("loss macros","losses/helpers.h"),("softmax","losses/classif.h")],
 observe=["value and Jacobian"])

p("C23","Mahalanobis norms and whitening are consistent",
 "The squared Mahalanobis norm equals x^T C^-1 x for a covariance matrix, a vector of variances or a scalar variance; the norm is its square root, and whitened residuals (from a covariance, standard deviations or an upper square-root information factor) have a squared Euclidean norm equal to it. Every returned Jacobian is the derivative of the returned value (times the inner Jacobian if given), only the upper triangle of covariances and factors is used, and covariances with a negative eigenvalue are refused by an exception.",
 ["inputs","programs"],
 "all vectors and covariances over many scales, fixed/dynamic sizes, all call forms",
 "Tests use one small covariance per form and never a filled lower triangle.",
 ["losses/mahalanobis.h","math.h"],
 [("MahaSquaredNorm/MahaNorm","losses/mahalanobis.h"),("MahaWhitened/MahaWhitenedInfoU","losses/mahalanobis.h")],
 observe=["value and Jacobian"])

p("C24","Distances satisfy the metric laws and return true Jacobians",
 "The Euclidean, Manhattan, L-infinity and Mahalanobis distances equal the corresponding norm of the difference, are symmetric, zero for equal arguments and satisfy the triangle inequality, and the two returned Jacobians are the derivatives with respect to each argument. The cosine function returns the cosine of the angle between two vectors with or without derivatives, is symmetric and scale invariant, and its Jacobians are exact.",
 ["inputs"],
 "all pairs/triples of vectors or scalars of any dimension and scale, all call forms",
 "Tests evaluate two distances on one pair of vectors.",
 ["distances.h","losses/norms.h","losses/mahalanobis.h"],
 [("distance functions","distances.h")],
 observe=["value and both Jacobians"])

p("C25","Unsupported requests are rejected cleanly, supported ones honoured",
 "The solver selected in the options is the one applied; requesting a solver that does not fit the user function (second-order on a gradient-only function, gradient descent on non-scalar residuals or on a function with Hessian) or an unknown one raises an invalid-argument exception before the function is evaluated, leaving x unchanged. Empty parameters, and functions yielding no residuals, end with the documented failure reason and x unchanged, and a run with numerical derivatives says so in its result.",
 ["configurations","inputs","programs"],
 "all solver choices x function signatures x parameter types, incl. empty containers",
 "Tests only use valid combinations.",
 ["optimize.h","optimizers/optimizer.h","optimizers/options.h"],
 [("dispatch","optimize.h"),("resize check","optimizers/optimizer.h"),("derivative selection","optimizers/optimizer.h")],
 observe=["exceptions","x","Output"])

p("C26","An exception from the user function leaves everything usable",
 "An exception thrown by the user function or a callback at any evaluation, or an allocation failure at any point, propagates to the caller (or is reported as out of memory when the system cannot be allocated) without double frees or termination, and exceptions without leaks (Eigen's own constructors leak when an allocation inside them fails). The parameters then hold a point the function was evaluated at (or one step beyond it), and the optimizer object can be reset and reused with the results of a new one.",
 ["fault_sequences","inputs","configurations"],
 "every evaluation index and every allocation index of a run, all solvers and storages",
 "Tests never throw from a user function nor exhaust memory.",
 ["optimizers/optimizer.h","solvers/gn.h","solvers/lm.h"],
 [("iteration with user callback","optimizers/optimizer.h"),("resize guarded against bad_alloc","optimizers/optimizer.h")],
 observe=["propagated exception","LeakSanitizer","x"])

p("C27","Results can always be described and logged",
 "For every result, including default-constructed ones and all stop reasons, with or without options, the description names exactly that reason (naming success or failure) and quotes the true values that triggered it. Every combination of logging options works for every parameter type, solver and iteration outcome without throwing, prints one line per iteration with its number and true cost (an iteration that ends the run by using up the allowed failures may go unprinted), and printing is fully suppressed when logging is disabled.",
 ["configurations","inputs","histories"],
 "all stop reasons x options/no options x list contents; all logging option subsets over runs of all outcomes",
 "Tests enable few logging options and only on converging runs.",
 ["stop_reasons.h","log.h","formatters.h","cost.h","optimizers/optimizer.h"],
 [("StopReasonDescription","stop_reasons.h"),("iteration log","optimizers/optimizer.h"),("formatters","formatters.h")],
 observe=["returned text","captured standard output"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for o in P: f.write(json.dumps(o,ensure_ascii=False)+'\n')
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for o in P: jsonschema.validate(o,s if s.get('type')=='object' else s.get('items',s))
    print('schema ok',len(P))
except ImportError: print(len(P))
