"""Writes properties.jsonl from the table below (single source of truth)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "jaxopt/_src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=list(over), text=text),
      why_tests_cant=why,
      anchors=dict(files=[S + f for f in files],
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   observe_at=list(observe), hook_needed=None)))

prop("P01", "Runs are bounded by maxiter and stop exactly on the stopping rule",
  "Running an iterative solver applies at most max(1, maxiter) updates, and after the first one an update is applied only while the current state's stopping test says to continue (error above tol; a solver may also stop on its own line-search failure or success flags, but never ignores tol). The unrolled-Python, unrolled-compiled and compiled loops realise the same sequence of updates, and maxiter=0 returns the initial parameters and state. A stochastic run over an iterator initialises from one batch and then performs exactly one update per following batch, at most maxiter of them.",
  ["inputs", "configurations"],
  "all solvers, all maxiter/tol values, all settings of jit and unroll, all iterators",
  "Tests run a few solvers with one or two (jit, unroll, maxiter) settings and look at the final iterate; they do not pin when each of three loop bodies may run.",
  ["loop.py", "base.py", "levenberg_marquardt.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "backtracking_linesearch.py"],
  [("bounded while loop (three implementations)", S+"loop.py:while_loop"),
   ("run = init + first update + bounded loop", S+"base.py:IterativeSolver._run"),
   ("stopping test", S+"base.py:IterativeSolver._cond_fun and overrides"),
   ("iterator run", S+"base.py:StochasticSolver.run_iterator")],
  ["state.iter_num", "state.error", "returned params"])

prop("P02", "The iteration counter starts at 0 and grows by one per update",
  "For every solver and line search, a freshly initialised state reports 0 completed iterations and each update returns a state whose iteration count is exactly one more than the one it received, on every branch and for every option setting.",
  ["inputs", "histories", "configurations"],
  "all iterative solvers and line searches, all option combinations, all states",
  "Tests inspect the counter at the end of a few runs; a branch (restart, skipped step, failed search) that forgets or doubles the increment is not exercised.",
  ["base.py", "gradient_descent.py", "proximal_gradient.py", "projected_gradient.py", "mirror_descent.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py", "gauss_newton.py", "levenberg_marquardt.py", "anderson.py", "anderson_wrapper.py", "broyden.py", "bisection.py", "block_cd.py", "armijo_sgd.py", "polyak_sgd.py", "optax_wrapper.py", "fixed_point_iteration.py", "iterative_refinement.py", "osqp.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "backtracking_linesearch.py"],
  [("init_state / update of every solver", S+"*.py:<Solver>.init_state, <Solver>.update")],
  ["state.iter_num"])

prop("P03", "Reported evaluation counts equal the evaluations performed",
  "Whenever a solver or line-search state reports counts of function, gradient, Jacobian or line-search-step evaluations, each update increases the reported count by exactly the number of user-function evaluations that update performed, including those performed by the line search it called; initialisation counts its own evaluations. A count of gradients counts the gradients requested (value-only evaluations are counted as function evaluations only).",
  ["inputs", "histories", "configurations"],
  "all solvers and line searches whose state carries evaluation counters, all option combinations, all branches",
  "One test compares counts with a counting wrapper for a few solvers and default options; the remaining option combinations and branches are unobserved.",
  ["bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "backtracking_linesearch.py", "proximal_gradient.py", "gradient_descent.py", "armijo_sgd.py", "fixed_point_iteration.py", "broyden.py"],
  [("counter fields", S+"*.py:<State>.num_fun_eval, num_grad_eval, num_linesearch_iter"), ("line-search counters", S+"zoom_linesearch.py:ZoomLineSearch.update")],
  ["state.num_fun_eval", "state.num_grad_eval", "state.num_linesearch_iter"])

prop("P04", "Reported value, gradient and aux belong to the returned parameters",
  "When a gradient-based solver or a line search returns parameters together with a state that carries the objective value, the gradient, the residual or the auxiliary output for the next step, those entries are the user function's results at exactly the returned parameters and with the caller's arguments (some solvers keep, by convention, the value, residual or aux of the iterate the step started from -- PolyakSGD, OptaxSolver, MirrorDescent, ProximalGradient, GaussNewton -- and ArmijoSGD that of its line-search point; each keeps its convention uniformly). This holds on every branch: accepted, rejected, failed or fallback step.",
  ["inputs", "histories", "configurations"],
  "all solvers and line searches carrying value/grad/aux/residual in their state; all option combinations; all branches of the step logic",
  "Tests check final values at convergence, where the values at neighbouring iterates agree to test precision, and rarely take the failed or rejected branch.",
  ["bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py", "gradient_descent.py", "proximal_gradient.py", "levenberg_marquardt.py", "gauss_newton.py", "broyden.py", "armijo_sgd.py", "polyak_sgd.py", "optax_wrapper.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "backtracking_linesearch.py"],
  [("state construction at the end of update", S+"*.py:<Solver>.update"), ("line-search final step", S+"zoom_linesearch.py:ZoomLineSearch._make_safe_step")],
  ["state.value", "state.grad", "state.aux", "state.residual", "returned params"])

prop("P05", "Updates keep the shape of the state, so any loop can carry it",
  "For every solver, line search and option combination, the state returned by an update has the same type, the same fields present or absent, the same nesting of containers and the same kind of scalar (boolean, integer, floating) as the state the update received and as the initial state it stems from, on every branch. (An auxiliary output may be absent from the initial state of solvers that do not evaluate the objective before the first update, which every run performs outside its loop.)",
  ["inputs", "configurations"],
  "all solvers and line searches, all option combinations, both sides of every data-dependent branch",
  "A mismatch shows only when the offending option is combined with a compiled loop; tests cover a handful of combinations.",
  ["base.py", "lbfgs.py", "lbfgsb.py", "bfgs.py", "nonlinear_cg.py", "proximal_gradient.py", "anderson.py", "broyden.py", "levenberg_marquardt.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "backtracking_linesearch.py", "osqp.py"],
  [("init_state/update pairs", S+"*.py:<Solver>.init_state, <Solver>.update")],
  ["the state pytree"])

prop("P06", "Every public option takes effect, including through inner solvers",
  "Each documented constructor option of a solver has an influence on what the solver does, in the modes the option is documented for (options documented as unused or deprecated excepted); when a solver delegates to an inner solver, line search or linear solver that has an option of the same meaning, the value the user gave the outer solver is the one the inner one receives.",
  ["configurations"],
  "all solver classes, all their documented options",
  "Tests set few options away from their defaults; an option that is silently dropped changes no default-option test.",
  ["projected_gradient.py", "gradient_descent.py", "linesearch_util.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py", "anderson_wrapper.py", "iterative_refinement.py", "osqp.py", "fixed_point_iteration.py", "scipy_wrappers.py", "eq_qp.py", "levenberg_marquardt.py"],
  [("line-search construction", S+"linesearch_util.py:_setup_linesearch"), ("inner solver construction", S+"projected_gradient.py:ProjectedGradient.__post_init__"), ("dataclass fields", S+"*.py")],
  ["behaviour of run under a non-default option"])

prop("P07", "All ways of supplying an objective mean the same thing",
  "Supplying an objective as a plain function, as a function returning its own gradient, or as a function plus a separate value-and-gradient function, each with or without auxiliary output, gives the solver the same value, gradient and auxiliary output (aux being None when the user supplies none); no solver ever mistakes one component for another or differentiates something other than the value, and a gradient the user supplies is used instead of differentiating.",
  ["programs", "configurations"],
  "all gradient-based solvers and line searches, all six combinations of value_and_grad in {False, True, callable} and has_aux in {False, True}",
  "Tests exercise these six combinations for a few solvers only; the combination has_aux with value_and_grad is untested for most.",
  ["base.py", "proximal_gradient.py", "gradient_descent.py", "lbfgs.py", "bfgs.py", "lbfgsb.py", "nonlinear_cg.py", "armijo_sgd.py", "polyak_sgd.py", "optax_wrapper.py", "mirror_descent.py", "scipy_wrappers.py", "backtracking_linesearch.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "bisection.py", "broyden.py"],
  [("normalisation helpers", S+"base.py:_make_funs_with_aux, _make_funs_without_aux"), ("initialisation of aux", S+"*.py:<Solver>.init_state")],
  ["state.value", "state.grad", "state.aux"])

prop("P08", "Solver runs are implicitly differentiable at their own optimality condition",
  "With implicit differentiation enabled, a run's solution is differentiated through the solver's own optimality condition, evaluated with the very arguments of the run, with the user's linear solver, without differentiating the initial guess, and, for the iterative solvers, also with respect to keyword arguments of the user's function; the optimality condition is the gradient, residual or fixed-point residual of the problem the solver minimises (for constrained or proximal solvers, one unit-step projected/proximal residual). With it disabled, the run is left unwrapped.",
  ["programs", "configurations"],
  "all solvers that expose implicit differentiation, all positional and keyword arguments of the user's function",
  "Tests differentiate a few solvers with respect to one positional argument; keyword arguments, custom linear solvers and unusual option combinations are not reached.",
  ["base.py", "implicit_diff.py", "gradient_descent.py", "proximal_gradient.py", "projected_gradient.py", "mirror_descent.py", "block_cd.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py", "gauss_newton.py", "levenberg_marquardt.py", "armijo_sgd.py", "polyak_sgd.py", "optax_wrapper.py", "fixed_point_iteration.py", "anderson.py", "anderson_wrapper.py", "broyden.py", "bisection.py", "osqp.py", "eq_qp.py", "cvxpy_wrapper.py", "cd_qp.py", "iterative_refinement.py", "scipy_wrappers.py"],
  [("wrapping of run", S+"base.py:IterativeSolver.run"), ("optimality_fun of each solver", S+"*.py"), ("reference_signature", S+"*.py:<Solver>.__post_init__")],
  ["jax.grad / jax.jacobian of run"])

prop("P09", "Implicit derivatives have the implicit-function-theorem form",
  "The derivative attached to a root F(x, theta)=0 satisfies: vector-Jacobian product = minus the transposed theta-Jacobian of F applied to the solution u of (transposed x-Jacobian) u = cotangent; Jacobian-vector product = solution of (x-Jacobian) v = minus the theta-Jacobian applied to the tangent; both Jacobians are taken at the returned solution and the run's arguments, the user's linear solver is used, and a fixed point T(x)=x is treated as the root of T(x)-x. The initial guess receives no derivative and auxiliary outputs are returned unchanged.",
  ["inputs", "programs"],
  "all optimality functions, arguments, cotangents and tangents, with and without auxiliary output",
  "Tests compare a few Jacobians with finite differences on small dense problems.",
  ["implicit_diff.py"],
  [("root_vjp, root_jvp", S+"implicit_diff.py"), ("custom_root / custom_fixed_point", S+"implicit_diff.py:_custom_root")],
  ["jax.vjp / jax.jvp of decorated functions"])

prop("P10", "Solver calls leave no trace: no mutation of solver, arguments or globals",
  "After construction, calling any public operation of a solver, line search, projection, proximal operator, loss, linear solver or tree utility never changes the solver object, its inputs or any module-level object, and construction never changes the objects the user passed in. Repeated and interleaved calls therefore behave as the first.",
  ["histories", "inputs"],
  "all public operations, all call histories",
  "Tests build a fresh solver for nearly every call; a leak across calls needs a repeated or interleaved history.",
  ["base.py", "scipy_wrappers.py", "linear_operator.py", "osqp.py", "cvxpy_wrapper.py", "anderson_wrapper.py", "projection.py", "prox.py", "loss.py", "tree_util.py", "linear_solve.py", "isotonic.py"],
  [("absence of stores to self/arguments/globals reachable from public operations", S+"*.py")],
  ["solver attributes", "user-supplied containers", "module globals"])

prop("P11", "Traced operations never branch in Python on array values",
  "In every operation that is documented to work under jit, vmap or grad (state initialisation, updates, optimality conditions, projections, proximal operators, losses, linear solvers, tree utilities), no Python-level branch, loop bound, assertion, Python number conversion or host-side NumPy call depends on the value of an array argument; only on static options, structure, shapes and None-ness (or under an explicit jit=False guard, or a check documented to be unavailable under jit such as check_bracket or check_feasible).",
  ["inputs", "configurations"],
  "all traced operations, all option combinations",
  "Such a dependence fails only for the option/branch combination that is traced; eager tests pass.",
  ["base.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "proximal_gradient.py", "osqp.py", "bisection.py", "projection.py", "prox.py", "loss.py", "linear_solve.py", "tree_util.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "backtracking_linesearch.py", "anderson.py", "broyden.py", "perturbations.py", "isotonic.py"],
  [("use of jnp.where / lax.cond instead of Python control flow", S+"*.py")],
  ["jax.jit / jax.vmap of the operation"])

prop("P12", "Verbosity never changes results",
  "For every solver and line search, the parameters and state produced by initialisation and update do not depend on the verbosity option: information flows from the computation to the printed output and never back.",
  ["inputs", "configurations"],
  "all solvers and line searches, all verbosity levels, all other options",
  "Tests run with default verbosity, or only check that something is printed.",
  ["base.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "gradient_descent.py", "proximal_gradient.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "backtracking_linesearch.py", "osqp.py", "levenberg_marquardt.py", "anderson.py"],
  [("verbose-guarded logging", S+"base.py:IterativeSolver.log_info and callers")],
  ["params and state under verbose=0/1/2"])

prop("P13", "Unknown option strings are rejected, never silently ignored",
  "Whenever an option selects an algorithmic variant by name (line search, line-search initialisation or condition, inner linear solver, loss, formula variant), each documented name selects its own variant and any other string raises an error no later than the first use of the option.",
  ["configurations", "inputs"],
  "all string-valued options of solvers, line searches and wrappers, all strings",
  "Tests pass valid names; the fall-through of each dispatch is not executed.",
  ["linesearch_util.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py", "backtracking_linesearch.py", "levenberg_marquardt.py", "osqp.py", "scipy_wrappers.py", "armijo_sgd.py", "polyak_sgd.py"],
  [("dispatch chains ending in raise ValueError", S+"*.py")],
  ["exceptions raised"])

prop("P14", "Projections return feasible points",
  "By construction, for every finite input the non-negative projection is elementwise non-negative, the box projection lies between its bounds, the simplex, L1-ball and transport projections are assembled from non-negative thresholded parts, the L2 and L2-inf ball projections leave interior points unchanged and otherwise rescale to the ball's surface, and each affine projection subtracts exactly the constraint residual along the constraint normal. Solvers that promise box-feasible iterates produce each iterate through such a projection or clip (for LBFGSB with a fixed step size: a convex combination of clipped points).",
  ["inputs"],
  "all projections, all inputs and hyper-parameters; iterates of box-constrained solvers",
  "Tests check feasibility on random points; the guarantee is about all inputs including boundary and degenerate ones.",
  ["projection.py", "cd_qp.py", "projected_gradient.py", "osqp.py", "lbfgsb.py", "scipy_wrappers.py"],
  [("projection_* functions", S+"projection.py"), ("final projection in update", S+"cd_qp.py:BoxCDQP")],
  ["return values of projection functions", "iterates"])

prop("P15", "Proximal operators compute the documented operator for the given scaling",
  "On real inputs, each proximal operator returns the minimiser formula of 0.5||x-y||^2 + scaling*g(x) documented for it: regulariser strength and scaling enter only through their product, a zero strength gives the identity, and the operator acts leaf by leaf (or on the whole vector where documented). Proximal, projected, block-coordinate and mirror steps pass their own current step size as that scaling and the user's hyper-parameters unchanged.",
  ["inputs"],
  "all proximal operators and all solvers calling one, all inputs, strengths and scalings",
  "Tests compare with a numerical solver at a few random points, mostly with scaling=1.",
  ["prox.py", "proximal_gradient.py", "projected_gradient.py", "block_cd.py"],
  [("prox_* functions", S+"prox.py"), ("prox calls in solvers", S+"proximal_gradient.py:ProximalGradient._prox_grad")],
  ["return values of prox functions"])

prop("P16", "Each solver's step follows its defining update rule",
  "The parameters returned by one update are the method's textbook step from the received parameters and state: gradient, proximal/projected gradient with its acceleration, mirror, Polyak, SGD-Armijo, Optax, (damped) Gauss-Newton, quasi-Newton or conjugate-gradient direction along which the search is run, Anderson mixing, bisection halving, iterative refinement and fixed-point iteration. In particular descent directions carry the minus sign and conjugations, momentum uses the previous iterate, the step size used is the one reported where the state reports one, and the reported error is the method's own optimality residual for that step. (NonlinearCG with a line search searches along the conjugated combination of minus the gradient and the previous direction.)",
  ["inputs", "histories", "configurations"],
  "all listed solvers, all states and inputs, all step-size options",
  "Tests check convergence on easy problems, where many perturbed rules still converge.",
  ["gradient_descent.py", "proximal_gradient.py", "projected_gradient.py", "mirror_descent.py", "polyak_sgd.py", "armijo_sgd.py", "optax_wrapper.py", "bfgs.py", "lbfgs.py", "nonlinear_cg.py", "gauss_newton.py", "levenberg_marquardt.py", "anderson.py", "bisection.py", "fixed_point_iteration.py", "iterative_refinement.py", "block_cd.py", "broyden.py"],
  [("update methods", S+"*.py:<Solver>.update")],
  ["params returned by update"])

prop("P17", "Line searches accept a step only on their documented conditions",
  "A line search declares success only if the returned step satisfies its documented conditions (sufficient decrease with the configured constant, plus curvature or approximate-Wolfe variants), computed from the value and slope at that very step and at the start; undefined values never count as success; it reports failure when its iteration budget is exhausted without success; and trial steps never exceed the configured maximum where one is honoured. (The zoom search may, as documented, also stop at the maximal step with sufficient decrease alone.) A solver reports the failure of the search it ran.",
  ["inputs", "histories", "configurations"],
  "all three line searches, all conditions and option values, all objectives including those returning NaN or infinity",
  "Tests check the conditions after the fact on a few smooth functions.",
  ["backtracking_linesearch.py", "zoom_linesearch.py", "hager_zhang_linesearch.py", "armijo_sgd.py"],
  [("condition errors", S+"zoom_linesearch.py:_decrease_error,_curvature_error"), ("backtracking condition", S+"backtracking_linesearch.py:update"), ("approximate Wolfe", S+"hager_zhang_linesearch.py:_satisfies_wolfe_and_approx_wolfe")],
  ["state.done", "state.failed", "returned stepsize"])

prop("P18", "Quasi-Newton and mixing histories stay aligned",
  "In limited-memory methods the difference vectors and their scalar products written for one iteration go to the same slot of every history buffer, slots are reused cyclically in order of age, the step difference is new minus old parameters and the gradient (or residual) difference is the matching new minus old, and the recursion that applies the history visits slots newest-to-oldest and back. Warm-starting from a returned step keeps exactly that history.",
  ["histories", "inputs"],
  "all iteration counts relative to the history size, all inputs",
  "Tests run short optimisations in which misaligned histories still descend.",
  ["lbfgs.py", "lbfgsb.py", "broyden.py", "anderson.py"],
  [("history update", S+"lbfgs.py:update_history"), ("two-loop recursion", S+"lbfgs.py:inv_hessian_product"), ("Broyden factors", S+"broyden.py"), ("Anderson window", S+"anderson.py")],
  ["state.s_history", "state.y_history", "state.rho_history", "state.params_history"])

prop("P19", "Linear solvers are interchangeable",
  "All linear solvers solve A x = b for the operator they are given, with ridge r solving (A + r I) x = b (for normal-equation solvers: A^T A x = A^T b, with ridge on A^T A); they treat initial guesses only as starting points, accept vectors of any supported shape alike, and pass their remaining options to the underlying method. (Matrix-valued right-hand sides are covered for the solvers that materialise the operator.)",
  ["inputs", "configurations"],
  "all linear solvers, all operators, right-hand sides, ridges and initial guesses",
  "Tests check a few solvers on vector right-hand sides with default options.",
  ["linear_solve.py", "iterative_refinement.py", "linear_operator.py"],
  [("solve_* functions", S+"linear_solve.py"), ("materialisation", S+"linear_solve.py:_materialize_array")],
  ["return values of solve_*"])

prop("P20", "Pytree arithmetic is leaf-wise arithmetic",
  "Every tree arithmetic utility equals the corresponding vector-space operation on the concatenation of the leaves: sums, differences, products, scalar multiples, negation, inner products (real part and conjugation conventions included), norms (squared or not), zeros/ones, means and conditional selection, for any pytree of arrays.",
  ["inputs"],
  "all pytree utilities, all tree structures, real and complex leaves",
  "Tests use small fixed trees, mostly real.",
  ["tree_util.py"],
  [("tree_* functions", S+"tree_util.py")],
  ["return values of tree_*"])

prop("P21", "Losses and objectives compute their documented formulas",
  "Each classification and regression loss equals its documented formula (Fenchel-Young form where documented), inverse links match their losses, and each ready-made objective is the documented average of the loss of the model's prediction plus the documented regulariser, with the composite form (sub-objective, linear map, per-column smoothness constants) describing the same function and a valid upper bound of its curvature.",
  ["inputs"],
  "all losses and objectives, all labels, scores and data",
  "Tests compare with a reference at random points for some losses; composite views are checked through convergence only.",
  ["loss.py", "objective.py"],
  [("loss functions", S+"loss.py"), ("objectives", S+"objective.py")],
  ["return values", "objective.make_subfun / columnwise_lipschitz_const"])

prop("P22", "Perturbed optimisers are consistent with their derivative rules",
  "For perturbed argmax, max and function wrappers, the value is the average over perturbed inputs input + sigma*noise, the derivative rule uses the very same noise draw (same key, same shape, same distribution), weights by the score of that noise over samples*sigma, and the optional control variate subtracts the unperturbed output from every sample; nothing is differentiated with respect to the random key, and tangents have the shape of the output.",
  ["inputs", "configurations"],
  "all wrapped functions, keys, sample counts, scales, distributions, with and without control variate",
  "Monte-Carlo tests have tolerances that hide mismatched noise, biased weights or scale errors.",
  ["perturbations.py"],
  [("make_perturbed_*", S+"perturbations.py")],
  ["jvp/grad of perturbed functions"])

prop("P23", "Quadratic-program solvers agree on the problem and its duals",
  "All quadratic-program interfaces solve min 0.5 x'Qx + c'x subject to Ax=b, Gx<=h (or l<=Ax<=u): residuals, optimality conditions, sign conventions of the dual variables, and the conversions between the two interfaces (and back) describe the same problem. Statuses are reported as documented: solved only when both residuals are within tolerance, infeasible only from a non-trivial certificate: a step of the dual (primal) iterate, not null, that satisfies the certificate inequalities of the OSQP paper within tolerance, a step towards an infinite bound being no certificate.",
  ["inputs", "configurations"],
  "all quadratic-program solvers, all problem data with or without each constraint block",
  "Tests solve well-posed random problems from one starting point.",
  ["osqp.py", "eq_qp.py", "cvxpy_wrapper.py", "cd_qp.py", "implicit_diff.py", "linear_operator.py"],
  [("ADMM step and residuals", S+"osqp.py:BoxOSQP"), ("conversions", S+"osqp.py:OSQP_to_BoxOSQP"), ("KKT optimality", S+"implicit_diff.py:make_kkt_optimality_fun")],
  ["returned KKT solution", "state.status"])

prop("P24", "SciPy wrappers are faithful bridges",
  "Flattening parameters for SciPy and rebuilding them are mutually inverse for any pytree (order, shapes, dtypes), Jacobians are laid out in that same order, SciPy is given the value and derivative of the user's own function at the rebuilt point with the user's method, tolerance, bounds and options, and the returned information is SciPy's result for that run.",
  ["inputs", "configurations"],
  "all wrappers, pytrees, options",
  "Tests use a few pytrees and methods with default options.",
  ["scipy_wrappers.py"],
  [("flatten/unflatten", S+"scipy_wrappers.py:jnp_to_onp, make_onp_to_jnp"), ("Jacobian layout", S+"scipy_wrappers.py:make_jac_jnp_to_onp"), ("calls into SciPy", S+"scipy_wrappers.py:_run")],
  ["returned params and info"])

prop("P25", "Hand-written derivative rules keep the value and match the operator",
  "Every operator that carries a hand-written forward derivative rule (simplex and sparse-simplex projection, isotonic regression, perturbed optimisers) returns the same value when differentiated as when not, and its rule is linear in the input tangent and equals the operator's Jacobian at its own output: simplex projections restrict the tangent to the support of the projection and centre it there; isotonic regression averages the tangent over each block of equal solution values (and is the clipped, sign-adjusted solution of its core); perturbed optimisers use the score-function estimate. Options declared non-differentiable are passed through unchanged and every differentiable input's tangent is used.",
  ["inputs"],
  "all functions carrying custom derivative rules, all inputs and tangents",
  "Tests compare gradients with finite differences at generic points.",
  ["isotonic.py", "projection.py", "implicit_diff.py", "tree_util.py", "linear_operator.py", "perturbations.py"],
  [("custom_jvp/custom_vjp definitions", S+"*.py")],
  ["jax.jvp / jax.grad of the operator"])

# --- outside the reach of static analysis -------------------------------
prop("P40", "Solvers converge to a solution",
  "On problems satisfying a method's assumptions, running a solver to convergence returns a point whose optimality error is at most the tolerance, and for convex problems an (approximate) global minimiser.",
  ["inputs"], "all problems satisfying each method's assumptions",
  "Only sampled problems are solved by the tests.", ["base.py"],
  [("all solvers", S+"*.py")], ["l2_optimality_error"])
prop("P41", "Derivatives of solutions are numerically accurate",
  "Implicit and unrolled derivatives of a solution agree with the true derivative up to an error that vanishes with the solver tolerance.",
  ["inputs"], "all problems, all tolerances",
  "Only sampled problems are compared with finite differences.", ["implicit_diff.py"],
  [("custom_root", S+"implicit_diff.py")], ["jax.jacobian of run"])
prop("P42", "Results are independent of jit, vmap and batching up to rounding",
  "Running a solver eagerly, jitted, or vmapped over a batch gives the same solution as running it on each problem separately, up to floating-point rounding.",
  ["inputs", "configurations"], "all solvers, inputs, batch sizes",
  "Tests compare a few solvers on one batch.", ["base.py", "loop.py"],
  [("all solvers", S+"*.py")], ["params"])
prop("P43", "Isotonic regression and optimal-transport projections solve their problems",
  "The isotonic solvers return the exact minimiser over ordered vectors, and the transport and Birkhoff projections the exact Euclidean or KL projection.",
  ["inputs"], "all input vectors and matrices",
  "Only random instances are compared with a reference.", ["isotonic.py", "projection.py"],
  [("pool adjacent violators", S+"isotonic.py"), ("dual solves", S+"projection.py")], ["return values"])
prop("P44", "Floating-point robustness near convergence",
  "Close to a minimiser, solvers do not diverge, stall with NaN, or report spurious failure because of rounding in the line search or curvature estimates.",
  ["inputs"], "all objectives and starting points, single and double precision",
  "Only particular functions are sampled.", ["zoom_linesearch.py", "lbfgs.py"],
  [("safeguards", S+"zoom_linesearch.py")], ["state.error"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
  for p in P:
    assert len(p["title"]) <= 80, p["title"]
    f.write(json.dumps(p) + "\n")
print(len(P), "properties")
