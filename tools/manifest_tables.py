NOTE = ("Decided on the current source by abstract interpretation over value-flow terms; trusts the models of "
        "jax/numpy/builtins in sa/models.py; real arithmetic, dtypes ignored. Undecided obligations are counted in the evidence, never alarmed. ")
TECH = {
 "P01": ("abstract interpretation of the run loop and of every stopping test; static unrolling of the three loop realisations", NOTE + "Loop realisations are compared for maxiter up to 4, with unknown step and test functions."),
 "P02": ("abstract interpretation of init_state/update over all option combinations (value-flow terms)", NOTE),
 "P03": ("effect counting: guarded user-call events against the counter's value-flow term", NOTE),
 "P04": ("value-provenance dataflow of state entries against returned parameters", NOTE),
 "P05": ("structure and scalar-kind analysis of init/update states on all branches", NOTE),
 "P06": ("option taint: attribute-read reachability and constructor-wiring dataflow", NOTE),
 "P07": ("relational value-flow comparison across the six ways of supplying an objective", NOTE),
 "P08": ("wiring dataflow at the implicit-differentiation call sites; optimality conditions against reference terms", NOTE),
 "P09": ("value-flow terms of the derivative rules against the implicit-function-theorem reference", NOTE),
 "P10": ("interprocedural store-effect analysis on objects that outlive the call", NOTE),
 "P11": ("staticness (binding-time) analysis of Python branches, conversions and host calls", NOTE),
 "P12": ("non-interference: dependence of results on the verbosity option", NOTE),
 "P13": ("constant propagation of option strings, known and unknown", NOTE),
 "P14": ("sign/interval and residual analysis of projection terms, reference terms", NOTE),
 "P15": ("value-flow terms of prox operators against reference terms; scaling invariance", NOTE),
 "P16": ("value-flow terms of update steps against textbook reference steps", NOTE),
 "P17": ("value-flow and implication analysis of the success flags of line searches", NOTE),
 "P18": ("value-flow terms of history updates against reference recursion", NOTE),
 "P19": ("value-flow terms of linear solvers against reference; shape discipline", NOTE),
 "P20": ("global value numbering of each tree utility against a reference on unknown and nested trees", NOTE),
 "P21": ("global value numbering of losses and objectives against reference formulas", NOTE),
 "P22": ("value-flow terms of perturbed operators and their derivative rules", NOTE),
 "P23": ("value-flow terms of QP residuals, optimality conditions and conversions", NOTE),
 "P24": ("wiring dataflow of the SciPy calls and the flatten/unflatten helpers", NOTE),
 "P25": ("linearity and provenance analysis of hand-written derivative rules", NOTE),
}
NA = {
 "P40": "Convergence quantifies over real-valued trajectories of unbounded length; no sound static argument in reach bounds the distance to a solution.",
 "P41": "Numerical accuracy of derivatives depends on conditioning and solver error, run-time quantities no static rule can bound (the form of the derivative is P09).",
 "P42": "Equality up to rounding under jit/vmap depends on XLA's floating-point evaluation, which is not in the source (its source-level preconditions are P05, P10, P11).",
 "P43": "Exactness of pool-adjacent-violators and dual transport solvers is an inductive fact about numeric iterations that needs functional proof, not static analysis.",
 "P44": "Rounding behaviour near convergence is a property of floating-point values at run time.",
}
