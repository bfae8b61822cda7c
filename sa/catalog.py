"""Calls of the public functional API with symbolic arguments, used by whole-program effect rules."""
import itertools

from .core import *
from . import solvers as S


class Call:
  """One public operation: label, function value, arguments and keyword arguments."""

  def __init__(self, label, fn, args, kwargs=None, note=""):
    self.label, self.fn, self.args, self.kwargs, self.note = label, fn, list(args), dict(kwargs or {}), note


def functional(I):
  """Projections, proximal operators, losses, objectives, linear solvers, tree utilities, perturbations."""
  out = []

  def add(mod, name, *variants):
    try:
      f = I.public_fn(mod, name)
    except Exception:
      f = None
    if f is None:
      return
    for i, v in enumerate(variants):
      a, k = v if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict) else (v, {})
      out.append(Call(f"{mod.split('.')[-1]}.{name}#{i}", f, a, k))

  x, y, z = arr("x"), arr("y"), arr("z")
  v1, v2, M, N = ranked("v1", 1), ranked("v2", 1), ranked("M", 2), ranked("N", 2)
  lam, sc = opt("lam"), opt("scaling")
  tree = lambda a, b: (a, I.newdict({"k": b}))
  T2 = tree(x, y)
  U2 = tree(arr("x2"), arr("y2"))
  # projections
  P = "jaxopt.projection"
  add(P, "projection_non_negative", [x], [T2])
  add(P, "projection_box", [x, (opt("lo"), opt("hi"))], [T2, (U2, tree(arr("x3"), arr("y3")))])
  add(P, "projection_hypercube", [x, opt("unit")], [x])
  add(P, "projection_simplex", [v1], [v1, opt("value")])
  add(P, "projection_sparse_simplex", [v1, 3], ([v1, 3], {"use_approx_max_nz": True, "value": opt("value")}))
  add(P, "projection_l1_sphere", [v1, opt("value")])
  add(P, "projection_l1_ball", [v1, opt("value")])
  add(P, "projection_l2_sphere", [x, opt("value")], [T2])
  add(P, "projection_l2_ball", [x, opt("value")], [T2])
  add(P, "projection_linf_ball", [x, opt("value")], [T2])
  add(P, "projection_hyperplane", [v1, (v2, opt("b"))])
  add(P, "projection_halfspace", [v1, (v2, opt("b"))])
  add(P, "projection_affine_set", [v1, (M, v2)])
  add(P, "projection_polyhedron", [v1, (M, v2, N, ranked("h", 1))], ([v1, (M, v2, N, ranked("h", 1))], {"check_feasible": False}))
  add(P, "projection_box_section", [v1, (ranked("alpha", 1), ranked("beta", 1), v2, opt("c"))],
      ([v1, (ranked("alpha", 1), ranked("beta", 1), v2, opt("c"))], {"check_feasible": False}))
  for n in ("projection_transport", "kl_projection_transport"):
    add(P, n, [M, (v1, v2)], ([M, (v1, v2)], {"use_semi_dual": False}))
  for n in ("projection_birkhoff", "kl_projection_birkhoff"):
    add(P, n, [M], ([M], {"use_semi_dual": False}))
  # prox
  P = "jaxopt.prox"
  for n in ("none", "lasso", "non_negative_lasso", "group_lasso", "ridge", "non_negative_ridge"):
    add(P, "prox_" + n, [x], [T2, lam, sc])
  add(P, "prox_lasso", [T2, U2, sc])
  add(P, "prox_elastic_net", [T2, (U2, tree(arr("x3"), arr("y3"))), sc], [x, (0.3, 0.4), sc])
  # losses
  P = "jaxopt.loss"
  lab = tm.sym("cnt", "label")
  add(P, "huber_loss", [x, y, opt("delta")])
  for n in ("logistic", "sparsemax", "hinge", "perceptron"):
    add(P, f"binary_{n}_loss", [lab, x])
    add(P, f"multiclass_{n}_loss", [lab, v1])
  add(P, "sparse_plus", [x])
  add(P, "sparse_sigmoid", [x])
  P = "jaxopt.objective"
  X, yv, W, w, b = ranked("X", 2), ranked("y", 1), ranked("W", 2), ranked("w", 1), ranked("b", 1)
  l2 = opt("l2reg")
  add(P, "least_squares", [w, (X, yv)])
  add(P, "ridge_regression", [w, l2, (X, yv)])
  add(P, "multiclass_logreg", [W, (X, yv)])
  add(P, "multiclass_logreg_with_intercept", [(W, b), (X, yv)])
  add(P, "l2_multiclass_logreg", [W, l2, (X, yv)])
  add(P, "l2_multiclass_logreg_with_intercept", [(W, b), l2, (X, yv)])
  add(P, "binary_logreg", [w, (X, yv)])
  add(P, "multiclass_linear_svm_dual", [ranked("beta", 2), l2, (X, ranked("Y", 2))])
  # linear solvers
  P = "jaxopt.linear_solve"
  mv = fnsym("matvec")
  for n in ("solve_lu", "solve_cholesky", "solve_qr", "solve_inv"):
    add(P, n, [mv, v1], ([mv, v1], {"ridge": opt("ridge")}), [mv, ranked("b0", 0)], [mv, ranked("b2", 2)])
  for n in ("solve_cg", "solve_normal_cg", "solve_gmres", "solve_bicgstab"):
    add(P, n, [mv, x], ([mv, x], {"ridge": opt("ridge"), "init": arr("init"), "maxiter": opt("mi")}))
  # tree utilities
  P = "jaxopt.tree_util"
  for n in ("tree_add", "tree_sub", "tree_mul", "tree_div", "tree_vdot", "tree_vdot_real", "tree_dot"):
    add(P, n, [x, y], [T2, U2])
  for n in ("tree_sum", "tree_l2_norm", "tree_zeros_like", "tree_ones_like", "tree_negative", "tree_conj", "tree_real",
            "tree_imag", "tree_inf_norm"):
    add(P, n, [x], [T2])
  add(P, "tree_scalar_mul", [lam, T2])
  add(P, "tree_add_scalar_mul", [U2, lam, T2])
  add(P, "tree_where", [tree(arr("c1"), arr("c2")), T2, U2], [ranked("cs", 0), T2, U2])
  add(P, "tree_l2_norm", ([T2], {"squared": True}))
  # isotonic
  for inc in (True, False):
    add("jaxopt.isotonic", "isotonic_l2_pav", ([v1], {"increasing": inc, "y_min": opt("ymin"), "y_max": opt("ymax")}))
  # implicit differentiation
  P = "jaxopt.implicit_diff"
  F = S.U("F_opt")
  add(P, "root_vjp", ([F, x, (y, z), arr("ct")], {}), ([F, x, (y, z), arr("ct")], {"solve": fnsym("solve")}))
  add(P, "root_jvp", ([F, x, (y, z), (arr("ty"), arr("tz"))], {}),
      ([F, x, (y, z), (arr("ty"), arr("tz"))], {"solve": fnsym("solve")}))
  return out + perturbed(I)


def perturbed(I):
  out = []
  for n, cv in itertools.product(("make_perturbed_argmax", "make_perturbed_max", "make_perturbed_fun"), (False, True)):
    try:
      mk_ = I.public_fn("jaxopt.perturbations", n)
    except Exception:
      mk_ = None
    if mk_ is None:
      continue
    fn = fnsym("argmax_fun")
    kw = {"num_samples": 5, "sigma": 0.3}
    if n != "make_perturbed_max":
      kw["control_variate"] = cv
    elif cv:
      continue
    try:
      f = I.call(mk_, [fn], kw)
    except Exception:
      continue
    out.append(Call(f"perturbations.{n}[control_variate={cv}]", f, [ranked("inp", 1), tm.sym("arr", "rng")]))
  return out


def invoke(I, call):
  """(value, None) or (None, reason); events appended to I.events."""
  try:
    return I.call(call.fn, list(call.args), dict(call.kwargs)), None
  except AbsRaise as e:
    return None, e
  except AnalysisBroken:
    raise
  except Exception as e:
    return None, f"not interpreted: {type(e).__name__} {e}"


def external(I):
  """Solvers without init_state/update: (class, options, [(method, args, kwargs)])."""
  S.Interp.result_shapes  # user functions get declared result structures
  x1 = ranked("x", 1)
  tree = lambda: I.newdict({"bias": ranked("w_b", 0), "lin": (ranked("w_1", 1), ranked("w_2", 2))})
  out = []
  opts = lambda **k: I.newdict(k)
  for p in (x1, tree()):
    tag = "vector" if p is x1 else "tree"
    for form in ("plain", "aux", "vg", "vgc", "vgc+aux"):
      o = dict(S.objective_opts(form), method="BFGS", options=opts(gtol=0.1), tol=0.2)
      out.append(("ScipyMinimize", f"{form},{tag}", o, [("run", [p, arr("X")], {"l2": opt("l2")})]))
      o = dict(S.objective_opts(form), method="L-BFGS-B", options=opts(gtol=0.1))
      lo = I.newdict({"bias": ranked("lb", 0), "lin": (ranked("l1", 1), ranked("l2", 2))}) if tag == "tree" else ranked("lb", 1)
      hi = I.newdict({"bias": ranked("ub", 0), "lin": (ranked("u1", 1), ranked("u2", 2))}) if tag == "tree" else ranked("ub", 1)
      out.append(("ScipyBoundedMinimize", f"{form},{tag}", o, [("run", [p, (lo, hi), arr("X")], {"l2": opt("l2")})]))
    for form, uj in (("plain", True), ("plain", False), ("aux", True)):
      o = {"optimality_fun": S.U("F") if form == "plain" else S.U("F_aux", S.P), "has_aux": form == "aux",
           "method": "hybr", "use_jacrev": uj, "options": opts(xtol=0.1)}
      if tag == "vector":
        out.append(("ScipyRootFinding", f"{form},{tag},jacrev={uj}", o, [("run", [p, arr("X")], {"l2": opt("l2")})]))
    for form in ("plain", "aux"):
      for loss in ("linear", "huber"):
        o = {"fun": S.U("res") if form == "plain" else S.U("res_aux", S.P), "has_aux": form == "aux", "loss": loss,
             "options": opts(f_scale=0.5)}
        if tag == "vector":
          out.append(("ScipyLeastSquares", f"{form},{tag},{loss}", o, [("run", [p, arr("X")], {"l2": opt("l2")})]))
          out.append(("ScipyBoundedLeastSquares", f"{form},{tag},{loss}", dict(o, options=opts(f_scale=0.5)),
                      [("run", [p, (ranked("lb", 1), ranked("ub", 1)), arr("X")], {"l2": opt("l2")})]))
  Q, A, G = ranked("Q", 2), ranked("A", 2), ranked("G", 2)
  b, cc, h = ranked("b", 1), ranked("c", 1), ranked("h", 1)
  K = I.cls("jaxopt._src.base", "KKTSolution")
  kkt = lambda eq=True, ineq=True: Rec(K, {"primal": ranked("x", 1), "dual_eq": ranked("y", 1) if eq else None,
                                           "dual_ineq": ranked("z", 1) if ineq else None})
  for init in (None, kkt()):
    out.append(("OSQP", f"init={'None' if init is None else 'kkt'}", {},
                [("run", [init, (Q, cc), (A, b), (G, h)], {}),
                 ("l2_optimality_error", [kkt(), (Q, cc), (A, b), (G, h)], {})]))
    out.append(("EqualityConstrainedQP", f"init={'None' if init is None else 'kkt'}", {},
                [("run", [init and kkt(True, False), (Q, cc), (A, b)], {}),
                 ("l2_optimality_error", [kkt(True, False), (Q, cc), (A, b)], {})]))
  out.append(("OSQP", "no-ineq", {}, [("run", [None, (Q, cc), (A, b), None], {})]))
  out.append(("OSQP", "no-eq", {}, [("run", [None, (Q, cc), None, (G, h)], {})]))
  out.append(("OSQP", "init_params", {}, [("init_params", [x1, (Q, cc), (A, b), (G, h)], {})]))
  out.append(("BoxOSQP", "init_params", {}, [("init_params", [x1, (Q, cc), A, (b, h)], {})]))
  out.append(("BoxOSQP", "run", {}, [("run", [None, (Q, cc), A, (b, h)], {})]))
  out.append(("EqualityConstrainedQP", "refine", {"refine_regularization": 0.1, "refine_maxiter": 3},
              [("run", [None, (Q, cc), (A, b)], {})]))
  out.append(("CvxpyQP", "full", {}, [("run", [None, (Q, cc), (A, b), (G, h)], {}),
                                      ("l2_optimality_error", [kkt(), (Q, cc), (A, b), (G, h)], {})]))
  return out
