"""P08: solver runs are implicitly differentiable at their own optimality condition."""
from ..core import *
from .. import solvers as S
from .. import terms as tm

FLOOR = 60

# class -> (reference optimality condition, constructor option holding the user's function)
REF = {
    "GradientDescent": ("gradient", "fun"), "NonlinearCG": ("gradient", "fun"), "BFGS": ("gradient", "fun"),
    "LBFGS": ("gradient", "fun"), "PolyakSGD": ("gradient", "fun"), "ArmijoSGD": ("gradient", "fun"),
    "OptaxSolver": ("gradient", "fun"), "ProximalGradient": ("prox_residual", "fun"),
    "ProjectedGradient": ("projection_residual", "fun"), "MirrorDescent": ("mirror_residual", "fun"),
    "BlockCoordinateDescent": ("block_residual", "fun"), "LBFGSB": ("box_residual", "fun"),
    "FixedPointIteration": ("fixed_point", "fixed_point_fun"),
    "AndersonAcceleration": ("fixed_point", "fixed_point_fun"), "AndersonWrapper": (None, None),
    "Bisection": ("root", "optimality_fun"), "Broyden": ("root", "fun"),
    "GaussNewton": ("least_squares", "residual_fun"), "LevenbergMarquardt": ("least_squares", "residual_fun"),
    "IterativeRefinement": ("linear_system", None), "BoxCDQP": ("box_qp", None), "BoxOSQP": ("box_osqp", None),
}
LEADING = {"ProximalGradient": "hyperparams_prox", "ProjectedGradient": "hyperparams_proj",
           "MirrorDescent": "hyperparams_proj", "BlockCoordinateDescent": "hyperparams_prox", "LBFGSB": "bounds"}
STOCH = ("PolyakSGD", "ArmijoSGD", "OptaxSolver")


# solvers documented for real-valued problems only
REAL = ("LBFGSB", "BoxCDQP", "BoxOSQP", "EqualityConstrainedQP", "CvxpyQP", "ScipyBoundedMinimize",
        "ScipyBoundedLeastSquares", "ScipyLeastSquares")


class Cfg:
  """One solver configuration to differentiate through."""

  def __init__(self, cls, label, opts, ref, refopts, names, values, modes, init, fun=None, sig=None, sol=None):
    self.cls, self.label, self.opts, self.ref, self.refopts = cls, label, opts, ref, refopts
    self.names, self.values, self.modes, self.init = names, values, modes, init
    self.fun, self.sig, self.sol = fun, sig, sol
    self.real = cls in REAL


def run(c):
  c.rule("wrapped", "with implicit_diff, run attaches a derivative rule to the solver loop; without it, none")
  c.rule("result", "the wrapped run returns the loop's result")
  c.rule("condition", "optimality_fun equals the first-order condition of the documented problem (up to sign)")
  c.rule("derivative", "the backward rule is the implicit-function derivative of the documented condition, at the run's "
         "solution and arguments, with the user's linear solver, nothing for the initial guess, for positional and keyword arguments")
  c.rule("residual", "l2_optimality_error is the norm of the optimality condition")
  I = new_interp()
  solver_base = I.cls("jaxopt._src.base", "Solver")
  OS = I.cls("jaxopt._src.base", "OptStep")
  cur = {}

  def pred(cls, name, owner):
    return name == "_run" and isinstance(cls, I_.ClassInfo) and solver_base in cls.mro()

  def loop(I, s, fn, args, kwargs):
    I.event("looprun", (tuple(args), dict(kwargs)))
    return Rec(OS, {"params": cur["sol"], "state": tm.mk("sym", "runstate")})
  I.method_hooks.append((pred, loop))
  for cfg in configs(I):
    check(c, I, cfg, cur)
  c.absorb(I)


def configs(I):
  out = []
  seen = set()
  for case in (S.grad_family() + S.mirror() + S.block() + S.stochastic() + S.quasi() + S.leastsq() + S.fixedpoint() + S.qp()):
    key = (case.cls, case.form, case.axes.get("solver") if case.cls == "AndersonWrapper" else None,
           case.label if case.cls in ("IterativeRefinement",) else None)
    if key in seen or case.axes.get("pre_update") or case.axes.get("momentum"):
      continue
    if case.cls not in REF:
      continue
    seen.add(key)
    out.append(of_case(I, case))
  return out + extra(I) + wrappers(I)


def of_case(I, case):
  refname, fkey = REF[case.cls]
  opts = dict(case.opts)
  if case.cls == "BlockCoordinateDescent":
    opts["fun"] = ("named composite", opts["fun"][1])
    opts["block_prox"] = ("scaled", opts["block_prox"])
  lead = LEADING.get(case.cls)
  if case.cls in ("IterativeRefinement", "BoxCDQP", "BoxOSQP"):
    names = {"IterativeRefinement": ["A", "b", "A_bar"], "BoxCDQP": ["params_obj", "params_ineq"],
             "BoxOSQP": ["params_obj", "params_eq", "params_ineq"]}[case.cls]
    vals = dict(zip(names, case.args))
    vals.update(case.kwargs)
    present = [n for n in names if n in vals]
    modes = [("positional", present, []), ("keyword", [], present)]
    if case.cls == "IterativeRefinement":
      modes = [(l, p, k) for l, p, k in modes]
    init = case.params
    if init == ("kkt",):
      init = None
    return Cfg(case.cls, case.label, opts, refname, opts, names, vals, modes[:1] if case.cls != "BoxCDQP" else modes[:1], init)
  names = ["X", "l2"]
  vals = {"X": arr("X"), "l2": opt("l2")}
  if case.cls in STOCH:
    names = ["X", "l2", "data"]
    vals["data"] = arr("data")
  if case.cls == "BlockCoordinateDescent":
    vals = {"X": arr("X"), "l2": arr("y")}
  if lead:
    vals[lead] = case.args[0]
  L = [lead] if lead else []
  modes = [("positional", L + names, []), ("mixed", L + names[:1], names[1:]), ("keywords", L, list(reversed(names)))]
  if lead:
    modes.append(("all keywords", [], names + L))
  if case.cls == "AndersonWrapper":
    spec = opts["solver"]
    refname, fkey = REF[spec[1]]
    refopts = dict(spec[2])
  else:
    refopts = opts
  return Cfg(case.cls, case.label, opts, refname, refopts, L + names, vals, modes, case.params, fkey, ["params"] + names)


def extra(I):
  out = []
  P = S.P
  a = {"X": arr("X"), "l2": opt("l2")}
  m = [("positional", ["X", "l2"], []), ("mixed", ["X"], ["l2"])]
  o = dict(S.objective_opts("plain"), stepsize=S.STEP)
  out.append(Cfg("LBFGSB", "LBFGSB[no bounds]", o, "box_residual", o, ["bounds", "X", "l2"], dict(a, bounds=None),
                 [("mixed", ["bounds", "X"], ["l2"])], S.W(), "fun", ["params", "X", "l2"]))
  for mode in ("plain", "matvec", "fun"):
    Q, A = ranked("Q", 2), ranked("A", 2)
    b, cc, l, u = ranked("b", 1), ranked("c", 1), ranked("l", 1), ranked("u", 1)
    if mode == "matvec":
      b = arr("b")   # the product's structure is the user's
    o = {"plain": {}, "matvec": {"matvec_Q": S.U("mvQ"), "matvec_A": S.U("mvA")}, "fun": {"fun": S.U("fun")}}[mode]
    for cls, ref, names, vals in (
        ("BoxOSQP", "box_osqp", ["params_obj", "params_eq", "params_ineq"], {"params_obj": (Q, cc), "params_eq": A, "params_ineq": (l, u)}),
        ("EqualityConstrainedQP", "eq_qp", ["params_obj", "params_eq"], {"params_obj": (Q, cc), "params_eq": (A, b)})):
      init = None
      if mode == "fun":
        K = I.cls("jaxopt._src.base", "KKTSolution")
        init = Rec(K, {"primal": (ranked("x", 1), ranked("z", 1)), "dual_eq": ranked("y", 1),
                       "dual_ineq": (ranked("mu", 1), ranked("phi", 1))} if cls == "BoxOSQP" else
                   {"primal": ranked("x", 1), "dual_eq": ranked("y", 1), "dual_ineq": None})
      out.append(Cfg(cls, f"{cls}[{mode}]", o, ref, o, names, vals, [("positional", names, [])], init))
  vals = {"params_obj": (ranked("Q", 2), ranked("c", 1)), "params_eq": ranked("A", 2)}
  for lab, b in (("u=inf", (ranked("l", 1), tm.INF)), ("l=-inf", (tm.neg(tm.INF), ranked("u", 1)))):
    out.append(Cfg("BoxOSQP", f"BoxOSQP[{lab}]", {}, "box_osqp", {}, ["params_obj", "params_eq", "params_ineq"],
                   dict(vals, params_ineq=b), [], None))
    out[-1].modes = [("positional", ["params_obj", "params_eq", "params_ineq"], [])]
  return out


def wrappers(I):
  """Wrappers of external solvers: the derivative rule is attached at construction."""
  out = []
  data = {"X": arr("X"), "l2": opt("l2")}
  box = (arr("lb"), arr("ub"))
  m = [("positional", ["X", "l2"], [])]
  mb = [("positional", ["bounds", "X", "l2"], [])]
  init = ranked("w", 1)
  for f in S.FORMS:
    o = dict(S.objective_opts(f))
    out.append(Cfg("ScipyMinimize", f"ScipyMinimize[{f}]", o, "gradient", o, ["X", "l2"], data, m, init))
    out.append(Cfg("ScipyBoundedMinimize", f"ScipyBoundedMinimize[{f}]", o, "box_residual", o, ["bounds", "X", "l2"],
                   dict(data, bounds=box), mb, init))
  for aux in (False, True):
    o = {"optimality_fun": S.U("F_aux", S.P) if aux else S.U("F"), "has_aux": aux}
    out.append(Cfg("ScipyRootFinding", f"ScipyRootFinding[aux={aux}]", dict(o, method="hybr"), "root", o, ["X", "l2"], data, m, init))
    for loss in ("linear", "soft_l1", "huber", "cauchy", "arctan"):
      o = {"fun": S.U("res_aux", S.P) if aux else S.U("res"), "has_aux": aux, "loss": loss}
      fs = 0.5
      for cls, ref, names, vals, mm in (
          ("ScipyLeastSquares", "robust", ["X", "l2"], data, m),
          ("ScipyBoundedLeastSquares", "robust_box", ["bounds", "X", "l2"], dict(data, bounds=box), mb)):
        out.append(Cfg(cls, f"{cls}[{loss},aux={aux}]", dict(o, options=I.newdict({"f_scale": fs})), ref,
                       dict(o, f_scale=fs), names, vals, mm, init))
  Q, A, G = ranked("Q", 2), ranked("A", 2), ranked("G", 2)
  b, cc, h = ranked("b", 1), ranked("c", 1), ranked("h", 1)
  names = ["params_obj", "params_eq", "params_ineq"]
  for eq, ineq in ((True, True), (True, False), (False, True)):
    cfg = Cfg("CvxpyQP", f"CvxpyQP[eq={eq},ineq={ineq}]", {}, "full_qp", {}, names,
              {"params_obj": (Q, cc), "params_eq": (A, b) if eq else None, "params_ineq": (G, h) if ineq else None},
              [("positional", names, [])], None)
    cfg.duals = (eq, ineq)
    out.append(cfg)
  return out


def sol_of(I, cfg):
  K = I.cls("jaxopt._src.base", "KKTSolution")
  r = lambda n, k: tm.sym("arr", n)
  if cfg.cls == "BoxOSQP":
    return Rec(K, {"primal": (ranked("sx", 1), ranked("sz", 1)), "dual_eq": ranked("sy", 1),
                   "dual_ineq": (ranked("smu", 1), ranked("sphi", 1))})
  if cfg.cls == "CvxpyQP":
    return Rec(K, {"primal": ranked("sx", 1), "dual_eq": ranked("sy", 1) if cfg.duals[0] else None,
                   "dual_ineq": ranked("sz", 1) if cfg.duals[1] else None})
  if cfg.cls == "EqualityConstrainedQP":
    return Rec(K, {"primal": ranked("sx", 1), "dual_eq": ranked("sy", 1), "dual_ineq": None})
  if cfg.cls in ("BoxCDQP", "IterativeRefinement"):
    return ranked("sol", 1)
  return arr("sol")


def cot_of(I, cfg, sol, tag="ct"):
  if isinstance(sol, Rec):
    f = lambda v: None if v is None else tuple(f(x) for x in v) if isinstance(v, tuple) else like(v)
    return Rec(sol.cls, {k: f(v) for k, v in sol.vals.items()})
  return like(sol)


def like(t):
  from .. import models
  r = models.rank(t)
  n = "ct_" + str(t.args[-1])
  return arr(n) if r is None else ranked(n, r)


def set_signature(I, cfg, opts):
  if not cfg.sig:
    return
  for k, v in opts.items():
    if isinstance(v, T) and k in ("fun", "value_and_grad", "residual_fun", "fixed_point_fun", "optimality_fun"):
      I.signatures[v] = list(cfg.sig)
    if isinstance(v, tuple) and v and v[0] == "composite":
      I.signatures[S.U("subfun")] = ["params"] + cfg.sig[1:]
    if isinstance(v, tuple) and v and v[0] == "solver":
      set_signature(I, cfg, v[2])


def guarded(c, rule, con, f, where=None):
  try:
    return f(), True
  except AbsRaise as e:
    if model_limit(e):
      c.unknown(rule, con, e)
    else:
      c.bad(rule, con, f"raises {e.exc}", e.where or where)
  except AnalysisBroken:
    raise
  except Exception as e:
    c.unknown(rule, con, f"not interpreted: {type(e).__name__} {e}")
  return None, False


def check(c, I, cfg, cur):
  set_signature(I, cfg, cfg.opts)
  opts = {k: S.build_opt(I, v) for k, v in cfg.opts.items()}
  ci = S.public(I, cfg.cls)
  fields = [n for n, _, _ in ci.fields()]
  ro = {k: (opts[k] if k in opts and cfg.refopts is cfg.opts else S.build_opt(I, v)) for k, v in cfg.refopts.items()}
  F, ok = guarded(c, "condition", cfg.label, lambda: I.call(spec_fn(I, "optimality", cfg.ref), [I.newdict(ro)], {}))
  if not ok:
    raise AnalysisBroken(f"reference optimality for {cfg.label}")
  usolve = fnsym("usolve")
  cur["sol"] = cfg.cur = sol = sol_of(I, cfg)

  def mk(**kw):
    if "implicit_diff" in fields:
      kw.setdefault("implicit_diff", True)
    if "jit" in fields:
      kw["jit"] = False
    return I.instantiate(ci, [], dict(opts, **kw))
  solver, ok = guarded(c, "wrapped", cfg.label, lambda: mk(implicit_diff_solve=usolve))
  if not ok:
    return
  # the condition itself
  vals = cfg.values
  theta = [vals.get(n) for n in cfg.names if n in vals]
  want = I.call(F, [sol] + theta, {})
  for mode, pos, kws in cfg.modes:
    con = f"{cfg.label} {mode}"
    ar, kw = [sol] + [vals[n] for n in pos], {n: vals[n] for n in kws}
    if kws:
      lead = cfg.names[0] if cfg.names[0] in LEADING.values() else None
      first = [vals[lead]] if lead in kws else []
      want = I.call(F, ar + first, {n: v for n, v in kw.items() if n != lead})
    got, ok = guarded(c, "condition", con, lambda: I.call(I.getattr(solver, "optimality_fun"), ar, kw))
    if ok:
      signed(c, I, "condition", con, got, want, where_of(I.getattr(solver, "optimality_fun")), cfg.real)
    err, ok = guarded(c, "residual", con, lambda: I.call(I.getattr(solver, "l2_optimality_error"), ar, kw))
    if ok:
      n = I.call(I.fn("spec.tree_util", "tree_l2_norm"), [want], {})
      c.same("residual", con, err, n, where=where_of(I.getattr(solver, "l2_optimality_error")), real=cfg.real)
  # the derivative of run
  for mode, pos, kws in cfg.modes:
    derivative(c, I, cfg, solver, F, usolve, mode, pos, kws)
  if "implicit_diff" in fields:
    con = f"{cfg.label} implicit_diff=False"
    s2, ok = guarded(c, "wrapped", con, lambda: mk(implicit_diff=False))
    if ok:
      n = len(I.events)
      _, ok = guarded(c, "wrapped", con, lambda: call_run(I, cfg, s2, *cfg.modes[0][1:]))
      if ok:
        ev = [e for e in I.events[n:] if e.kind == "customcall"]
        c.expect("wrapped", con, not ev, "run carries a derivative rule although implicit_diff is False")
      del I.events[n:]
    con = f"{cfg.label} default linear solver"
    s3, ok = guarded(c, "wrapped", con, lambda: mk())
    if ok:
      mode, pos, kws = cfg.modes[0]
      o = I.heap[s3.id].get("implicit_diff_solve")
      derivative(c, I, cfg, s3, F, o if o is not None else I.fn("jaxopt.linear_solve", "solve_normal_cg"),
                 "default linear solver", pos, kws)


def cur_sol(cfg):
  return cfg.cur


def call_run(I, cfg, solver, pos, kws):
  vals = cfg.values
  return I.call(I.getattr(solver, "run"), [cfg.init] + [vals[n] for n in pos], {n: vals[n] for n in kws})


def derivative(c, I, cfg, solver, F, solve, mode, pos, kws):
  con = f"{cfg.label} {mode}"
  n = len(I.events)
  res, ok = guarded(c, "wrapped", con, lambda: call_run(I, cfg, solver, pos, kws))
  evs = I.events[n:]
  del I.events[n:]
  if not ok:
    return
  where = where_of(I.getattr(solver, "run"))
  calls = [e for e in evs if e.kind == "customcall"]
  if not calls:
    c.bad("wrapped", con, "run carries no derivative rule", where)
    return
  o, flat, kwf = calls[0].data
  rules = [e for e in evs if e.kind == "defrule" and e.data[0] is o]
  rule = rules[-1].data if rules else None
  if rule is None and "rule:defvjp" in o.attrs:
    rule = (o, "defvjp", o.attrs["rule:defvjp"])
  if rule is None or rule[1] != "defvjp" or len(rule[2]) < 2 or kwf:
    c.unknown("wrapped", con, "derivative rule in another form")
    return
  c.ok("wrapped", con)
  if any(e.kind == "looprun" for e in evs):
    c.same("result", con, res, (cur_sol(cfg), tm.mk("sym", "runstate")), where=where)
  fwd, bwd = rule[2][0], rule[2][1]
  vals = cfg.values
  ident = {id(v): k for k, v in vals.items() if v is not None}
  order = []
  for v in flat[1:]:
    order.append(next((k for k, w in vals.items() if w is v or (isinstance(w, (T, tuple)) and w == v)), None))
  if set(x for x in order if x) != set(list(pos) + list(kws)):
    c.unknown("derivative", con, f"arguments not recognised: {order}")
    return
  def backward():
    out = I.unpack_values(I.call(fwd, list(flat), {}), 2)
    sol = I.unpack_values(out[0], 2)[0]
    ct = cot_of(I, cfg, sol) if isinstance(sol, (Rec, T)) else arr("ct")
    r = I.call(bwd, [out[1], (ct, arr("ctstate"))], {})
    return out[0], sol, ct, (I.unpack_values(r, None) or I.iterate(r))
  v, ok = guarded(c, "derivative", con, backward, where)
  if not ok:
    return
  out, sol, ct, grads = v
  if len(grads) != len(flat):
    c.bad("derivative", con, f"{len(grads)} cotangents for {len(flat)} arguments", where)
    return
  if grads[0] is not None and grads[0] is not NONE_T and same_value(grads[0], 0)[0] != "eq":
    c.bad("derivative", con, f"the initial guess receives {describe(grads[0])}", where)
    return
  theta = tuple(vals[n] for n in cfg.names if n in vals)
  tn = [n for n in cfg.names if n in vals]
  neg = PyFn("negF", lambda I, a, k: I.call(I.fn("spec.tree_util", "tree_negative"), [I.call(F, a, k)], {}))
  res = []
  for vv, F_ in (("a", F), ("a", neg), ("b", F), ("b", neg), ("c", F), ("c", neg)):
    try:
      ref = I.unpack_values(I.call(spec_fn(I, "implicit", "root_vjp_" + vv), [F_, sol, theta, ct, solve], {}), None)
    except AbsRaise as e:
      c.unknown("derivative", con, f"reference: {e}")
      return
    by = dict(zip(tn, ref))
    want = tuple(by.get(m) for m in order)
    st, why = same_value(tuple(grads[1:]), want, real=cfg.real)
    res.append((st, why))
    if st == "eq":
      c.ok("derivative", con)
      return
  if all(s == "diff" for s, _ in res):
    c.bad("derivative", con, res[0][1], where)
  else:
    c.unknown("derivative", con, res[0][1])


def signed(c, I, rule, con, got, want, where, real):
  a = same_value(got, want, real=real)
  if a[0] == "eq":
    c.ok(rule, con)
    return
  b = same_value(got, I.call(I.fn("spec.tree_util", "tree_negative"), [want], {}), real=real)
  if b[0] == "eq":
    c.ok(rule, con)
  elif a[0] == b[0] == "diff":
    c.bad(rule, con, a[1], where)
  else:
    c.unknown(rule, con, a[1])
