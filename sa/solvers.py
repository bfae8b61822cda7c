"""Table of solver and line-search configurations and their symbolic execution.

A configuration builds one solver object from the current sources with symbolic
or concrete options, symbolic parameters and arguments.  `drive` interprets
init_state, generalises its result to an arbitrary state of the same structure
and interprets update on it.
"""
import itertools

from . import terms as tm
from .terms import T, mk
from .core import *
from . import models
from .interp import ModuleV

FORMS = ["plain", "aux", "vg", "vg+aux", "vgc", "vgc+aux"]

PUB = "jaxopt"


class Case:
  def __init__(self, cls, label, opts, params, args=(), kwargs=None, form=None, kind="solver", axes=None,
               fun_name=None):
    self.cls, self.label, self.opts, self.params = cls, label, opts, params
    self.args, self.kwargs, self.form, self.kind = args, kwargs or {}, form, kind
    self.axes = axes or {}
    self.fun_name = fun_name

  def __repr__(self):
    return self.label


SCALARS = {"fun": [()], "fun_aux": [(0,)], "fun_vg": [(0,)], "fun_vg_aux": [(0, 0)], "vgfun": [(0,)], "vgfun_aux": [(0, 0)],
           "stepfun": [()], "subfun": [()], "lip": []}


def U(name, shape=None, scalar=None):
  """User function symbol with a declared result structure."""
  f = fnsym(name)
  if scalar or name in SCALARS:
    models.SCALAR_RESULT[f] = scalar or SCALARS[name]
  if shape is not None:
    Interp.result_shapes[f] = shape
  return f


P = (None, None)


DERIVED = False    # supply all six forms of one and the same objective


def objective_opts(form, fun_key="fun"):
  """Constructor options supplying an objective in one of the six forms."""
  if DERIVED:
    d = {"plain": ("derived", "plain"), "aux": ("derived", None), "vg": ("derived", "value_and_grad"),
         "vg+aux": ("derived", "value_aux_and_grad"), "vgc": ("derived", "plain"), "vgc+aux": ("derived", None)}
    o = {fun_key: d[form]}
    if form.startswith("vgc"):
      o["value_and_grad"] = d[form.replace("vgc", "vg")]
    elif form.startswith("vg"):
      o["value_and_grad"] = True
    if form.endswith("aux"):
      o["has_aux"] = True
    return o
  if form == "plain":
    return {fun_key: U("fun")}
  if form == "aux":
    return {fun_key: U("fun_aux", P), "has_aux": True}
  if form == "vg":
    return {fun_key: U("fun_vg", P), "value_and_grad": True}
  if form == "vg+aux":
    return {fun_key: U("fun_vg_aux", (P, None)), "value_and_grad": True, "has_aux": True}
  if form == "vgc":
    return {fun_key: U("fun"), "value_and_grad": U("vgfun", P)}
  if form == "vgc+aux":
    return {fun_key: U("fun_aux", P), "value_and_grad": U("vgfun_aux", (P, None)), "has_aux": True}
  raise KeyError(form)


def function_opts(form, key, name):
  """A residual, fixed-point or optimality function, with or without auxiliary output."""
  if form == "aux":
    return {key: U(name + "_aux", P), "has_aux": True}
  if DERIVED:
    return {key: ("derived", "plain", name), "has_aux": False}
  return {key: U(name), "has_aux": False}


W = lambda r=None: arr("w") if r is None else ranked("w%d" % r, r)


def data_args():
  return (arr("X"),), {"l2": opt("l2")}


STEP = 0.37


def _prod(**axes):
  ks = list(axes)
  for vs in itertools.product(*axes.values()):
    yield dict(zip(ks, vs))


def label(cls, d):
  def s(v):
    if isinstance(v, T):
      return str(v.args[-1]) if v.op == "sym" else tm.show(v, 2)
    return str(v)
  return cls + "[" + ",".join(f"{k}={s(v)}" for k, v in d.items()) + "]"


def grad_family(forms=FORMS):
  out = []
  a, k = data_args()
  steps = [0.0, STEP, U("stepfun")]
  for f, ss, acc in itertools.product(forms, steps, (True, False)):
    o = dict(objective_opts(f), stepsize=ss, acceleration=acc)
    ax = {"form": f, "stepsize": ss, "acceleration": acc}
    out.append(Case("GradientDescent", label("GradientDescent", ax), o, W(), a, k, f, axes=ax))
    out.append(Case("ProximalGradient", label("ProximalGradient", ax), dict(o, prox=U("prox")), W(),
                    (arr("hp"),) + a, k, f, axes=ax))
    out.append(Case("ProjectedGradient", label("ProjectedGradient", ax), dict(o, projection=U("proj")), W(),
                    (arr("hp"),) + a, k, f, axes=ax))
  return out


def mirror():
  out = []
  a, k = data_args()
  for f, ss in itertools.product(["plain", "aux"], [STEP, U("stepfun")]):
    ax = {"form": f, "stepsize": ss}
    out.append(Case("MirrorDescent", label("MirrorDescent", ax),
                    dict(objective_opts(f), stepsize=ss, projection_grad=U("projgrad")), W(),
                    (arr("hp"),) + a, k, f, axes=ax))
  return out


def block():
  out = []
  for b in (None, U("bfun")):
    ax = {"b": b}
    out.append(Case("BlockCoordinateDescent", label("BlockCoordinateDescent", ax),
                    {"fun": ("composite", b), "block_prox": U("blockprox")}, W(2),
                    (arr("hp"), arr("data")), {"l2": opt("l2")}, None, axes=ax))
  return out


def stochastic(forms=FORMS):
  out = []
  a, k = data_args()
  k = dict(k, data=arr("data"))
  for f, var, mom, pre in itertools.product(forms, ("SPS_max", "SPS+"), (0.0, 0.9), (None, "pre")):
    if pre and (f not in ("plain", "aux") or mom):
      continue
    ax = {"form": f, "variant": var, "momentum": mom, "pre_update": pre}
    out.append(Case("PolyakSGD", label("PolyakSGD", ax),
                    dict(objective_opts(f), variant=var, momentum=mom, delta=0.11, fun_min=0.05, max_stepsize=2.5,
                         pre_update=("pre",) if pre else None), W(), a, k, f, axes=ax))
  for f, ro, mom, pre in itertools.product(forms, ("increase", "goldstein", "conservative"), (0.0, 0.9), (None, "pre")):
    if pre and (f not in ("plain", "aux") or mom or ro != "increase"):
      continue
    ax = {"form": f, "reset_option": ro, "momentum": mom, "pre_update": pre}
    out.append(Case("ArmijoSGD", label("ArmijoSGD", ax),
                    dict(objective_opts(f), reset_option=ro, momentum=mom, max_stepsize=2.5,
                         pre_update=("pre",) if pre else None), W(), a, k, f, axes=ax))
  for f, pre in itertools.product(forms, (None, "pre")):
    if pre and f not in ("plain", "aux"):
      continue
    ax = {"form": f, "pre_update": pre}
    out.append(Case("OptaxSolver", label("OptaxSolver", ax),
                    dict(objective_opts(f), opt=("mockopt",), pre_update=("pre",) if pre else None), W(), a, k, f,
                    axes=ax))
  return out


LS = ["zoom", "backtracking", "hager-zhang"]


def quasi(forms=FORMS):
  out = []
  a, k = data_args()
  for f, ls, ss, li in itertools.product(forms, LS, [0.0, STEP, "stepfun"], ("increase", "max", "current")):
    if ss != 0.0 and (ls != "zoom" or li != "increase"):
      continue
    if li != "increase" and f not in ("plain", "vgc+aux"):
      continue
    s = U("stepfun") if ss == "stepfun" else ss
    ax = {"form": f, "linesearch": ls, "stepsize": s, "linesearch_init": li}
    o = dict(objective_opts(f), linesearch=ls, stepsize=s, linesearch_init=li)
    out.append(Case("BFGS", label("BFGS", ax), o, W(), a, k, f, axes=ax))
    out.append(Case("LBFGS", label("LBFGS", ax), dict(o, history_size=3), W(), a, k, f, axes=ax))
    out.append(Case("LBFGSB", label("LBFGSB", ax), dict(o, history_size=3), W(),
                    ((arr("lb"), arr("ub")),) + a, k, f, axes=ax))
    if ss == 0.0:
      for m in ("polak-ribiere", "fletcher-reeves", "hestenes-stiefel"):
        if m != "polak-ribiere" and (ls != "zoom" or li != "increase"):
          continue
        ax2 = dict(ax, method=m)
        ax2.pop("stepsize")
        o2 = dict(o, method=m)
        o2.pop("stepsize")
        out.append(Case("NonlinearCG", label("NonlinearCG", ax2), o2, W(), a, k, f, axes=ax2))
  for ug in (False,):
    ax = {"form": "plain", "use_gamma": ug}
    for c in ("LBFGS", "LBFGSB"):
      out.append(Case(c, label(c, ax), dict(objective_opts("plain"), use_gamma=ug, history_size=3), W(),
                      (((arr("lb"), arr("ub")),) if c == "LBFGSB" else ()) + a, k, "plain", axes=ax))
  for f, ls, ss in itertools.product(["plain", "aux"], ["backtracking", "zoom", "hager-zhang"], [0.0, STEP, "stepfun"]):
    if ss != 0.0 and ls != "backtracking":
      continue
    s = U("stepfun") if ss == "stepfun" else ss
    ax = {"form": f, "linesearch": ls, "stepsize": s}
    out.append(Case("Broyden", label("Broyden", ax),
                    dict(objective_opts(f), linesearch=ls, stepsize=s, history_size=3), W(), a, k, f, axes=ax))
  return out


def leastsq():
  out = []
  a, k = data_args()
  for f in ("plain", "aux"):
    o = function_opts(f, "residual_fun", "res")
    ax = {"form": f}
    out.append(Case("GaussNewton", label("GaussNewton", ax), dict(o), W(1), a, k, f, axes=ax, fun_name="residual_fun"))
    for mj, geo, sc, solver in itertools.product((False, True), (False, True), ("grad-l2-norm", "madsen-nielsen"),
                                                 ("cg", "cholesky", "inv")):
      if solver != "cg" and (not mj or sc != "grad-l2-norm" or geo):
        continue
      ax = {"form": f, "materialize_jac": mj, "geodesic": geo, "stop_criterion": sc, "solver": solver}
      sv = ("linsolve", "solve_cg") if solver == "cg" else solver
      out.append(Case("LevenbergMarquardt", label("LevenbergMarquardt", ax),
                      dict(o, materialize_jac=mj, geodesic=geo, stop_criterion=sc, solver=sv), W(1), a, k, f, axes=ax,
                      fun_name="residual_fun"))
  return out


def fixedpoint():
  out = []
  a, k = data_args()
  for f in ("plain", "aux"):
    o = function_opts(f, "fixed_point_fun", "fp")
    ax = {"form": f}
    out.append(Case("FixedPointIteration", label("FixedPointIteration", ax), dict(o), W(), a, k, f, axes=ax,
                    fun_name="fixed_point_fun"))
    for mf in (1, 2):
      ax = {"form": f, "mixing_frequency": mf}
      out.append(Case("AndersonAcceleration", label("AndersonAcceleration", ax),
                      dict(o, history_size=3, mixing_frequency=mf), W(), a, k, f, axes=ax, fun_name="fixed_point_fun"))
    ax = {"form": f, "solver": "FixedPointIteration"}
    out.append(Case("AndersonWrapper", label("AndersonWrapper", ax),
                    {"solver": ("solver", "FixedPointIteration", o), "history_size": 3}, W(), a, k, f, axes=ax))
  ax = {"form": "plain", "solver": "GradientDescent"}
  out.append(Case("AndersonWrapper", label("AndersonWrapper", ax),
                  {"solver": ("solver", "GradientDescent", {"fun": U("fun"), "acceleration": False}),
                   "history_size": 3}, W(), a, k, "plain", axes=ax))
  for f, cb in itertools.product(("plain", "aux"), (True, False)):
    o = function_opts(f, "optimality_fun", "F")
    ax = {"form": f, "check_bracket": cb}
    out.append(Case("Bisection", label("Bisection", ax), dict(o, lower=opt("lower"), upper=opt("upper"), check_bracket=cb),
                    opt("w0"), a, k, f, axes=ax, fun_name="optimality_fun"))
  return out


def qp():
  out = []
  Q, A, G = ranked("Q", 2), ranked("A", 2), ranked("G", 2)
  b, cc, l, u = ranked("b", 1), ranked("c", 1), ranked("l", 1), ranked("u", 1)
  out.append(Case("IterativeRefinement", "IterativeRefinement[matrix]", {"solve": U("solve")}, W(1),
                  (ranked("A", 2), b), {}, None, axes={}))
  out.append(Case("IterativeRefinement", "IterativeRefinement[A_bar]",
                  {"matvec_A": U("matvecA"), "matvec_A_bar": U("matvecAbar"), "solve": U("solve")}, W(1),
                  (arr("pA"), b), {"A_bar": arr("pAbar")}, None, axes={}))
  models.RESULT_RANK.update({fnsym("matvecA"): 1, fnsym("matvecAbar"): 1, fnsym("solve"): 1})
  out.append(Case("BoxCDQP", "BoxCDQP[]", {}, W(1), ((Q, cc), (l, u)), {}, None, axes={}))
  for es, inf_, freq in itertools.product(("cg", "cg+jacobi", "lu"), (True, False), (10, 0)):
    if es != "cg" and (inf_ is False or freq == 0):
      continue
    ax = {"eq_qp_solve": es, "check_primal_dual_infeasability": inf_, "stepsize_updates_frequency": freq}
    out.append(Case("BoxOSQP", label("BoxOSQP", ax), dict(ax), ("kkt",), ((Q, cc), A, (l, u)), {}, None, axes=ax))
  return out


def linesearches(forms=FORMS):
  out = []
  fa = (arr("X"),)
  for f in forms:
    for cond in ("strong-wolfe", "wolfe", "goldstein", "armijo"):
      ax = {"form": f, "condition": cond}
      out.append(Case("BacktrackingLineSearch", label("BacktrackingLineSearch", ax),
                      dict(objective_opts(f), condition=cond, max_stepsize=2.5), None, fa, {"l2": opt("l2")}, f,
                      kind="linesearch", axes=ax))
    for ms in (None, 2.5):
      ax = {"form": f, "max_stepsize": ms}
      out.append(Case("ZoomLineSearch", label("ZoomLineSearch", ax), dict(objective_opts(f), max_stepsize=ms), None,
                      fa, {"l2": opt("l2")}, f, kind="linesearch", axes=ax))
    ax = {"form": f}
    out.append(Case("HagerZhangLineSearch", label("HagerZhangLineSearch", ax), dict(objective_opts(f), max_stepsize=2.5),
                    None, fa, {"l2": opt("l2")}, f, kind="linesearch", axes=ax))
  return out


def all_cases(forms=FORMS):
  return (grad_family(forms) + mirror() + block() + stochastic(forms) + quasi(forms) + leastsq() + fixedpoint() +
          qp() + linesearches(forms))


SMALL_FORMS = ["plain", "vgc+aux"]


# ------------------------------------------------------------------ build ----
def public(I, name):
  env = I.module(PUB)
  if env is None:
    raise AnalysisBroken("package jaxopt missing")
  v = env.frame.vars.get(name)
  if isinstance(v, I_.ImportRef):
    v = I.resolve_import(v)
  if not isinstance(v, I_.ClassInfo):
    raise AnalysisBroken(f"public class jaxopt.{name} missing")
  return v


def build_opt(I, v):
  if isinstance(v, tuple) and v and isinstance(v[0], str):
    if v[0] == "derived":
      obj = U(v[2] + "_aux" if len(v) > 2 else "fun_aux", P)
      return obj if v[1] is None else I.call(I.fn("spec.forms", v[1]), [obj], {})
    if v[0] == "mockopt":
      return I.instantiate(I.cls("spec.mocks", "MockOpt"), [U("opt_init", P), U("opt_update", (None, P))], {})
    if v[0] == "pre":
      # pre_update(params, state, *args, **kwargs) -> params, state (same structure)
      def pre(I, a, k):
        params, st = a[0], a[1]
        la = tuple(I.lift(x) for x in a[2:]) + tuple(mk("kw", n, I.lift(x)) for n, x in sorted(k.items()))
        I.event("preupdate", (I.lift(params), I.lift(st), la))
        run = mk("prerun", I.lift(params), I.lift(st), *la)
        return (mk("out", run, ".params"), I._gen(st, lambda p: mk("out", run, ".state" + p), ""))
      return PyFn("pre_update", pre)
    if v[0] == "composite":
      return I.instantiate(I.cls("spec.mocks", "MockComposite"), [U("subfun"), U("linop"), U("lip"), v[1]], {})
    if v[0] == "named composite":
      return I.instantiate(I.cls("spec.mocks", "NamedComposite"), [U("subfun"), U("linop"), U("lip"), v[1]], {})
    if v[0] == "scaled":   # block_prox(x, hyper, scaling=1.0)
      f = v[1]
      def bp(I, a, k):
        names = ["x", "hyperparams_prox", "scaling"]
        d = dict(zip(names, a))
        d.update(k)
        return I.call(f, [d["x"], d.get("hyperparams_prox"), d.get("scaling", 1.0)], {})
      return PyFn("block_prox", bp)
    if v[0] == "linsolve":
      return I.fn("jaxopt.linear_solve", v[1])
    if v[0] == "solver":
      return I.instantiate(public(I, v[1]), [], {k: build_opt(I, x) for k, x in v[2].items()})
  return v


def build(I, case, **over):
  opts = {k: build_opt(I, v) for k, v in case.opts.items()}
  opts.setdefault("jit", False)
  opts.update(over)
  return I.instantiate(public(I, case.cls), [], opts)


class Driven:
  pass


def ls_hook(I, s, fn, args, kwargs):
  """Summary of IterativeLineSearch.run: any step along the direction it was given."""
  ci = s.cls
  names = ["init_stepsize", "params", "value", "grad", "descent_direction", "fun_args", "fun_kwargs"]
  d = dict(zip(names, args))
  d.update(kwargs)
  o = I.heap[s.id]
  p = d.get("params")
  dd = d.get("descent_direction")
  fa = d.get("fun_args")
  fk = d.get("fun_kwargs")
  fa = list(I.iterate(fa) or []) if fa is not None else []
  fk = dict(I.payload(fk)) if isinstance(fk, Ref) else {}
  ev = len(I.events)
  vg = I.call(I.fn("spec.mocks", "value_and_grad_of"), [o["fun"], o.get("value_and_grad", False),
                                                       o.get("has_aux", False)], {})
  run = ls_token(I, s, d, fa, fk, vg)
  del I.events[ev:]
  I.event("lsrun", (s, {k: (I.lift(v) if v is not None else NONE_T) for k, v in d.items()}, run, d))
  step = mk("lsf", run, ".stepsize")
  ev = len(I.events)
  frozen = I.frozen
  try:
    if dd is None:
      g0 = d.get("grad")
      if g0 is None:
        g0 = I.unpack_values(I.call(vg, [p] + fa, fk), 2)[1]
      dd = I.call(I.fn("jaxopt.tree_util", "tree_scalar_mul"), [-1, g0], {})
    np_ = I.call(I.fn("jaxopt.tree_util", "tree_add_scalar_mul"), [p, step, dd], {})
    (va, g) = I.unpack_values(I.call(vg, [np_] + fa, fk), 2)
    v, aux = I.unpack_values(va, 2)
  finally:
    del I.events[ev:]
  st = ls_state(I, ci, o.get("has_aux", False))
  known = {"params": np_, "value": v, "grad": g, "aux": aux}
  vals = {}
  for k in st.vals:
    if k in known:
      vals[k] = known[k]
    elif st.vals[k] is None:
      vals[k] = None
    else:
      vals[k] = mk("lsf", run, "." + k)
  LSS = I.cls("jaxopt._src.base", "LineSearchStep")
  return Rec(LSS, {"stepsize": step, "state": Rec(st.cls, vals)})


def ls_token(I, s, d, fa, fk, vg):
  """The run of a line search: a function of its options, objective (value and gradient) and starting point."""
  o = I.heap[s.id]
  skip = ("jit", "unroll", "verbose", "fun", "value_and_grad", "update", "has_aux", "implicit_diff", "implicit_diff_solve")
  opts = [mk("kv", n, I.lift(o[n])) for n, _, _ in s.cls.fields() if n not in skip and n in o]
  (va, g) = I.unpack_values(I.call(vg, [arr("lsprobe")] + fa, fk), 2)
  fun = mk("tuple", I.lift(I.unpack_values(va, 2)[0]), I.lift(g))
  p, value, grad, dd = (d.get(k) for k in ("params", "value", "grad", "descent_direction"))
  given = value is not None and grad is not None
  if not given:
    (va, grad) = I.unpack_values(I.call(vg, [p] + fa, fk), 2)
    value = I.unpack_values(va, 2)[0]
  if dd is None:
    dd = I.call(I.fn("jaxopt.tree_util", "tree_scalar_mul"), [-1, I.call(I.fn("jaxopt.tree_util", "tree_conj"), [grad], {})], {})
  ins = [mk("kv", k, I.lift(v)) for k, v in (("init_stepsize", d.get("init_stepsize")), ("params", p), ("value", value),
                                             ("grad", grad), ("given", given), ("descent_direction", dd))]
  return mk("lsrun", s.cls.name, mk("kv", "fun", fun), *opts, *ins)


_LS_STATE = {}


def ls_state(I, ci, has_aux):
  """Structure of the state a line search class returns."""
  key = (id(I), ci.qual, bool(has_aux) if isinstance(has_aux, bool) else True)
  if key in _LS_STATE:
    return _LS_STATE[key]
  ev = len(I.events)
  mh = I.method_hooks
  I.method_hooks = []
  path = I.path
  I.path = []
  unroll = I.unroll_loops
  I.unroll_loops = 0
  try:
    o = {k: build_opt(I, v) for k, v in objective_opts("aux" if has_aux else "plain").items()}
    s = I.instantiate(ci, [], dict(o, jit=False))
    st = I.call(I.getattr(s, "init_state"), [opt("ls0"), arr("p0")], {})
  finally:
    del I.events[ev:]
    I.method_hooks = mh
    I.path = path
    I.unroll_loops = unroll
  _LS_STATE[key] = st
  return st


def solver_interp(summarise_ls=True):
  I = new_interp()
  if summarise_ls:
    base_ls = I.cls("jaxopt._src.base", "IterativeLineSearch")

    def pred(cls, name, owner):
      return name == "run" and isinstance(cls, I_.ClassInfo) and base_ls in cls.mro()
    I.method_hooks.append((pred, ls_hook))
  return I


def init_args(I, case, solver):
  """(positional, keyword) arguments of init_state, and of update after (params, state)."""
  p = case.params
  if p == ("kkt",):
    K = I.cls("jaxopt._src.base", "KKTSolution")
    p = Rec(K, {"primal": (ranked("x", 1), ranked("z", 1)), "dual_eq": ranked("y", 1),
                "dual_ineq": (ranked("mu", 1), ranked("phi", 1))})
  if case.kind == "linesearch":
    fa = I.newlist(list(case.args))
    fk = I.newdict(dict(case.kwargs))
    given = {"all": ("value", "grad", "descent_direction"), "values": ("value", "grad"), "none": ()}
    kw = {"value": opt("v0"), "grad": arr("g0"), "descent_direction": arr("dd")}
    kw = {k: v for k, v in kw.items() if k in given[case.axes.get("start", "all")]}
    return (opt("step0"), [arr("p0")], dict(kw, fun_args=fa, fun_kwargs=fk))
  return (p, list(case.args), dict(case.kwargs))


def drive(I, case, **over):
  """Builds, initialises, generalises, updates."""
  d = Driven()
  d.case = case
  I.events.clear()
  I.assumptions = {}
  for t in [t for t in models.RANK if t.op in ("st", "updst", "updp")]:
    del models.RANK[t]
  d.solver = build(I, case, **over)
  p, a, k = init_args(I, case, d.solver)
  d.params, d.args, d.kwargs = p, a, k
  n0 = len(I.events)
  d.init = I.call(I.getattr(d.solver, "init_state"), [p] + a, k)
  n1 = len(I.events)
  d.init_events = I.events[n0:n1]
  d.state = I.generalize(d.init, ("st",))
  known_dims(I, d)
  known_ranks(d.init, d.state)
  for f, r in FIELD_RANKS.get(case.cls, {}).items():
    x = d.state.vals.get(f)
    if isinstance(x, T) and x.op == "st":
      models.RANK[x] = r
  if case.kind == "linesearch":
    d.state_params = mk("st", ".stepsize")
    models.RANK[d.state_params] = 0
  else:
    d.state_params = I._gen(p, lambda q: rank_like(p, q, mk("st", "params" + q)), "")
  try:
    d.out = I.call(I.getattr(d.solver, "update"), [d.state_params, d.state] + a, k)
  finally:
    d.update_events = I.events[n1:]
  xs = I.unpack_values(d.out, 2)
  d.new_params, d.new_state = xs
  return d


HISTORY = {"s_history": 1, "y_history": 1, "rho_history": 1, "d_history": 1, "c_history": 1, "params_history": 1,
           "residuals_history": 1, "residual_gram": 2}


def known_dims(I, d):
  """History buffers have history_size leading entries (their allocation is checked by P18)."""
  models.LEAD.clear()
  m = I.heap[d.solver.id].get("history_size") if isinstance(d.solver, I_.Ref) else None
  if isinstance(m, int) and isinstance(d.state, Rec):
    for f, n in HISTORY.items():
      v = d.state.vals.get(f)
      if v is not None:
        for x in tm.deps(I.lift(v)):
          if x.op == "st":
            models.LEAD[x] = (m,) * n
            r = models.rank(d.params) if isinstance(d.params, T) else None
            if n == 2 or r:
              models.RANK[x] = 2 if n == 2 else 1 if f == "rho_history" else r + 1


# one-dimensional parameters and residuals, as these solvers document
FIELD_RANKS = {"LevenbergMarquardt": {"residual": 1, "gradient": 1, "delta": 1, "jac": 2, "jt": 2, "jtj": 2, "hess_res": 3}}


def known_ranks(init, state):
  """A state entry has as many axes as what it was initialised with (zeros may stand for any shape)."""
  if isinstance(state, T) and isinstance(init, T):
    r = models.rank(init)
    if r and state.op == "st":
      models.RANK[state] = r
  elif isinstance(state, Rec) and isinstance(init, Rec):
    for k, v in state.vals.items():
      known_ranks(init.vals.get(k), v)
  elif isinstance(state, tuple) and isinstance(init, tuple) and len(state) == len(init):
    for x, y in zip(init, state):
      known_ranks(x, y)


def rank_like(p, q, t):
  cur = p
  for part in [x for x in q.split(".") if x]:
    if isinstance(cur, Rec):
      cur = cur.vals[part]
    elif isinstance(cur, tuple):
      cur = cur[int(part)]
  r = models.rank(cur) if isinstance(cur, T) else None
  if r is not None:
    models.RANK[t] = r
  else:
    models.RANK.pop(t, None)
  return t


def try_drive(I, case, **over):
  """drive, or None when this combination is rejected (raises) or cannot be analysed."""
  try:
    return drive(I, case, **over)
  except AbsRaise as e:
    case.error = str(e)
    return None
  except AnalysisBroken:
    raise
  except Exception as e:   # construct outside the interpreted subset
    case.error = f"not interpreted: {type(e).__name__} {e}"
    return None


def through_pre(t):
  """View the result of an arbitrary pre_update as the state it was given."""
  if not isinstance(t, T):
    return t
  m = {}
  for x in tm.deps(t):
    if isinstance(x, T) and x.op == "out" and isinstance(x.args[1], str) and x.args[1].startswith(".state."):
      m[x] = mk("st", x.args[1][len(".state"):])
  return tm.substitute(t, m) if m else t


def osqp_states(I, c, check):
  """OSQP delegates to BoxOSQP; its update is exercised through the inner solver."""
  return


def kids(I, v):
  if isinstance(v, tuple):
    return list(v)
  if isinstance(v, Rec):
    return list(v.vals.values())
  if isinstance(v, Ref) and v.kind == "list":
    return list(I.payload(v))
  if isinstance(v, Ref) and v.kind == "dict":
    p = I.payload(v)
    return [p[k] for k in sorted(p, key=str)]
  if isinstance(v, T) and v.op == "tuple":
    return list(v.args)
  return []


def tree_params(I):
  return I.newdict({"bias": arr("w_b"), "lin": (arr("w_1"), arr("w_2"))})


TREE_OK = ("GradientDescent", "ProximalGradient", "ProjectedGradient", "MirrorDescent", "PolyakSGD", "ArmijoSGD",
           "OptaxSolver", "LBFGS", "NonlinearCG", "FixedPointIteration", "BFGS", "LBFGSB", "Broyden",
           "AndersonAcceleration")


def tree_cases():
  """One case per documented pytree solver and objective form, with default options."""
  seen = set()
  for c in all_cases():
    if c.cls not in TREE_OK or c.form not in ("plain", "aux"):
      continue
    key = (c.cls, c.form, c.axes.get("linesearch"), str(c.axes.get("stepsize")), c.axes.get("acceleration"),
           c.axes.get("pre_update"))
    if key in seen:
      continue
    seen.add(key)
    yield c
