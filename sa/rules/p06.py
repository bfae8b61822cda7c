"""P06: every public option takes effect, including through inner solvers."""
import ast

from ..core import *
from .. import interp as I_
from .. import models
from .. import solvers as S
from .. import terms as tm

FLOOR = 100

# decided elsewhere: the objective and its forms (P03), the differentiation options (P08), printing (P12), the execution
# modes (P13)
ELSEWHERE = {"fun", "value_and_grad", "has_aux", "implicit_diff", "implicit_diff_solve", "verbose", "jit", "unroll"}
# documented as unused or deprecated
UNUSED = {("HagerZhangLineSearch", "max_stepsize"), ("BFGS", "decrease_factor"), ("LBFGS", "decrease_factor"),
          ("LBFGSB", "decrease_factor"), ("NonlinearCG", "decrease_factor"), ("BFGS", "condition"), ("LBFGS", "condition"),
          ("LBFGSB", "condition"), ("NonlinearCG", "condition")}

SEARCH = lambda ax: ax.get("stepsize", 0.0) == 0.0
GROW = lambda ax: SEARCH(ax) and ax.get("linesearch_init", "increase") == "increase"
QN = ("BFGS", "LBFGS", "LBFGSB", "NonlinearCG")

# the configurations in which an option is documented to matter (default: all)
MODES = {("PolyakSGD", "max_stepsize"): lambda ax: ax["variant"] == "SPS_max",
         ("PolyakSGD", "delta"): lambda ax: ax["variant"] == "SPS_max",
         ("ArmijoSGD", "increase_factor"): lambda ax: ax["reset_option"] in ("increase", "goldstein"),
         ("LevenbergMarquardt", "tol"): lambda ax: ax["stop_criterion"] == "grad-l2-norm",
         ("LevenbergMarquardt", "xtol"): lambda ax: ax["stop_criterion"] == "madsen-nielsen",
         ("LevenbergMarquardt", "gtol"): lambda ax: ax["stop_criterion"] == "madsen-nielsen",
         ("LevenbergMarquardt", "contribution_ratio_threshold"): lambda ax: ax["geodesic"],
         ("BoxOSQP", "primal_infeasible_tol"): lambda ax: ax["check_primal_dual_infeasability"],
         ("BoxOSQP", "dual_infeasible_tol"): lambda ax: ax["check_primal_dual_infeasability"],
         ("BoxOSQP", "rho_min"): lambda ax: ax["stepsize_updates_frequency"],
         ("BoxOSQP", "rho_max"): lambda ax: ax["stepsize_updates_frequency"],
         ("BacktrackingLineSearch", "c2"): lambda ax: ax["condition"] in ("wolfe", "strong-wolfe")}
for _c in ("GradientDescent", "ProximalGradient", "ProjectedGradient"):
  MODES[(_c, "maxls")] = MODES[(_c, "decrease_factor")] = SEARCH
for _c in QN + ("Broyden",):
  MODES[(_c, "maxls")] = SEARCH
  MODES[(_c, "max_stepsize")] = lambda ax: SEARCH(ax) and ax.get("linesearch") != "hager-zhang" or SEARCH(ax) and ax.get("linesearch_init") == "max"
  MODES[(_c, "increase_factor")] = MODES[(_c, "min_stepsize")] = GROW
MODES[("Broyden", "decrease_factor")] = SEARCH

# options whose values are not numbers: each value makes the solver do something different
VALUES = {"acceleration": (True, False), "linesearch": ("backtracking", "zoom", "hager-zhang"),
          "linesearch_init": ("increase", "max", "current"), "method": ("polak-ribiere", "fletcher-reeves", "hestenes-stiefel"),
          "variant": ("SPS_max", "SPS+"), "reset_option": ("increase", "goldstein", "conservative"), "momentum": (0.0, 0.9, 0.5),
          "use_gamma": (True, False), "stop_if_linesearch_fails": (True, False), "history_size": (3, 4),
          "stop_criterion": ("grad-l2-norm", "madsen-nielsen"), "geodesic": (True, False), "mixing_frequency": (1, 2, 3),
          "eq_qp_solve": ("cg", "lu"), "check_primal_dual_infeasability": (True, False),
          "stepsize_updates_frequency": (0, 10, 20), "stepsize": (0.0, 0.37, 0.25), "condition": ("strong-wolfe", "wolfe", "goldstein", "armijo"),
          "pre_update": (None, ("pre",)), "max_stepsize": (None, 2.5, 3.5)}
# a value that is documented to have no effect of its own in this class
NOVALUE = {("Broyden", "linesearch"): ("backtracking",)}


def run(c):
  c.rule("influence", "the result of run depends on every numeric option in the modes it is documented for")
  c.rule("value", "distinct values of a mode option make distinct solvers")
  c.rule("inner", "an inner solver or line search receives the options given to the outer one")
  # Broyden documents the other line searches as experimental; its update does not run with them
  cases = [k for k in S.all_cases(("plain",)) if not (k.cls == "Broyden" and k.axes["linesearch"] != "backtracking")]
  by = {}
  for k in cases:
    by.setdefault(k.cls, []).append(k)
  groups = [(g, i) for g in by.values() for i in range(0, len(g), 6)]
  parallel(c, [influence_part(g, i) for g, i in groups] + [value_part(g) for g in by.values()] + [inner_linesearch, inner_qp], 7)


def options(ci):
  """Public options with their default nodes."""
  return [(n, d) for n, d, _ in ci.fields() if not n.startswith("_") and n not in ELSEWHERE and (ci.name, n) not in UNUSED]


def numeric(d):
  try:
    v = ast.literal_eval(d) if d is not None else None
  except ValueError:
    return False
  return isinstance(v, (int, float)) and not isinstance(v, bool)


def outcome(I, case, **over):
  """The result of run, a term over options and inputs."""
  I.events.clear()
  I.assumptions = {}
  models.LEAD.clear()
  kept = {k: v for k, v in case.opts.items() if k not in over}
  k2 = S.Case(case.cls, case.label, kept, case.params, case.args, case.kwargs, case.form, case.kind, case.axes, case.fun_name)
  s = S.build(I, k2, **dict(dict(jit=True, unroll=False), **{n: S.build_opt(I, v) for n, v in over.items()}))
  p, a, k = S.init_args(I, k2, s)
  return I.lift(I.call(I.getattr(s, "run"), [p] + a, k))


def attempt(c, rule, con, I, case, **over):
  try:
    return outcome(I, case, **over)
  except AbsRaise as e:
    return e
  except (AnalysisBroken, MemoryError):
    raise
  except Exception as e:    # outside the interpreted subset
    c.unknown(rule, con, f"not interpreted: {type(e).__name__} {e}")
    return None


def interp_for(case):
  return S.solver_interp(summarise_ls=case.kind != "linesearch")


def influence_part(group, i):
  def go(sub):
    case0 = group[0]
    I = interp_for(case0)
    ci = S.public(I, case0.cls)
    where = ci.qual
    for case in group[i:i + 6]:
      for n, d in options(ci):
        mode = MODES.get((case.cls, n), lambda ax: True)
        if n in case.axes or not numeric(d) or not mode(case.axes):
          continue
        if case.opts.get(n) is not None and isinstance(case.opts[n], (tuple, str)):
          continue
        x = opt("option_" + n)
        con = f"{case} {n}"
        t = attempt(sub, "influence", con, I, case, **{n: x})
        if t is None:
          continue
        if isinstance(t, AbsRaise):
          sub.unknown("influence", con, f"raises {t}")
        elif x in tm.deps(t):
          sub.ok("influence", con)
        else:
          sub.bad("influence", con, f"the result of run does not depend on the option {n}", where)
    sub.absorb(I)
  return go


def value_part(group):
  def go(sub):
    case0 = group[0]
    I = interp_for(case0)
    ci = S.public(I, case0.cls)
    names = {n for n, d in options(ci)}
    for n, vals in VALUES.items():
      if n not in names:
        continue
      if n == "max_stepsize" and case0.cls != "ZoomLineSearch" or n == "momentum" and case0.cls == "BoxOSQP":
        continue
      base = next((k for k in group if MODES.get((case0.cls, n), lambda ax: True)(k.axes) and searching(k, n)), None)
      if base is None:
        continue
      seen = []
      for v in vals:
        con = f"{base} {n}={v}"
        over = {n: v}
        t = attempt(sub, "value", con, I, base, **over)
        if t is None:
          continue
        if isinstance(t, AbsRaise):
          if model_limit(t) or (case0.cls, n) in NOVALUE or isinstance(v, (int, float)):
            sub.unknown("value", con, f"raises {t}")
          else:
            sub.bad("value", con, f"raises {t}", ci.qual)
          continue
        twin = next((w for w, u in seen if u is t), None)
        seen.append((v, t))
        if twin is None:
          sub.ok("value", con)
        else:
          sub.bad("value", con, f"run does the same as with {n}={twin}", ci.qual)
    sub.absorb(I)
  return go


def searching(case, n):
  """Options of a line search matter where there is one."""
  if n in ("linesearch", "linesearch_init"):
    return SEARCH(case.axes)
  if n == "stop_if_linesearch_fails":
    return SEARCH(case.axes)
  return True


def attr(I, ref, n):
  v = I.heap[ref.id].get(n)
  return v


CLS = {"backtracking": "BacktrackingLineSearch", "zoom": "ZoomLineSearch", "hager-zhang": "HagerZhangLineSearch"}


def inner_linesearch(c):
  """The line search of a solver: its class and options are those the solver was given."""
  for name in QN:
    for ls in CLS:
      for jit, unroll, verbose in ((True, False, 0), (False, True, 1), (True, True, 2), (False, False, 3)):
        I = S.solver_interp()
        case = next(k for k in S.quasi(("plain",)) if k.cls == name and k.axes.get("linesearch") == ls and SEARCH(k.axes))
        con = f"{name}[linesearch={ls},jit={jit},unroll={unroll},verbose={verbose}]"
        I.events.clear()
        I.assumptions = {}
        try:
          s = S.build(I, case, jit=jit, unroll=unroll, verbose=verbose, maxls=opt("maxls"), max_stepsize=2.5)
          p, a, k = S.init_args(I, case, s)
          st = I.call(I.getattr(s, "init_state"), [p] + a, k)
          I.call(I.getattr(s, "update"), [p, st] + a, k)
        except AbsRaise as e:
          c.unknown("inner", con, f"raises {e}")
          continue
        runs = [e.data for e in I.events if e.kind == "lsrun"]
        where = S.public(I, name).qual
        if not runs:
          c.unknown("inner", con, "no line search is run")
          continue
        r = runs[0][0]
        if r.cls.name != CLS[ls]:
          c.bad("inner", con + " class", f"runs {r.cls.name}", where)
          continue
        want = {"maxiter": opt("maxls"), "jit": jit, "unroll": unroll, "verbose": max(verbose - 1, 0)}
        if ls != "hager-zhang":
          want["max_stepsize"] = 2.5
        for n, w in want.items():
          c.same("inner", f"{con} {n}", norm(I, attr(I, r, n)), norm(I, w), where=where)
        c.absorb(I)
    # a line search object is used as given
    I = S.solver_interp()
    case = next(k for k in S.quasi(("plain",)) if k.cls == name and SEARCH(k.axes))
    mine = I.instantiate(S.public(I, "BacktrackingLineSearch"), [], {"fun": S.U("fun"), "maxiter": opt("mine")})
    con = f"{name}[linesearch=object]"
    I.events.clear()
    try:
      s = S.build(I, case, linesearch=mine)
      p, a, k = S.init_args(I, case, s)
      st = I.call(I.getattr(s, "init_state"), [p] + a, k)
      I.call(I.getattr(s, "update"), [p, st] + a, k)
    except AbsRaise as e:
      (c.unknown if model_limit(e) else c.bad)("inner", con, f"raises {e}", *([] if model_limit(e) else [S.public(I, name).qual]))
      continue
    runs = [e.data for e in I.events if e.kind == "lsrun"]
    if not runs:
      c.unknown("inner", con, "no line search is run")
    elif runs[0][0].cls.name != "BacktrackingLineSearch" or attr(I, runs[0][0], "maxiter") is not opt("mine"):
      c.bad("inner", con, f"runs another {runs[0][0].cls.name}", S.public(I, name).qual)
    else:
      c.ok("inner", con)
    c.absorb(I)
  # Broyden's own
  I = S.solver_interp()
  case = next(k for k in S.quasi(("plain",)) if k.cls == "Broyden" and k.axes.get("linesearch") == "backtracking" and SEARCH(k.axes))
  for jit, unroll in ((True, False), (False, True)):
    con = f"Broyden[linesearch=backtracking,jit={jit},unroll={unroll}]"
    I.events.clear()
    I.assumptions = {}
    try:
      s = S.build(I, case, jit=jit, unroll=unroll, maxls=opt("maxls"), max_stepsize=2.5, decrease_factor=opt("dec"))
      p, a, k = S.init_args(I, case, s)
      st = I.call(I.getattr(s, "init_state"), [p] + a, k)
      I.call(I.getattr(s, "update"), [p, st] + a, k)
    except AbsRaise as e:
      c.unknown("inner", con, f"raises {e}")
      continue
    runs = [e.data for e in I.events if e.kind == "lsrun"]
    if not runs:
      c.unknown("inner", con, "no line search is run")
      continue
    for n, w in {"maxiter": opt("maxls"), "max_stepsize": 2.5, "decrease_factor": opt("dec"), "jit": jit,
                 "unroll": unroll}.items():
      c.same("inner", f"{con} {n}", norm(I, attr(I, runs[0][0], n)), norm(I, w), where=S.public(I, "Broyden").qual)
  c.absorb(I)


def norm(I, v):
  if isinstance(v, bool):
    return tm.num(int(v))
  if isinstance(v, (int, float)):
    return tm.num(v)
  t = I.lift(v)
  return tm.num(1) if t is tm.TRUE else tm.num(0) if t is tm.FALSE else t


def inner_qp(c):
  I = S.solver_interp()
  Q, A, G = ranked("Q", 2), ranked("A", 2), ranked("G", 2)
  b, cc, h = ranked("b", 1), ranked("c", 1), ranked("h", 1)
  rec = []
  K, OS = I.cls("jaxopt._src.base", "KKTSolution"), I.cls("jaxopt._src.base", "OptStep")

  def hook(I, s, fn, args, kw):
    rec.append(dict(I.heap[s.id]))
    if s.cls.name == "BoxOSQP":
      sol = Rec(K, {"primal": (ranked("x", 1), ranked("z", 1)), "dual_eq": ranked("y", 1), "dual_ineq": (ranked("mu", 1), ranked("phi", 1))})
      B = I.cls("jaxopt._src.osqp", "BoxOSQPState")
      return Rec(OS, {"params": sol, "state": Rec(B, {n: mk("sym", "box", n) for n, _, _ in B.fields()})})
    return ((ranked("x", 1), ranked("y", 1)), mk("sym", "inner"))
  I.method_hooks.append((lambda cls, name, owner: name == "run" and getattr(cls, "name", "") in ("BoxOSQP", "IterativeRefinement"), hook))
  box = S.public(I, "BoxOSQP")
  given = {n: opt("option_" + n) for n, d in options(box) if numeric(d) and n not in ("stepsize_updates_frequency", "termination_check_frequency")}
  given.update(stepsize_updates_frequency=7, termination_check_frequency=3, eq_qp_solve="lu", check_primal_dual_infeasability=False,
               verbose=2, jit=False, unroll=True, implicit_diff_solve=fnsym("linear_solver"))
  con = "OSQP -> BoxOSQP"
  where = S.public(I, "OSQP").qual
  try:
    s = I.instantiate(S.public(I, "OSQP"), [], dict(given))
    I.call(I.getattr(s, "run"), [None, (Q, cc), (A, b), (G, h)], {})
  except AbsRaise as e:
    (c.unknown if model_limit(e) else c.bad)("inner", con, f"raises {e}", *([] if model_limit(e) else [where]))
  if rec:
    for n, w in given.items():
      g = rec[0].get(n)
      if isinstance(w, str):
        (c.ok("inner", f"{con} {n}") if g == w else c.bad("inner", f"{con} {n}", f"receives {g}", where))
      else:
        c.same("inner", f"{con} {n}", norm(I, g), norm(I, w), where=where)
  rec.clear()
  con = "EqualityConstrainedQP -> IterativeRefinement"
  where = S.public(I, "EqualityConstrainedQP").qual
  inner = []

  def solve(I, a, k):
    inner.append(k)
    return (ranked("sp", 1), ranked("sd", 1))
  try:
    s = I.instantiate(S.public(I, "EqualityConstrainedQP"), [], {"solve": PyFn("solve", solve), "tol": opt("tol"), "maxiter": opt("maxiter"),
                                                                 "refine_regularization": opt("reg"), "refine_maxiter": opt("refine")})
    I.call(I.getattr(s, "run"), [None, (Q, cc), (A, b)], {})
  except AbsRaise as e:
    c.unknown("inner", con, f"raises {e}")
  if rec:
    c.same("inner", con + " maxiter", norm(I, rec[0].get("maxiter")), opt("refine"), where=where)
    c.same("inner", con + " tol", norm(I, rec[0].get("tol")), opt("tol"), where=where)
    f = rec[0].get("solve")
    I.call(f, [PyFn("mv", lambda I, a, k: a[0]), b], {})
    if inner:
      c.same("inner", con + " solve tol", norm(I, inner[-1].get("tol")), opt("tol"), where=where)
      c.same("inner", con + " solve maxiter", norm(I, inner[-1].get("maxiter")), opt("maxiter"), where=where)
  c.absorb(I)
