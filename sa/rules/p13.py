"""P13: unknown option strings are rejected, never silently ignored."""
import dataclasses

from ..core import *
from .. import solvers as S
from .. import terms as tm

FLOOR = 60

LSN = ["zoom", "backtracking", "hager-zhang"]
LSI = ["increase", "max", "current"]
COND = ["strong-wolfe", "wolfe", "goldstein", "armijo"]

# class, option, documented names, other options needed for the option to be used
TABLE = [
    ("BFGS", "linesearch", LSN, {}), ("BFGS", "linesearch_init", LSI, {}),
    ("LBFGS", "linesearch", LSN, {}), ("LBFGS", "linesearch_init", LSI, {}),
    ("LBFGSB", "linesearch", LSN, {}), ("LBFGSB", "linesearch_init", LSI, {}),
    ("NonlinearCG", "linesearch", LSN, {}), ("NonlinearCG", "linesearch_init", LSI, {}),
    ("NonlinearCG", "method", ["polak-ribiere", "fletcher-reeves", "hestenes-stiefel"], {}),
    ("Broyden", "linesearch", ["backtracking"], {}),
    ("Broyden", "condition", ["wolfe", "armijo", "goldstein", "strong-wolfe"], {}),
    ("ArmijoSGD", "reset_option", ["increase", "goldstein", "conservative"], {}),
    ("PolyakSGD", "variant", ["SPS_max", "SPS+"], {}),
    ("LevenbergMarquardt", "stop_criterion", ["grad-l2-norm", "madsen-nielsen"], {}),
    ("LevenbergMarquardt", "solver", ["cholesky", "lu", "inv"], {"materialize_jac": True}),
    ("BoxOSQP", "eq_qp_solve", ["cg", "cg+jacobi", "lu"], {}),
    ("OSQP", "eq_qp_solve", ["cg", "cg+jacobi", "lu"], {}),
    ("BacktrackingLineSearch", "condition", COND, {}),
    ("ScipyLeastSquares", "loss", ["linear", "soft_l1", "huber", "cauchy", "arctan"], {}),
    ("ScipyBoundedLeastSquares", "loss", ["linear", "soft_l1", "huber", "cauchy", "arctan"], {}),
]


def bogus(names):
  out = ["", "bogus"]
  for n in names:
    out += [n[:-1], n + "x", n.replace("-", "_")]
  return [b for b in dict.fromkeys(out) if b not in names]


def base_case(I, cls):
  for c in S.all_cases(["plain"]):
    if c.cls == cls:
      return c
  P = S.P
  if cls in ("ScipyLeastSquares", "ScipyBoundedLeastSquares"):
    return S.Case(cls, cls, {"fun": S.U("res")}, S.W(), (arr("X"),), {}, "plain", kind="scipy")
  if cls == "OSQP":
    return S.Case(cls, cls, {}, ("kkt",), (), {}, None, kind="build")
  return None


def exercise(I, case, opts):
  """('raise', e) | ('ok', fingerprint) | ('limit', why): build, initialise, update, test and run."""
  try:
    cs = S.Case(case.cls, case.label, {**case.opts, **opts}, case.params, case.args, case.kwargs, case.form, case.kind)
    I.events.clear()
    if case.kind in ("scipy", "build"):
      s = S.build(I, cs)
      return "ok", fingerprint(I, s, cs)
    d = S.drive(I, cs)
    fp = [d.new_params, d.new_state, d.init] + [e.data[2] for e in d.update_events if e.kind == "lsrun"]
    if case.kind == "solver":
      fp.append(cond(I, d))
    return "ok", fp
  except AbsRaise as e:
    return ("limit" if model_limit(e) else "raise"), e
  except AnalysisBroken:
    raise
  except Exception as e:
    return "limit", f"{type(e).__name__} {e}"


def cond(I, d):
  try:
    f = I.getattr(d.solver, "_cond_fun")
  except AbsRaise:
    return None
  OS = I.cls("jaxopt._src.base", "OptStep")
  return I.call(f, [(Rec(OS, {"params": d.state_params, "state": d.state}), (tuple(d.args), I.newdict(d.kwargs)))], {})


def fingerprint(I, s, case):
  if case.kind == "scipy":
    rho = I.getattr(s, "_rho")
    return [I.call(rho, [ranked("rv", 0)], {})]
  return []


def run(c):
  c.rule("reject", "interpreting construction, init_state, update and the stopping test with an undocumented string ends in a raise on every path")
  c.rule("accept", "each documented name is accepted")
  c.rule("distinct", "two documented names give different terms for the step, state, stopping test or inner line search")
  c.rule("options", "SciPy options may not smuggle in maxiter")
  I = S.solver_interp()
  I0 = I
  for cls, opt_, names, extra in TABLE:
    I = I0
    if opt_ == "condition":
      I = S.solver_interp(summarise_ls=False)
    case = base_case(I, cls)
    ci = S.public(I, cls)
    if cls != "OSQP" and opt_ not in [n for n, _, _ in ci.fields()]:
      c.unknown("accept", f"{cls}.{opt_}", "no such option")
      continue
    res = {}
    for n in names:
      kind, r = exercise(I, case, {**extra, opt_: n})
      con = f"{cls}.{opt_}={n!r}"
      if kind == "ok":
        res[n] = r
        c.ok("accept", con)
      elif kind == "raise":
        c.bad("accept", con, f"documented name is rejected: {r}", getattr(r, "where", None))
      else:
        c.unknown("accept", con, r)
    for b in bogus(names):
      con = f"{cls}.{opt_}={b!r}"
      kind, r = exercise(I, case, {**extra, opt_: b})
      if kind == "raise":
        c.ok("reject", con)
      elif kind == "limit":
        c.unknown("reject", con, r)
      else:
        c.bad("reject", con, "an undocumented name is accepted", cls)
    ns = list(res)
    for i in range(len(ns)):
      for j in range(i):
        con = f"{cls}.{opt_} {ns[j]!r} vs {ns[i]!r}"
        a, b = res[ns[i]], res[ns[j]]
        if not a:
          continue
        st = "eq"
        if len(a) != len(b):
          st = "diff"
        else:
          for x, y in zip(a, b):
            s_, _ = same_value(x, y)
            if s_ == "diff":
              st = "diff"
              break
            if s_ == "undecided" or not identical(x, y):
              st = "undecided"
        if st == "diff":
          c.ok("distinct", con)
        elif st == "undecided":
          c.unknown("distinct", con, "terms not comparable")
        else:
          c.bad("distinct", con, "both names give the same behaviour", cls)
  scipy_options(c, I)
  c.absorb(I)


def identical(x, y):
  """Same normal form (agreement under random interpretations is no proof that two modes coincide)."""
  try:
    a, b = x if isinstance(x, T) else lift_any(x), y if isinstance(y, T) else lift_any(y)
  except Exception:
    return False
  return a is b


def scipy_options(c, I):
  for cls in ("ScipyMinimize", "ScipyBoundedMinimize"):
    case = S.Case(cls, cls, {"fun": S.U("fun"), "options": I.newdict({"maxiter": 3})}, S.W(), (), {}, "plain", kind="build")
    kind, r = exercise(I, case, {})
    con = f"{cls}.options['maxiter']"
    if kind == "raise":
      c.ok("options", con)
    elif kind == "limit":
      c.unknown("options", con, r)
    else:
      c.bad("options", con, "maxiter in options is accepted", cls)
