"""P03: reported evaluation counts are the evaluations performed."""
from ..core import *
from .. import refs
from .. import solvers as S
from .. import terms as tm

FLOOR = 200

def rule_of(cls, part, f):
  if f.startswith("num_") and f != "num_updates":
    return "counter" if part == "update" else "start"
  return None


def run(c):
  c.rule("counter", "an update adds the evaluations of its method: its own and those its line search reports")
  c.rule("start", "the initial state counts what initialisation evaluated")
  c.rule("performed", "a counter grows by the calls of the user's function this update makes, branch by branch (and num_grad_eval by the differentiations)")
  S.DERIVED = True
  refs.check_fields(c, rule_of, S.FORMS)
  refs.check_linesearches(c, rule_of, S.FORMS)
  S.DERIVED = False
  performed(c)


def performed(c):
  I = S.solver_interp()
  for case in S.all_cases(["vg", "plain", "aux"]):
    d = S.try_drive(I, case)
    if d is None:
      continue
    where = where_of(I.getattr(d.solver, "update"))
    counted = CALLS.get(case.cls, {})
    if counted is BOTH:
      counted = {"num_fun_eval": {"fun_vg"}} if case.form == "vg" else {"num_grad_eval": "gradcall"}
    for name, functions in counted.items():
      for part, old, new, events in (("init", None, d.init, d.init_events), ("update", d.state, d.new_state, d.update_events)):
        if not (isinstance(new, Rec) and name in new.vals):
          continue
        n = calls(events, functions)
        if n is None:
          continue
        searches = [x for x in tm.deps(I.lift(new.vals[name])) if x.op == "lsf" and str(x.args[-1]).split(".")[-1] == name]
        want = n
        for x in searches:
          want = tm.add(want, x)
        if old is not None:
          want = tm.add(want, I.lift(old.vals[name]))
        c.same("performed", f"{case.label} {part} {name}", S.through_pre(new.vals[name]), want, where=where)
  c.absorb(I)


def calls(events, functions):
  """Number of calls as a sum over the branches they sit on; None when a loop hides it."""
  out = tm.ZERO
  for e in events:
    if e.kind != ("usercall" if isinstance(functions, set) else functions):
      continue
    if isinstance(functions, set) and str(e.data[0]).split(".")[-1] not in functions:
      continue
    if e.lam:
      return None
    g = tm.TRUE
    for t, val in e.guards:
      g = tm.and_(g, t if val else tm.not_(t))
    out = tm.add(out, tm.ite(g, tm.ONE, tm.ZERO))
  return out


# an objective returning its gradient shows every evaluation, a plain one every differentiation
BOTH = {"num_fun_eval": {"fun_vg"}, "num_grad_eval": "gradcall"}
CALLS = {
    "BacktrackingLineSearch": BOTH, "ZoomLineSearch": BOTH, "BFGS": BOTH, "LBFGS": BOTH, "LBFGSB": BOTH, "NonlinearCG": BOTH,
    "PolyakSGD": BOTH, "ArmijoSGD": BOTH, "HagerZhangLineSearch": BOTH,
    "FixedPointIteration": {"num_fun_eval": {"fp", "fp_aux"}}, "Broyden": {"num_fun_eval": {"fun", "fun_aux"}},
    "Bisection": {"num_fun_eval": {"F", "F_aux"}}, "AndersonAcceleration": {"num_fun_eval": {"fp", "fp_aux"}},
    "MirrorDescent": {"num_proj_eval": {"projgrad"}},
    "IterativeRefinement": {"num_solve_eval": {"solve"}},
}
