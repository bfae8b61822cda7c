"""P17: line searches accept a step only on their documented conditions."""
from ..core import *
from .. import refs
from .. import solvers as S

FLOOR = 300

VERDICT = {"error", "decrease_error", "curvature_error", "done", "failed"}
OTHER = {"params", "value", "grad", "aux", "iter_num", "num_fun_eval", "num_grad_eval"}


def rule_of(cls, part, f):
  if f in OTHER:
    return None
  if f in VERDICT:
    return "verdict" if part == "update" else "start"
  return "step" if part == "update" else "start"


def run(c):
  c.rule("verdict", "error, done and failed are those of the documented conditions at the trial step and the start; NaN never passes")
  c.rule("step", "trial steps, brackets and their values follow the method, within the honoured maximum")
  c.rule("start", "the initial state holds the start's value and slope, no verdict and the documented first interval")
  c.rule("outer", "a solver reports its line search's failure")
  S.DERIVED = True
  refs.check_linesearches(c, rule_of, S.FORMS)
  refs.check_fields(c, lambda cls, part, f: "outer" if f == "failed_linesearch" else None, S.FORMS)
