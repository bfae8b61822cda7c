"""P16: every solver's step is its defining update rule."""
from ..core import *
from .. import refs
from .. import solvers as S

FLOOR = 300

# entries of the state that belong to other properties: counters, values at the parameters, histories
OTHERS = {"iter_num", "value", "grad", "gradient", "residual", "aux", "loss", "jac", "jt", "jtj", "hess_res",
          "s_history", "y_history", "rho_history", "d_history", "c_history", "params_history", "residuals_history",
          "residual_gram", "num_updates", "target_residuals", "solver_state", "failed_linesearch"}


def rule_of(cls, part, f):
  if f in OTHERS or f.startswith("num_"):
    return None
  if f == "params":
    return "step"
  if f == "error":
    return "error"
  return "state" if part == "update" else "start"


def run(c):
  c.rule("step", "the parameters an update returns are the method's step from the received parameters and state")
  c.rule("state", "step sizes, momentum, damping and search quantities carried to the next step follow the method")
  c.rule("start", "the initial state carries the method's initial step size, momentum and damping")
  c.rule("error", "the reported error is the method's own residual of that step")
  S.DERIVED = True
  forms = S.FORMS
  refs.check_fields(c, rule_of, forms, keep=refs.quick if c.tier == "quick" else None)
