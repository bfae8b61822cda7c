"""P18: histories of limited-memory and mixing methods stay aligned."""
from ..core import *
from .. import refs
from .. import solvers as S

FLOOR = 60

HISTORY = {"s_history", "y_history", "rho_history", "gamma", "theta", "num_updates", "d_history", "c_history",
           "params_history", "residuals_history", "residual_gram", "H"}
CLASSES = {"LBFGS", "LBFGSB", "Broyden", "BFGS", "AndersonAcceleration", "AndersonWrapper"}


def rule_of(cls, part, f):
  if f in HISTORY:
    return "history" if part == "update" else "start"
  if f == "params":
    return "recursion"
  return None


def run(c):
  c.rule("history", "one iteration's differences go to one slot of every buffer, cyclically, new minus old")
  c.rule("start", "a fresh state starts with the documented empty history")
  c.rule("warm", "starting from a returned step keeps its history; a fresh one has history_size slots per leaf")
  c.rule("recursion", "the step applies the stored differences from newest to oldest and back")
  S.DERIVED = True
  refs.check_fields(c, rule_of, S.FORMS, classes=CLASSES, keep=refs.quick if c.tier == "quick" else None)
  refs.warm_starts(c, "warm", HISTORY | {"iter_num", "stepsize"})
