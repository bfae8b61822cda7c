"""P04: values, gradients, residuals and auxiliary output belong to the returned parameters."""
from ..core import *
from .. import refs
from .. import solvers as S

FLOOR = 300

FIELDS = {"value", "grad", "gradient", "residual", "aux", "loss", "jac", "jt", "jtj", "hess_res", "target_residuals"}


def rule_of(cls, part, f):
  return ("initial" if part == "init" else "update") if f in FIELDS else None

SEARCHED = {"params", "value", "grad", "aux"}


def search_rule(cls, part, f):
  return ("initial search" if part == "init" else "search") if f in SEARCHED else None


def run(c):
  c.rule("update", "the state's value, gradient, residual and aux are the user function's at the point the solver documents")
  c.rule("initial", "the initial state's entries are the user function's at the initial parameters")
  c.rule("search", "a line search's params are the start plus the accepted step times the direction, its entries belong to them")
  c.rule("initial search", "a line search starts from the entries of the given parameters")
  S.DERIVED = True
  forms = S.FORMS
  refs.check_fields(c, rule_of, forms, keep=refs.quick if c.tier == "quick" else None)
  refs.check_linesearches(c, search_rule, forms)
