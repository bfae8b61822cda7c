"""P15: proximal operators, and the scaling the solvers pass to them."""
from ..core import *
from .. import terms as tm
from .. import solvers as S
from .. import refs
from .p21 import one_of

FLOOR = 20


def run(c):
  c.rule("prox", "the operator's value-flow term equals the documented minimiser, for a leaf and for nested trees, with "
         "defaults, explicit strength and explicit scaling")
  c.rule("zero", "zero strength gives the identity")
  c.rule("scaling", "each proximal/projected/block/mirror step calls the user's operator with the step size it uses as "
         "scaling and the caller's hyper-parameters")
  c.rule("step", "the next iterate of the proximal, projected, mirror and block coordinate solvers equals the reference step, "
         "where the operator is applied with the step size of that very step")
  I = new_interp()
  sp = lambda n: spec_fn(I, "prox", n)
  get = lambda n: I.public_fn("jaxopt.prox", n)
  x, y = arr("x"), arr("y")
  lam, gam, sc = opt("lam"), opt("gam"), opt("scaling")
  shapes = {"leaf": x, "tree": (x, I.newdict({"k": y}))}
  for sh, X in shapes.items():
    L = arr("l1") if sh == "leaf" else (arr("l1"), I.newdict({"k": arr("l2")}))
    G = arr("g1") if sh == "leaf" else (arr("g1"), I.newdict({"k": arr("g2")}))
    for n in ("none", "lasso", "non_negative_lasso", "group_lasso", "ridge", "non_negative_ridge"):
      f, r = get("prox_" + n), [sp(n)]
      for lab, a in (("x", [X]), ("x,None", [X, None]), ("x,lam", [X, lam]), ("x,lam,scaling", [X, lam, sc])):
        one_of(c, "prox", f"prox_{n}[{sh}:{lab}]", I, f, r, a, positive=lab != "x", real=True)
      one_of(c, "prox", f"prox_{n}[{sh}:keyword scaling]", I, f, r, [X], {"scaling": sc}, positive=True, real=True)
      v, e = safe_call(c, "zero", f"prox_{n}[{sh}]", I, f, [X, 0.0, sc])
      if e is None and not n.startswith("non_negative"):
        c.same("zero", f"prox_{n}[{sh}]", v, X, positive=True, real=True)
    f = get("prox_lasso")
    one_of(c, "prox", f"prox_lasso[{sh}:tree strength]", I, f, [sp("lasso_tree")], [X, L, sc], positive=True, real=True)
    f = get("prox_elastic_net")
    for lab, a in (("x", [X]), ("x,None", [X, None]), ("x,floats,scaling", [X, (0.3, 0.7), sc])):
      one_of(c, "prox", f"prox_elastic_net[{sh}:{lab}]", I, f, [sp("elastic_net")], a, real=True)
    one_of(c, "prox", f"prox_elastic_net[{sh}:trees]", I, f, [sp("elastic_net_tree")], [X, (L, G), sc], positive=True, real=True)
    one_of(c, "prox", f"prox_elastic_net[{sh}:float and tree]", I, f,
           [PyFn("r", lambda I, a, k: I.call(sp("elastic_net_tree"), [a[0], (I.call(FILL(I), [0.4, a[0]], {}), a[1][1]), a[2]], {}))],
           [X, (0.4, G), sc], positive=True, real=True)
    pj = fnsym("projection")
    p, e = safe_call(c, "prox", "make_prox_from_projection", I, get("make_prox_from_projection"), [pj])
    if e is None:
      for a in ([X], [X, lam], [X, lam, sc]):
        one_of(c, "prox", f"make_prox_from_projection[{sh}:{len(a)}]", I, p, [I.call(sp("from_projection"), [pj], {})], a)
  c.absorb(I)
  steps(c)
  classes = ["ProximalGradient", "ProjectedGradient", "MirrorDescent", "BlockCoordinateDescent"]
  refs.check_fields(c, lambda cls, part, f: "step" if part == "update" and f == "params" else None, classes=classes, real=True)


def FILL(I):
  import ast
  return I.eval(ast.parse("lambda v, t: jax.tree_util.tree_map(lambda u: v, t)", mode="eval").body,
                I.module("spec.prox").frame)


def steps(c):
  """Scaling passed at each call of the user's prox / projection / block prox / mirror map."""
  I = S.solver_interp()
  for case in S.grad_family(["plain", "aux"]) + S.mirror() + S.block():
    if case.cls == "GradientDescent":
      continue
    d = S.try_drive(I, case)
    if d is None:
      c.unknown("scaling", case.label, "raises")
      continue
    check_calls(c, case, d)
  c.absorb(I)


PROX = {"prox", "proj", "projgrad", "blockprox"}


def check_calls(c, case, d):
  n = 0
  for e in d.update_events:
    if e.kind != "usercall":
      continue
    f, args, kw = e.data[0], e.data[1], e.data[2]
    name = f.args[-1] if isinstance(f, T) and f.op == "sym" else None
    if name not in PROX:
      continue
    n += 1
    hp = d.args[0]
    where = e.where
    at = 3 if name == "projgrad" else 1
    if len(args) <= at:
      if not kw:
        c.bad("scaling", f"{case.label} {name}", "hyper-parameters are not passed", where)
      continue
    c.same("scaling", f"{case.label} {name} hyper-parameters", args[at], hp, where=where)
  if n == 0:
    c.unknown("scaling", case.label, "no call of the operator seen")
