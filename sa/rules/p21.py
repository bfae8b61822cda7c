"""P21: losses and objectives compute their documented formulas."""
from ..core import *
from .. import terms as tm

FLOOR = 15


def one_of(c, rule, construct, I, f, refs, args, kwargs=None, **kw):
  """Obligation: f agrees with one of several equivalent reference formulas."""
  if f is None:
    return
  got, e = safe_call(c, rule, construct, I, f, args, kwargs)
  if e:
    return
  res = []
  for r in refs:
    want, eb = try_call(I, r, args, kwargs)
    if eb is not None:
      raise AnalysisBroken(f"reference for {construct} fails: {eb}")
    st, why = same_value(got, want, **kw)
    if st == "eq":
      c.ok(rule, construct)
      return
    res.append((st, why))
  if all(s == "diff" for s, _ in res):
    c.bad(rule, construct, res[0][1], where_of(f))
  else:
    c.unknown(rule, construct, res[0][1])


def run(c):
  c.rule("loss", "the loss's value-flow term equals the documented formula; binary labels 0 and 1, symbolic class label")
  c.rule("objective", "the objective's term equals the documented average plus regulariser")
  c.rule("composite", "subfun(linop(W)) + <W,b> describes the same function as calling the objective")
  c.rule("smoothness", "per-column constants equal the documented curvature bound")
  I = new_interp()

  def get(mod, n):
    return I.public_fn(mod, n)
  sp = lambda n: spec_fn(I, "loss", n)
  x, t, dl = arr("x"), arr("t"), opt("delta")
  L = "jaxopt.loss"
  # elementwise losses: arrays of unknown rank stand for the scalars
  one_of(c, "loss", "huber_loss", I, get(L, "huber_loss"), [sp("huber")], [t, x, dl], positive=True)
  one_of(c, "loss", "huber_loss[delta default]", I, get(L, "huber_loss"),
         [PyFn("h1", lambda I, a, k: I.call(sp("huber"), [a[0], a[1], 1.0], {}))], [t, x], positive=False)
  one_of(c, "loss", "sparse_plus", I, get(L, "sparse_plus"), [sp("sparse_plus")], [x])
  one_of(c, "loss", "sparse_sigmoid", I, get(L, "sparse_sigmoid"), [sp("sparse_sigmoid")], [x])
  for y in (0, 1):
    for n in ("logistic", "sparsemax", "hinge", "perceptron"):
      one_of(c, "loss", f"binary_{n}_loss[label={y}]", I, get(L, f"binary_{n}_loss"), [sp("binary_" + n)], [y, x])
  y, s = tm.sym("cnt", "label"), ranked("scores", 1)
  for n, refs in (("logistic", ["multiclass_logistic"]), ("sparsemax", ["multiclass_sparsemax", "multiclass_sparsemax_b"]),
                  ("hinge", ["multiclass_hinge"]), ("perceptron", ["multiclass_perceptron"])):
    one_of(c, "loss", f"multiclass_{n}_loss", I, get(L, f"multiclass_{n}_loss"), [sp(r) for r in refs], [y, s])
  mf = fnsym("max_fun")
  for extra, kw in (((), {}), ((arr("a"),), {"k": arr("b")})):
    f, e = safe_call(c, "loss", "make_fenchel_young_loss", I, get(L, "make_fenchel_young_loss"), [mf])
    if e is None:
      r = I.call(sp("fenchel_young"), [mf], {})
      one_of(c, "loss", f"make_fenchel_young_loss[{len(extra)} extra]", I, f, [r], [arr("ytrue"), arr("z")] + list(extra), kw)
  # objectives
  O = "jaxopt.objective"
  X, yv, W, w, b = ranked("X", 2), ranked("y", 1), ranked("W", 2), ranked("w", 1), ranked("b", 1)
  Y, beta = ranked("Y", 2), ranked("beta", 2)
  l2 = opt("l2reg")
  data, sd = (X, yv), (X, Y)
  tab = [("least_squares", [w, data], ["least_squares"]), ("ridge_regression", [w, l2, data], ["ridge_regression"]),
         ("multiclass_logreg", [W, data], ["multiclass_logreg"]),
         ("multiclass_logreg_with_intercept", [(W, b), data], ["multiclass_logreg_with_intercept"]),
         ("l2_multiclass_logreg", [W, l2, data], ["l2_multiclass_logreg"]),
         ("l2_multiclass_logreg_with_intercept", [(W, b), l2, data], ["l2_multiclass_logreg_with_intercept"]),
         ("binary_logreg", [w, data], ["binary_logreg", "binary_logreg_b"]),
         ("multiclass_linear_svm_dual", [beta, l2, sd], ["svm_dual"])]
  for n, args, refs in tab:
    one_of(c, "objective", n, I, get(O, n), [sp(r) for r in refs], args, real=True)
  for n, args, lip in (("least_squares", [w, data], "lip_least_squares"), ("multiclass_logreg", [W, data], "lip_multiclass_logreg"),
                       ("binary_logreg", [w, data], "lip_binary_logreg"),
                       ("multiclass_linear_svm_dual", [beta, l2, sd], "lip_svm_dual")):
    obj = get(O, n)
    if obj is None:
      continue
    got, e = safe_call(c, "composite", n, I, sp("composite"), [obj] + args)
    want, e2 = safe_call(c, "composite", n, I, obj, args)
    if e is None and e2 is None:
      c.same("composite", n, got, want, real=True)
    g, e = safe_call(c, "smoothness", n, I, I.getattr(obj, "columnwise_lipschitz_const"), args[1:])
    if e is None:
      want = I.call(sp(lip), args[1:], {})
      c.same("smoothness", n + ".columnwise_lipschitz_const", g, want, real=True)
  c.absorb(I)
