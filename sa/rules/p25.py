"""P25: operators with a hand-written derivative rule."""
from fractions import Fraction

from ..core import *
from .. import models
from .. import terms as tm
from .p21 import one_of
from .p22 import agree, rule_tangent

FLOOR = 8
mk = tm.mk


def run(c):
  c.rule("attached", "the public operator computes through an object that carries a derivative rule")
  c.rule("value", "the rule returns the operator's own value as primal output")
  c.rule("rule", "the tangent is the documented linear map of the input tangent, at the operator's own output")
  c.rule("linear", "the tangent is homogeneous and additive in the input tangent and vanishes with it")
  c.rule("inputs", "parameters declared as not differentiated receive no tangent; every other input's tangent is used")
  c.rule("composition", "isotonic regression is clip(s * core(s * y), y_min, y_max) with s = -1 for increasing solutions")
  I = new_interp()
  sp = lambda n: spec_fn(I, "derivatives", n)
  x, dx = ranked("x", 1), ranked("dx", 1)
  P = "jaxopt.projection"
  simp = [sp("simplex"), sp("simplex_where")]
  iso = [sp("isotonic")]
  k = opt("max_nz")
  for con, mod, name, args, kw, refs in (
      ("projection_simplex", P, "projection_simplex", [x], {}, simp),
      ("projection_simplex[value]", P, "projection_simplex", [x, opt("value")], {}, simp),
      ("projection_sparse_simplex", P, "projection_sparse_simplex", [x, k], {}, simp),
      ("projection_sparse_simplex[approx]", P, "projection_sparse_simplex", [x, k], {"use_approx_max_nz": True}, simp),
      ("isotonic_l2_pav[increasing]", "jaxopt.isotonic", "isotonic_l2_pav", [x], {}, iso),
      ("isotonic_l2_pav[decreasing]", "jaxopt.isotonic", "isotonic_l2_pav", [x], {"increasing": False}, iso)):
    n = len(I.events)
    _, e = safe_call(c, "attached", con, I, I.public_fn(mod, name), args, kw)
    if e is not None:
      continue
    evs = [ev.data for ev in I.events[n:] if ev.kind == "customcall"]
    cb = [ev for ev in I.events[n:] if ev.kind == "extcall" and "callback" in str(ev.data[0])]
    if not evs:
      if cb:
        c.bad("attached", con, "the value comes from a host callback and no derivative rule is attached", f"{mod}.{name}")
      else:
        c.unknown("attached", con, "differentiated automatically")
      continue
    for f, a, kws in evs:
      attached(c, I, con, f, a, kws, refs, dx)
  isotonic(c, I)
  perturbed(c, I)
  c.absorb(I)


def isotonic(c, I):
  """The public isotonic regression around its differentiable core."""
  f = I.public_fn("jaxopt.isotonic", "isotonic_l2_pav")
  y, core = ranked("x", 1), fnsym("isotonic_core")
  n = len(I.events)
  I.call(f, [y], {})
  evs = [ev.data[0] for ev in I.events[n:] if ev.kind == "customcall"]
  if len(set(evs)) != 1:
    c.unknown("composition", "isotonic_l2_pav", "no single core")
    return
  o = evs[0]
  o.fcall = lambda I, a, k: I.call(core, a, k)
  ref = spec_fn(I, "derivatives", "isotonic_public")
  inf = tm.INF
  try:
    for inc in (True, False):
      for lo, hi, kw in ((tm.neg(inf), inf, {}), (opt("ymin"), opt("ymax"), {"y_min": opt("ymin"), "y_max": opt("ymax")})):
        con = f"isotonic_l2_pav[increasing={inc},{'bounds' if kw else 'default'}]"
        compare = PyFn("r", lambda I, a, k: I.call(ref, [core, -1 if inc else 1, y, lo, hi], {}))
        one_of(c, "composition", con, I, PyFn("pub", lambda I, a, k: I.call(f, a, dict(kw, increasing=inc)), f), [compare], [y])
  finally:
    o.fcall = None


def attached(c, I, con, f, a, kws, refs, dx):
  rules = {k: v for k, v in f.attrs.items() if k.startswith("rule:")}
  if not rules:
    c.bad("attached", con, "no derivative rule is attached", where_of(f))
    return
  ps = models.sig_params(I, f.base) if kws else None
  if ps:
    a, kws = list(a), dict(kws)
    for p in ps[len(a):]:
      if p[0] in kws:
        a.append(kws.pop(p[0]))
      elif p[2] is not models.NODEF:
        a.append(p[2])
      else:
        break
  if "rule:defvjp" in rules or kws:
    c.unknown("attached", con, "reverse rule")
    return
  c.ok("attached", con)
  nd = f.attrs["nondiff_argnums"]
  nd = nd if isinstance(nd, (tuple, list)) else tuple(I.iterate(nd) or ()) if not isinstance(nd, int) else (nd,)
  nd = [int(i) for i in nd]
  prim = [v for i, v in enumerate(a) if i not in nd]
  # the rule is analysed at a generic point of the differentiated input
  y = ranked("y", 1)
  moved = [i for i, v in enumerate(prim) if isinstance(v, T) and arrayish(v)]
  if len(moved) != 1:
    c.unknown("inputs", con, "number of differentiated inputs")
    return
  prim[moved[0]] = y
  it = iter(prim)
  full = [v if i in nd else next(it) for i, v in enumerate(a)]
  n = len(I.events)
  first = examine(I, f, rules, prim, full, a, nd, moved[0], dx, refs)
  res, where = first
  if res is None:
    c.unknown("value", con, where)
    return
  objs = {f} | {ev.data[0] for ev in I.events[n:] if ev.kind == "customcall"}
  if any(st == "unknown" for st, _ in res.values()):
    # once more with the operators themselves uninterpreted
    for o in objs:
      o.fcall = opaque(o)
    try:
      second, _ = examine(I, f, rules, prim, full, a, nd, moved[0], dx, refs)
    finally:
      for o in objs:
        o.fcall = None
    if second is not None and "fails" not in second:
      for k in res:
        if res[k][0] == "unknown" and (k != "value" or second["_called"][0]):
          res[k] = second[k]
  if "fails" in res:
    getattr(c, "bad" if res["fails"][0] == "diff" else "unknown")("value", con, res["fails"][1], *([where] if res["fails"][0] == "diff" else []))
    return
  for k in ("value", "rule", "linear", "inputs"):
    st, why = res[k]
    if st == "eq":
      c.ok(k, con)
    elif st == "diff":
      c.bad(k, con, why, where)
    else:
      c.unknown(k, con, why)


def opaque(o):
  def call(I, a, k):
    t = I.lift(I.call(fnsym("op_" + where_of(o.base)), a, k))
    models.RANK[t] = 1
    return t
  return call


def examine(I, f, rules, prim, full, a, nd, pos, dx, refs):
  """{obligation: (status, reason)} of one rule."""
  res = {"_called": (False, "")}
  try:
    value = I.call(f, full, {})
    if "rule:defjvp" in rules:
      r = rules["rule:defjvp"][0]
      go = lambda t: I.unpack_values(I.call(r, [a[i] for i in nd] + [tuple(prim), tuple(t)], {}), 2)
      pack = lambda d: [d if i == pos else tm.ZERO for i in range(len(prim))]
      o = go(pack(dx))
      if o is None:
        return None, "rule result"
      res["value"] = closer(same_value(o[0], value), o[0], value)
      res["_called"] = (isinstance(value, T) and value.op == "app" and value.args[0] in tm.deps(I.lift(o[0])) | tm.deps(I.lift(o[1])), "")
      tan = lambda d: I.lift(go(pack(d))[1])
    else:
      rs = rules["rule:defjvps"]
      r = rs[pos] if pos < len(rs) else None
      if r is None:
        return {"fails": ("diff", "the tangent of the input is dropped")}, where_of(f)
      res["value"] = ("eq", "")
      tan = lambda d: I.lift(I.call(r, [d, value] + full, {}))
    got = tan(dx)
  except AbsRaise as e:
    return {"fails": ("unknown" if model_limit(e) else "diff", f"the rule fails: {e.exc}")}, e.where
  except AnalysisBroken:
    raise
  except Exception as e:
    return None, f"not interpreted: {type(e).__name__} {e}"
  wants = [I.lift(I.call(w, [value, dx], {})) for w in refs]
  sts = [closer(same_value(got, w), got, w) for w in wants]
  res["rule"] = next((s for s in sts if s[0] == "eq"), next((s for s in sts if s[0] == "unknown"), sts[0]))
  if any(s[0] == "diff" and s[1].startswith("only ") for s in sts) and res["rule"][0] != "eq":
    res["rule"] = next(s for s in sts if s[1].startswith("only "))
  if res["rule"][0] == "unknown" and any(same_value(got, I.lift(I.call(w, [prim[pos], dx], {})))[0] == "eq" for w in refs):
    res["rule"] = ("diff", "the documented map, but at the operator's input instead of its output")
  if dx not in tm.deps(got):
    res["inputs"] = ("diff", "the tangent of the input is not used")
    res["linear"] = ("unknown", "")
    return res, where_of(r)
  res["inputs"] = ("eq", "")
  s = opt("scale")
  st, why = same_value(tan(tm.mul(s, dx)), tm.mul(s, got))
  res["linear"] = ("eq", "") if st == "eq" else ("unknown", why)
  return res, where_of(r)


def closer(sv, got, want):
  """Terms of the same skeleton that differ in leaves only: different inputs or
  constants are a difference even where the operations are not modelled."""
  st, why = sv = (sv[0] if sv[0] in ("eq", "diff") else "unknown", sv[1])
  if st == "diff":
    return sv
  ps = leaf_pairs(got, want) if isinstance(got, T) and isinstance(want, T) else None
  if not ps:
    return sv
  val = lambda v: tm.const_of(v) if isinstance(v, T) else v if isinstance(v, (int, Fraction)) else None
  for x, y in ps:
    p, q = val(x), val(y)
    if p is None and q is None and st == "unknown":
      return "diff", f"only the operands differ: {describe(x)} against {describe(y)}"
    if p is not None and q is not None and p != q and max(abs(p), abs(q)) > Fraction(1, 10**6) and not 0.5 < abs(p) / max(abs(q), Fraction(1, 10**30)) < 2:
      return "diff", f"only a constant differs: {float(p)} against {float(q)}"
  return sv


def linear(c, con, got, tan, dx, where):
  if dx not in tm.deps(got):
    c.bad("inputs", con, "the tangent of the input is not used", where)
    return
  c.ok("inputs", con)
  s = opt("scale")
  st, why = same_value(tan(tm.mul(s, dx)), tm.mul(s, got))
  if st == "eq":
    c.ok("linear", con)
  else:
    c.unknown("linear", con, why)


def arrayish(v):
  return v.op not in ("const", "bool", "str", "none") and not (v.op == "sym" and v.args[0] in ("opt", "cnt"))


def perturbed(c, I):
  """The perturbed operators' rules are linear and keep the value (formula: P22)."""
  x, dx, key = arr("px"), arr("pdx"), arr("key")
  for name in ("make_perturbed_argmax", "make_perturbed_max", "make_perturbed_fun"):
    f, e = safe_call(c, "attached", name, I, I.public_fn("jaxopt.perturbations", name), [fnsym("pf")], {"num_samples": opt("n"), "sigma": opt("sigma")})
    if e is not None:
      continue
    rules = f.attrs if isinstance(f, PyFn) else {}
    if not any(k.startswith("rule:") for k in rules):
      c.bad("attached", name, "no derivative rule is attached", where_of(f))
      continue
    c.ok("attached", name)
    out = rule_tangent(c, I, name, f, rules, x, key, dx, rule=("linear", "inputs", "value"))
    if out is None:
      continue
    tan = lambda d: I.lift(rule_tangent(c, I, name, f, rules, x, key, d, rule=None)[0])
    linear(c, name, I.lift(out[0]), tan, dx, out[1])
