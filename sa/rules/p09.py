"""P09: implicit derivatives have the implicit-function-theorem form."""
from ..core import *
from .. import solvers as S
from .. import terms as tm
from .p21 import one_of

FLOOR = 15


def run(c):
  c.rule("vjp", "root_vjp's term is -(dF/dtheta)^T u with (dF/dx)^T u = cotangent, both Jacobians at the solution and the given arguments")
  c.rule("jvp", "root_jvp's term is the solution of (dF/dx) v = -(dF/dtheta) tangent")
  c.rule("value", "the function wrapped by custom_root / custom_fixed_point returns the wrapped solver's result for the caller's arguments")
  c.rule("bwd", "the backward rule attached by custom_root returns root_vjp at the forward result and the run's own arguments, in call order, and nothing for the initial guess")
  c.rule("kkt", "the KKT residual is stationarity, primal feasibility and complementary slackness")
  I = new_interp()
  x, ct = arr("x"), arr("ct")
  tree = lambda n: (arr(n + "1"), I.newdict({"k": arr(n + "2")}))
  ref = lambda n, solve: PyFn(n, lambda I, a, k: I.call(spec_fn(I, "implicit", n), list(a[:4]) + [solve], {}))
  get = lambda n: I.public_fn("jaxopt.implicit_diff", n)
  lin = I.fn("jaxopt.linear_solve", "solve_normal_cg")
  tabs = [("leaf", x, ct, arr("ty")), ("tree", tree("x"), tree("ct"), tree("ty"))]
  for sh, X, CT, TY in tabs:
    for nargs in (0, 1, 2):
      F = S.U(f"F_{sh}_{nargs}", shape_of(X))
      args = (arr("theta"), tree("phi"))[:nargs]
      tans = (arr("dtheta"), tree("dphi"))[:nargs]
      for sv, kw in (("user", {"solve": fnsym("solve")}), ("default", {})):
        s = kw.get("solve", lin)
        con = f"[{sh},{nargs} arguments,{sv} solve]"
        one_of(c, "vjp", "root_vjp" + con, I, get("root_vjp"), [ref("root_vjp_" + v, s) for v in "abc"], [F, X, args, CT], kw)
        if nargs:
          one_of(c, "jvp", "root_jvp" + con, I, get("root_jvp"), [ref("root_jvp_" + v, s) for v in "abc"], [F, X, args, tans], kw)
  wrapped(c, I)
  kkt(c, I)
  c.absorb(I)


def shape_of(X):
  return None if isinstance(X, T) else (None, {"k": None})


def fn(I, name, params, shape=None):
  f = S.U(name, shape)
  I.signatures[f] = params
  return f


def wrapped(c, I):
  """custom_root and custom_fixed_point: forward value and backward rule."""
  x0, a, b, d = arr("x0"), arr("a"), arr("b"), arr("d")
  lin = I.fn("jaxopt.linear_solve", "solve_normal_cg")
  from ..models import NODEF
  VAR = [("init", "pos", NODEF), ("args", "var", NODEF), ("kwargs", "varkw", NODEF)]
  calls = [("positional", [x0, a, b], {}, ["x", "a", "b"]),
           ("keyword", [x0, a], {"b": b}, ["x", "a", "b"]),
           ("keywords in another order", [x0], {"b": b, "a": a}, ["x", "a", "b"]),
           ("three", [x0, a], {"d": d, "b": b}, ["x", "a", "b", "d"])]
  for dec, kind in (("custom_root", "root"), ("custom_fixed_point", "fixed point")):
    f = I.public_fn("jaxopt.implicit_diff", dec)
    if f is None:
      continue
    for lab, pos, kws, names in calls:
      for has_aux in (False, True):
        for sv in (None, fnsym("solve"), "omitted"):
          for sig in ("own", "catch-all", "reference"):
            if sig != "own" and (sv is None or lab == "positional"):
              continue
            con = f"{dec}[{lab},aux={has_aux},{'default' if sv in (None, 'omitted') else 'user'} solve,{sig} signature]"
            key = f"{dec}{lab}{has_aux}{sig}"
            G = fn(I, "G" + key, ["x"] + [n for n in names if n != "x"])
            if sig == "reference":
              H = fn(I, "H" + key, list(names))
              I.signatures[G] = VAR
            solver_sig = ["x"] + names[1:] if sig == "own" else VAR
            R = fn(I, "R" + key, solver_sig, (None, None) if has_aux else None)
            kw = {"has_aux": has_aux}
            if sv != "omitted":
              kw["solve"] = sv
            if sig == "reference":
              kw["reference_signature"] = H
            check_wrapped(c, I, con, f, G, R, kw, pos, kws, names, has_aux, sv if isinstance(sv, T) else lin, kind)


def check_wrapped(c, I, con, f, G, R, kw, pos, kws, names, has_aux, solve, kind):
  n = len(I.events)
  try:
    deco = I.call(f, [G], kw)
    w = I.call(deco, [R], {})
    got = I.call(w, list(pos), dict(kws))
  except AbsRaise as e:
    (c.unknown if model_limit(e) else c.bad)("value", con, f"raises {e.exc}" if not model_limit(e) else e)
    del I.events[n:]
    return
  except AnalysisBroken:
    raise
  except Exception as e:
    c.unknown("value", con, f"{type(e).__name__} {e}")
    return
  evs = [e for e in I.events[n:] if e.kind == "defrule"]
  del I.events[n:]
  vals = dict(zip(names, pos))
  vals.update({k: v for k, v in kws.items()})
  alla = [vals[m] for m in names if m in vals]
  catch = isinstance(I.signatures[R][0], tuple)
  if catch:
    want = I.call(R, list(pos), dict(kws))
  else:
    want = I.call(R, alla, {})
  same_result(c, "value", con, I, got, want, R, pos, kws, alla)
  if not evs:
    c.bad("bwd", con, "no derivative rule is attached", where_of(f))
    return
  e = evs[-1]
  o, name, a = e.data
  if name != "defvjp" or len(a) < 2:
    c.unknown("bwd", con, name)
    return
  fwd, bwd = a[0], a[1]
  # the order in which the flat function receives its arguments
  if catch:
    flat = list(pos) + list(kws.values())
    order = names[:len(pos)] + list(kws)
  else:
    flat, order = alla, [m for m in names if m in vals]
  try:
    out = I.unpack_values(I.call(fwd, list(flat), {}), 2)
    ct = (arr("ct"), arr("ctaux")) if has_aux else arr("ct")
    res = I.call(bwd, [out[1], ct], {})
    grads = I.unpack_values(res, None) or I.iterate(res)
  except AbsRaise as ex:
    (c.unknown if model_limit(ex) else c.bad)("bwd", con, f"raises {ex.exc}" if not model_limit(ex) else ex, e.where)
    return
  except AnalysisBroken:
    raise
  except Exception as ex:
    c.unknown("bwd", con, f"{type(ex).__name__} {ex}")
    return
  same_result(c, "bwd", con + " forward", I, out[0], want, R, pos, kws, alla)
  sol = I.unpack_values(out[0], 2)[0] if has_aux else out[0]
  F = G if kind == "root" else I.call(spec_fn(I, "implicit", "fixed_point_residual"), [G], {})
  theta = tuple(vals[m] for m in names[1:])
  if len(grads) != len(flat):
    c.bad("bwd", con, f"returns {len(grads)} cotangents for {len(flat)} arguments", e.where)
    return
  if grads[0] is not None and grads[0] is not NONE_T:
    st, _ = same_value(grads[0], 0)
    if st != "eq":
      c.bad("bwd", con, f"the initial guess receives {describe(grads[0])}", e.where)
      return
  results = []
  neg = PyFn("negF", lambda I, a, k: I.call(I.fn("spec.tree_util", "tree_negative"), [I.call(F, a, k)], {}))
  for v, F_ in (("a", F), ("b", F), ("c", F), ("a", neg), ("b", neg), ("c", neg)):
    ref = I.unpack_values(I.call(spec_fn(I, "implicit", "root_vjp_" + v), [F_, sol, theta, arr("ct"), solve], {}), None)
    by = dict(zip(names[1:], ref))
    wantg = tuple(by[m] for m in order[1:])
    st, why = same_value(tuple(grads[1:]), wantg)
    results.append((st, why))
    if st == "eq":
      c.ok("bwd", con)
      return
  if all(s == "diff" for s, _ in results):
    c.bad("bwd", con, results[0][1], e.where)
  else:
    c.unknown("bwd", con, results[0][1])


def same_result(c, rule, con, I, got, want, R, pos, kws, alla):
  """The solver's result, whether keywords were resolved to positions or not."""
  alts = [want]
  for p, k in ((list(alla), {}), (list(pos), dict(kws))):
    try:
      alts.append(I.call(R, p, k))
    except AbsRaise:
      pass
  sts = [same_value(got, w) for w in alts]
  if any(s == "eq" for s, _ in sts):
    c.ok(rule, con)
  elif all(s == "diff" for s, _ in sts):
    c.bad(rule, con, sts[0][1])
  else:
    c.unknown(rule, con, sts[0][1])


def kkt(c, I):
  mkf = I.fn("jaxopt._src.implicit_diff", "make_kkt_optimality_fun")
  if mkf is None:
    return
  obj, eq, ineq = S.U("kobj"), S.U("keq"), S.U("kineq")
  K = I.cls("jaxopt._src.base", "KKTSolution")
  for e_, i_ in ((True, True), (True, False), (False, True)):
    con = f"make_kkt_optimality_fun[eq={e_},ineq={i_}]"
    args = [Rec(K, {"primal": arr("x"), "dual_eq": arr("nu") if e_ else None, "dual_ineq": arr("lam") if i_ else None}),
            arr("po"), arr("pe") if e_ else None, arr("pi") if i_ else None]
    f, err = safe_call(c, "kkt", con, I, mkf, [obj, eq, ineq])
    if err is not None:
      continue
    one_of(c, "kkt", con, I, f, [I.call(spec_fn(I, "implicit", "kkt"), [obj, eq, ineq], {})], args)
