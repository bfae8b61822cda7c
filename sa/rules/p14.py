"""P14: projections return points of the documented set."""
import contextlib

from ..core import *
from .. import models
from .. import solvers as S
from .. import terms as tm
from .p21 import one_of

FLOOR = 25
mk = tm.mk


def run(c):
  c.rule("formula", "the projection's value-flow term equals the documented one, for leaves and trees, scalar and tree bounds, "
         "default and explicit radii")
  c.rule("sign", "sign analysis: every entry of a projection onto a set of non-negative points is non-negative, for every input")
  c.rule("bounds", "the outermost operations of a box projection are the clipping at its own bounds")
  c.rule("program", "affine and polyhedral projections hand min 0.5|p|^2 - x'p under exactly the given constraints to the QP "
         "solver and return its primal solution")
  c.rule("root", "the box-section projection is the clipped shift by the root of the constraint residual")
  c.rule("transport", "transport and Birkhoff projections optimise the documented (semi-)dual and return its gradient's plan")
  c.rule("iterate", "solvers documented to keep iterates in the set produce them through the projection or the clip")
  I = new_interp()
  formulas(c, I)
  programs(c, I)
  section(c, I)
  transport(c, I)
  c.absorb(I)
  iterates(c)


def get(I, n):
  return I.public_fn("jaxopt.projection", n)


def formulas(c, I):
  sp = lambda n: spec_fn(I, "projection", n)
  x, y = arr("x"), arr("y")
  r = opt("radius")
  v = ranked("v", 1)
  tree = lambda a, b: (a, I.newdict({"k": b}))
  X = tree(x, y)
  L, U = tree(arr("l1"), arr("l2")), tree(arr("u1"), arr("u2"))
  kw = dict(real=True)
  R = mk("exp", opt("log_radius"))    # a radius that is positive by construction
  for lab, z in (("leaf", x), ("tree", X)):
    for a in ([z], [z, None], [z, arr("hp")]):
      got = one_of(c, "formula", f"projection_non_negative[{lab},{len(a)}]", I, get(I, "projection_non_negative"), [sp("non_negative")], a, **kw)
      nonneg(c, I, "projection_non_negative", get(I, "projection_non_negative"), a)
    lo, hi = (arr("l"), arr("u")) if lab == "leaf" else (L, U)
    f = get(I, "projection_box")
    one_of(c, "formula", f"projection_box[{lab}]", I, f, [sp("box")], [z, (lo, hi)], **kw)
    if lab == "leaf":
      one_of(c, "formula", f"projection_box[{lab},scalars]", I, f, [sp("box_scalar")], [z, (opt("lo"), opt("hi"))], **kw)
      for n, ref in (("projection_hypercube", "hypercube"), ("projection_linf_ball", "linf_ball")):
        for a in ([z], [z, R]):
          one_of(c, "formula", f"{n}[{lab},{len(a)}]", I, get(I, n), [sp(ref)], a, **kw)
    for n, ref in (("projection_l2_sphere", "l2_sphere"), ("projection_l2_ball", "l2_ball")):
      for a in ([z], [z, R]):
        one_of(c, "formula", f"{n}[{lab},{len(a)}]", I, get(I, n), [sp(ref)], a, real=True)
    for n in ("hyperplane", "halfspace"):
      a = [z, (arr("a") if lab == "leaf" else tree(arr("a1"), arr("a2")), opt("b"))]
      one_of(c, "formula", f"projection_{n}[{lab}]", I, get(I, "projection_" + n), [sp(n)], a, **kw)
  bounds(c, I, "projection_box", get(I, "projection_box"), [x, (arr("l"), arr("u"))], arr("l"), arr("u"))
  bounds(c, I, "projection_box[scalars]", get(I, "projection_box"), [x, (opt("lo"), opt("hi"))], opt("lo"), opt("hi"))
  bounds(c, I, "projection_hypercube", get(I, "projection_hypercube"), [x, r], tm.ZERO, r)
  bounds(c, I, "projection_linf_ball", get(I, "projection_linf_ball"), [x, r], tm.neg(r), r)
  for n, ref in (("projection_simplex", "simplex"), ("projection_l1_sphere", "l1_sphere"), ("projection_l1_ball", "l1_ball")):
    for a in ([v], [v, R]) + (([v, None],) if ref == "simplex" else ()):
      one_of(c, "formula", f"{n}[{len(a)}{',None' if a[-1] is None else ''}]", I, get(I, n), [sp(ref)], a, **kw)
      if ref == "simplex":
        nonneg(c, I, n, get(I, n), a)
  for a, k in (([v, opt("k")], {}), ([v, opt("k"), True], {}), ([v, opt("k")], {"value": R}), ([v, opt("k")], {"value": None})):
    n = "projection_sparse_simplex"
    one_of(c, "formula", f"{n}[{len(a)},{sorted(k)}{'None' if k.get('value', 1) is None else ''}]", I, get(I, n), [sp("sparse_simplex")], a, k, **kw)
    nonneg(c, I, n, get(I, n), a, k)


# -------------------------------------------------------------- sign domain ----
def nn(t, pos):
  """Is every entry of t provably non-negative, given symbols known positive?"""
  if not isinstance(t, T):
    return isinstance(t, (int, float)) and t >= 0
  c = tm.const_of(t)
  if c is not None:
    return c >= 0
  if t in pos:
    return True
  if t.op == "poly":
    for m, k in t.args[0]:
      if k < 0:
        return False
      for a, e in m:
        if e.denominator == 1 and e.numerator % 2 == 0:
          continue
        if not nn(a, pos):
          return False
    return True
  if t.op == "max":
    return any(nn(a, pos) for a in t.args)
  if t.op == "min":
    return all(nn(a, pos) for a in t.args)
  if t.op == "ite":
    return nn(t.args[1], pos) and nn(t.args[2], pos)
  if t.op in ("abs", "exp", "softmax", "onehot", "count", "size", "dim", "pos", "nonneg", "eq", "not", "and", "or", "softplus", "sigmoid", "bool"):
    return True
  if t.op in ("sum", "mean", "transpose", "item", "ravel", "reshape", "stop_gradient", "maxr", "minr", "cumsum", "expand", "treesum", "astype",
              "broadcast_to", "index", "sort"):
    return nn(t.args[0], pos)
  if t.op in ("matmul", "outer"):
    return nn(t.args[0], pos) and nn(t.args[1], pos)
  return False


def nonneg(c, I, name, f, args, kw=None):
  v, e = safe_call(c, "sign", name, I, f, args, kw)
  if e is not None:
    return
  pos = set()
  for l in models.leaves_of(I, v):
    if nn(l, pos):
      c.ok("sign", name)
    else:
      st = "unproved"
      neg = negative_witness(l)
      if neg:
        c.bad("sign", name, f"an entry can be negative: {describe(l)}", where_of(f))
      else:
        c.unknown("sign", name, st)


def negative_witness(t):
  """Does some interpretation (with positive radii) make the term negative?"""
  from ..equal import Eval, _re, boundaries
  if any(x.op in ("sort", "top_k", "approx_max_k", "cumsum", "count") for x in tm.deps(t)):
    return False
  return any(min(map(_re, Eval(s, False, False).ev(t))) < -1e-9 for s in range(12))


def bounds(c, I, name, f, args, lo, hi):
  v, e = safe_call(c, "bounds", name, I, f, args)
  if e is not None:
    return
  if not isinstance(v, T):
    c.unknown("bounds", name, "not a leaf")
    return
  # min(., hi) at the top and either max(., lo) below it (lo <= hi) or the other order
  at_most = v.op == "min" and hi in v.args or v.op == "max" and all(a is lo or a is hi or a.op == "min" and hi in a.args for a in v.args)
  at_least = v.op == "max" and lo in v.args or v.op == "min" and all(a is hi or a is lo or a.op == "max" and lo in a.args for a in v.args)
  if at_most and at_least:
    c.ok("bounds", name)
  else:
    c.unknown("bounds", name, describe(v))


# ---------------------------------------------------------------- QP programs ----
def programs(c, I):
  QP = {"EqualityConstrainedQP", "OSQP", "BoxOSQP", "CvxpyQP"}
  rec = []
  base = I.cls("jaxopt._src.base", "Solver")
  OS, K = I.cls("jaxopt._src.base", "OptStep"), I.cls("jaxopt._src.base", "KKTSolution")

  def pred(cls, name, owner):
    return name == "run" and isinstance(cls, I_.ClassInfo) and cls.name in QP

  def hook(I, s, fn, args, kwargs):
    rec.append((s, list(args), dict(kwargs)))
    kkt = Rec(K, {"primal": ranked("sol_primal", 1), "dual_eq": ranked("sol_eq", 1), "dual_ineq": ranked("sol_ineq", 1)})
    st = Rec(I.cls("jaxopt._src.osqp", "BoxOSQPState") or OS, {"status": tm.sym("cnt", "status")}) if False else mk("sym", "runstate")
    return Rec(OS, {"params": kkt, "state": st})
  I.method_hooks.append((pred, hook))
  x = ranked("x", 1)
  A, b, G, h = ranked("A", 2), ranked("b", 1), ranked("G", 2), ranked("h", 1)
  for n, hp, kw in (("projection_affine_set", (A, b), {}), ("projection_polyhedron", (A, b, G, h), {"check_feasible": False}),
                    ("projection_polyhedron", (A, b, G, h), {})):
    con = n + (f"[{sorted(kw)}]" if kw else "")
    rec.clear()
    f = get(I, n)
    v, e = safe_call(c, "program", con, I, f, [x, hp], kw)
    if e is not None:
      continue
    if len(rec) != 1:
      c.unknown("program", con, f"{len(rec)} QP runs")
      continue
    s, args, kws = rec[0]
    names = ["init_params", "params_obj", "params_eq", "params_ineq"]
    d = dict(zip(names, args))
    d.update(kws)
    where = where_of(f)
    c.same("program", con + " result", v, ranked("sol_primal", 1), where=where)
    attrs = I.heap[s.id]
    cls = s.cls.name
    po = I.unpack_values(d.get("params_obj"), 2)
    if attrs.get("fun") is not None or po is None:
      c.unknown("program", con, "objective given as a function")
      continue
    u = ranked("u", 1)
    if cls == "OSQP":
      attrs = next((I.heap[o.id] for o in attrs.values() if isinstance(o, Ref) and getattr(getattr(o, "cls", None), "name", "") == "BoxOSQP"), attrs)
    Qu = applied(I, attrs.get("matvec_Q"), po[0], u)
    if not isinstance(Qu, T):
      c.unknown("program", con, "quadratic term")
      continue
    Qu = drop_eye(Qu, u)
    sc = scale_of(Qu, u)
    if sc is None:
      c.bad("program", con + " quadratic term", f"maps u to {describe(Qu)}", where)
      continue
    c.same("program", con + " linear term", po[1], tm.neg(tm.mul(sc, x)), where=where)
    if cls == "OSQP" and not dense(I, attrs.get("matvec_A")):
      c.unknown("program", con, "constraint operators given as products")
      continue
    if cls == "BoxOSQP":
      c.unknown("program", con, "box form")
      continue
    c.same("program", con + " equality constraints", d.get("params_eq"), (A, b), where=where)
    c.same("program", con + " inequality constraints", d.get("params_ineq"), (G, h) if len(hp) == 4 else None, where=where)
  I.method_hooks.pop()


def applied(I, make, params, u):
  """The product with u of the operator the solver builds from its parameters."""
  try:
    op = I.call(make, [params], {})
    return I.call(op, [u], {})
  except AbsRaise:
    return None


def dense(I, make):
  return isinstance(make, I_.ClassInfo) and make.name == "DenseLinearOperator"


def drop_eye(t, u):
  return tm.substitute(t, {x: u for x in tm.deps(t) if x.op == "matmul" and x.args[0].op == "eye"})


def scale_of(Qu, u):
  """k when Qu = k u with k a positive number."""
  if Qu is u:
    return tm.ONE
  if isinstance(Qu, T) and Qu.op == "poly" and len(Qu.args[0]) == 1:
    m, k = Qu.args[0][0]
    if len(m) == 1 and m[0][0] is u and m[0][1] == 1 and k > 0:
      return tm.num(k)
  return None


# ---------------------------------------------------------------- box section ----
def section(c, I):
  rec = []
  OS = I.cls("jaxopt._src.base", "OptStep")
  tau = tm.sym("sc", "tau")
  models.RANK[tau] = 0

  def pred(cls, name, owner):
    return name == "run" and isinstance(cls, I_.ClassInfo) and cls.name == "Bisection"

  def hook(I, s, fn, args, kwargs):
    rec.append((s, list(args), dict(kwargs)))
    return Rec(OS, {"params": tau, "state": mk("sym", "runstate")})
  I.method_hooks.append((pred, hook))
  try:
    x = ranked("x", 1)
    hp = (ranked("alpha", 1), ranked("beta", 1), ranked("w", 1), opt("c"))
    f = get(I, "projection_box_section")
    sp = lambda n: spec_fn(I, "projection", n)
    v, e = safe_call(c, "root", "projection_box_section", I, f, [x, hp])
    if e is not None:
      return
    if len(rec) != 1:
      c.unknown("root", "projection_box_section", "root not found by bisection")
      return
    where = where_of(f)
    c.same("root", "projected point", v, I.call(sp("section_point"), [tau, x, hp], {}), where=where, real=True)
    s, args, kw = rec[0]
    attrs = I.heap[s.id]
    r, e = safe_call(c, "root", "residual", I, attrs["optimality_fun"], [tau] + list(args[1:] if args else []), kw)
    if e is None:
      want = I.call(sp("section_residual"), [tau, x, hp], {})
      a, b = same_value(r, want, real=True), same_value(r, tm.neg(want), real=True)
      if "eq" in (a[0], b[0]):
        c.ok("root", "residual")
      elif a[0] == b[0] == "diff":
        c.bad("root", "residual", a[1], where)
      else:
        c.unknown("root", "residual", a[1])
    for n in ("lower", "upper"):
      w = I.call(sp("section_" + n), [x, hp], {})
      st, why = same_value(strip_stop(attrs[n]), w, real=True)
      if st == "diff":
        c.bad("root", f"{n} end of the bracket", why, where)
      elif st == "eq":
        c.ok("root", f"{n} end of the bracket")
      else:
        c.unknown("root", f"{n} end of the bracket", why)
  finally:
    I.method_hooks.pop()


def strip_stop(t):
  while isinstance(t, T) and t.op == "stop_gradient":
    t = t.args[0]
  return t


# ------------------------------------------------------------------ transport ----
def transport(c, I):
  C, a, b = ranked("S", 2), ranked("ma", 1), ranked("mb", 1)
  OS = I.cls("jaxopt._src.base", "OptStep")
  for n in ("projection_transport", "kl_projection_transport", "projection_birkhoff", "kl_projection_birkhoff"):
    for semi in (True, False, None):
      con = f"{n}[semi_dual={semi}]"
      rec = []
      sol = ranked("alpha", 1) if semi is not False else (ranked("alpha", 1), ranked("beta", 1))

      def make(I, args, kw, rec=rec, sol=sol):
        rec.append(["fun", args[0]])
        o = PyFn("run", lambda I, p, q: (rec.append(["run", list(p), dict(q)]), Rec(OS, {"params": sol, "state": mk("sym", "rs")}))[1])
        return I.newobj_with({"run": o}) if hasattr(I, "newobj_with") else Rec(NS(I), {"run": o})
      f = get(I, n)
      marg = [] if "birkhoff" in n else [(a, b)]
      kw = {"make_solver": PyFn("make_solver", make)}
      if semi is not None:
        kw["use_semi_dual"] = semi
      with named_ones(C) as ones:
        v, e = safe_call(c, "transport", con, I, f, [C] + marg, kw)
      if e is not None:
        continue
      if [r[0] for r in rec] != ["fun", "run"]:
        c.unknown("transport", con, "solver not used as documented")
        continue
      fun, plan = I.unpack_values(I.call(spec_fn(I, "projection", "dual" if semi is False else "semi_dual"), [n.startswith("kl_")], {}), 2)
      _, pos, q = rec[1]
      q = dict(q)
      q.pop("init_params", None)
      got, e = safe_call(c, "transport", con, I, rec[0][1], [sol] + pos[1:], q)
      where = where_of(f)
      if marg:
        A_, B_ = a, b
      else:
        A_, B_ = q.get("marginals_a"), q.get("marginals_b")
        if not all(isinstance(m, T) and m in ones or tm.const_of(m) is not None for m in (A_, B_)):
          c.unknown("transport", con, "marginals")
          continue
        for m in (A_, B_):
          if m not in ones:
            c.same("transport", con + " marginals are ones", m, tm.ONE, where=where)
          else:
            c.ok("transport", con + " marginals are ones")
      if e is None:
        c.same("transport", con + " objective", got, I.call(fun, [sol, tm.neg(C), A_, B_], {}), where=where, real=True)
      c.same("transport", con + " plan", v, I.call(plan, [sol, tm.neg(C), A_, B_], {}), where=where, real=True)


@contextlib.contextmanager
def named_ones(C):
  """Vectors of ones as symbols of known rank."""
  old = {n: models.MODELS[n] for n in ("jax.numpy.ones", "jax.numpy.ones_like")}
  made = set()

  def ones(I, a, k):
    t = ranked(f"ones{len(made)}", 1)
    made.add(t)
    return t
  models.MODELS.update({n: ones for n in old})
  try:
    yield made
  finally:
    models.MODELS.update(old)


_NS = {}


def NS(I):
  k = id(I)
  if k not in _NS:
    import types
    _NS[k] = I.cls("spec.mocks", "RunOnly")
  return _NS[k]


# -------------------------------------------------------------------- iterates ----
def iterates(c):
  I = S.solver_interp()
  seen = set()
  for case in S.grad_family(["plain", "aux"]) + S.qp() + S.quasi():
    over = {}
    if case.cls == "LBFGSB":   # the line-search variant relies on step sizes of at most one: not decided here
      form = case.label.split("form=")[-1].split(",")[0].rstrip("]")
      if form in seen:
        continue
      seen.add(form)
      over = {"stepsize": 2.0}
    elif case.cls not in ("ProjectedGradient", "BoxCDQP"):
      continue
    d = S.try_drive(I, case, **over)
    if d is None:
      c.unknown("iterate", case.label, f"raises {case.error}")
      continue
    p = d.new_params
    if not isinstance(p, T):
      c.unknown("iterate", case.label, "structured parameters")
      continue
    if case.cls == "ProjectedGradient":
      verdict = True if projected(p) else None if projected(p, some=True) else False
    else:
      lo, hi = d.args[-1] if case.cls == "BoxCDQP" else d.args[0]
      verdict = boxed(p, lo, hi)
    if verdict:
      c.ok("iterate", case.label)
    elif verdict is None:
      c.unknown("iterate", case.label, describe(p))
    else:
      c.bad("iterate", case.label, f"the next iterate is not forced into the set: {describe(p)}", where_of(I.getattr(d.solver, "update")))
  c.absorb(I)


def projected(t, some=False):
  if t.op == "app" and t.args[0].op == "sym" and t.args[0].args[-1] == "proj":
    return True
  if t.op == "ite":
    f = any if some else all
    return f(projected(x, some) for x in t.args[1:])
  if t.op == "item" and t.args[0].op in ("while", "fori", "scan"):
    l, k = t.args[0], tm.const_of(t.args[1])
    if k is not None:
      return projected(l.args[1][int(k)], some)
  return some and any(x.op == "app" and x.args[0].op == "sym" and x.args[0].args[-1] == "proj" for x in tm.deps(t))


def within(t, lo, hi):
  """Does the term end in the clipping between lo and hi?"""
  def top(t):
    return t is hi or (t.op == "min" and any(top(a) for a in t.args)) or (t.op in ("max", "ite") and all(top(a) or a is lo for a in t.args[-2:]))

  def bot(t):
    return t is lo or (t.op == "max" and any(bot(a) for a in t.args)) or (t.op in ("min", "ite") and all(bot(a) or a is hi for a in t.args[-2:]))
  return top(t) and bot(t)


def boxed(p, lo, hi):
  """Is the point inside the box, whatever the unclipped step is?  None when not known."""
  if p.op == "item" and p.args[0].op == "fori":
    # a coordinate sweep: every index of the vector is overwritten by a clipped value
    l, k = p.args[0], tm.const_of(p.args[1])
    slots = body_of(l)
    if k is None or slots is None:
      return None
    body, init, names = slots
    lvs = {x.args[1]: x for b in body for x in tm.deps(b) if x.op == "lv"}
    fixed = {lvs[n]: i for n, b, i in zip(names, body, init) if n in lvs and b is lvs[n]}
    v = body[int(k)]
    if v.op != "at_set" or v.args[0] is not lvs.get(names[int(k)]):
      return None
    i, val = v.args[1], tm.substitute(v.args[2], fixed)
    return clipped(val, mk("item", lo, i), mk("item", hi, i))
  return clipped(p, lo, hi)


def clipped(p, lo, hi):
  if within(p, lo, hi):
    return True
  # semantically: clipping the point once more changes nothing, for every box with lo < hi
  w = tm.add(lo, tm.mk("exp", tm.sym("arr", "width")))
  p = tm.substitute(p, {hi: w})
  st, _ = same_value(p, tm.minimum(tm.maximum(p, lo), w), real=True)
  return {"eq": True, "diff": False}.get(st)


def body_of(l):
  try:
    body, init, names = l.args[1], l.args[2], l.args[5]
    return list(body), list(init), list(names.args[1:])
  except (AttributeError, IndexError):
    return None
