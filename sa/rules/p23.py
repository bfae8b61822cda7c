"""P23: quadratic-program solvers agree on the problem and its duals."""
import itertools

from ..core import *
from .. import interp as I_
from .. import models
from .. import solvers as S
from .. import terms as tm

FLOOR = 60

ITER = ("cg", "gmres", "bicgstab")


def run(c):
  c.rule("admm", "BoxOSQP.update performs the relaxed ADMM iteration of its problem and reports its residuals, error and status")
  c.rule("penalty", "the step after a change of rho solves the linear system of the new rho")
  c.rule("preconditioner", "the Jacobi preconditioner divides by the diagonal of the system")
  c.rule("start", "default starting points are feasible for the box and satisfy z = clip(Ax)")
  c.rule("conversion", "OSQP hands BoxOSQP the documented problem and maps its solution back")
  c.rule("kkt", "EqualityConstrainedQP solves its KKT system and returns the documented multipliers")
  c.rule("bridge", "CvxpyQP states the documented problem and returns its multipliers")
  c.rule("operator", "linear operators compute the products their names say")
  parts = [box_osqp_part(i) for i in range(len(box_cases()))] + [others]
  parallel(c, parts, 7)


# ---------------------------------------------------------------- linear solves as functions of the system ----
class Systems:
  """A linear solve returns a function of the product with a probe vector and of the right-hand side."""

  def __init__(self, I):
    self.I = I
    self.saved = {}
    self.pre = []
    self.probe = ranked("probe", 1)

  def apply(self, op, v):
    I = self.I
    if isinstance(op, T):
      return tm.matmul(op, v)
    return I.call(op, [v], {})

  def solution(self, Mv, b):
    t = mk("solution", self.I.lift(Mv), self.I.lift(b))
    models.RANK[t] = 1
    return t

  def install(self):
    I = self.I

    def iterative(I, a, k):
      d = dict(zip(["A", "b"], a))
      d.update(k)
      M = d.get("M")
      if M is not None:
        self.pre.append((self.apply(M, self.probe), self.apply(d["A"], self.probe)))
      return (self.solution(self.apply(d["A"], self.probe), d["b"]), None)

    def direct(I, a, k):
      d = dict(zip(["A", "b"], a))
      d.update(k)
      return self.solution(tm.matmul(I.lift(d["A"]), self.probe), d["b"])

    def factor(I, a, k):
      return (mk("factored", I.lift(a[0] if a else k["a"])), mk("sym", "piv", "piv"))

    def factored(I, a, k):
      d = dict(zip(["f", "b"], a))
      d.update(k)
      f = d.get("f", d.get("lu_and_piv", d.get("c_and_lower")))
      lu = I.unpack_values(f, 2)[0]
      if isinstance(lu, T) and lu.op == "ite" and all(isinstance(x, T) and x.op == "factored" for x in lu.args[1:]):
        return self.solution(tm.ite(lu.args[0], *[tm.matmul(x.args[0], self.probe) for x in lu.args[1:]]), d["b"])
      if not (isinstance(lu, T) and lu.op == "factored"):
        return mk("ext:unfactored", I.lift(f), I.lift(d["b"]))
      return self.solution(tm.matmul(lu.args[0], self.probe), d["b"])

    new = {f"jax.scipy.sparse.linalg.{n}": iterative for n in ITER}
    for n in ("jax.numpy.linalg.solve", "jax.scipy.linalg.solve"):
      new[n] = direct
    new["jax.scipy.linalg.lu_factor"] = new["jax.scipy.linalg.cho_factor"] = factor
    new["jax.scipy.linalg.lu_solve"] = new["jax.scipy.linalg.cho_solve"] = factored
    for n, f in new.items():
      self.saved[n] = models.MODELS.get(n)
      models.MODELS[n] = f

  def remove(self):
    for n, f in self.saved.items():
      if f is None:
        models.MODELS.pop(n, None)
      else:
        models.MODELS[n] = f


def kkt(I, *vals):
  x, z, y, mu, phi = vals
  return Rec(I.cls("jaxopt._src.base", "KKTSolution"), {"primal": (x, z), "dual_eq": y, "dual_ineq": (mu, phi)})


def vec(n):
  return ranked(n, 1)


# ---------------------------------------------------------------- BoxOSQP ----
def box_cases():
  out = []
  obj = {"plain": {}, "matvec": {"matvec_Q": "mvQ", "matvec_A": "mvA"}, "fun": {"fun": "qpfun"}}
  for mode, es, chk, box in itertools.product(obj, ("cg", "cg+jacobi", "lu"), (False, True),
                                              ("finite", "l=-inf", "u=inf")):
    if es != "cg" and (mode != "plain" or chk or box != "finite") or box != "finite" and (not chk or mode != "plain"):
      continue
    for freq in ((1, 1), (2, 3)):
      if freq != (1, 1) and (es != "cg" or box != "finite"):
        continue
      out.append((mode, es, chk, box, freq))
  # degenerate programs, where a certificate is decided by the step alone
  out.append(("plain", "cg", True, "still", (1, 1)))
  out.append(("plain", "cg", True, "free", (1, 1)))
  out.append(("linear", "cg", True, "u=inf", (1, 1)))
  out.append(("linear", "cg", True, "l=-inf", (1, 1)))
  return out


def product(name):
  """A user-supplied matrix-vector product: the matrix is a function of the parameters."""
  def mv(I, a, k):
    d = dict(zip(["params", "x"], a))
    d.update(k)
    f = fnsym(name)
    models.RESULT_RANK[f] = 2
    return tm.matmul(mk("app", f, I.lift(d["params"])), I.lift(d["x"]))
  return PyFn(name, mv)


def user_options(mode):
  if mode == "matvec":
    return {"matvec_Q": product("mvQ"), "matvec_A": product("mvA")}
  if mode == "linear":
    return {"matvec_Q": PyFn("zero", lambda I, a, k: tm.mul(tm.num(0), I.lift(a[1])))}
  if mode == "fun":
    models.SCALAR_RESULT[fnsym("qpfun")] = [()]
    return {"fun": fnsym("qpfun")}
  return {}


TOLS = {"sigma": "sigma", "momentum": "mom", "rho_min": "rmin", "rho_max": "rmax", "tol": "tol",
        "primal_infeasible_tol": "ptol", "dual_infeasible_tol": "dtol"}


def box_osqp_part(i):
  def go(sub):
    box_osqp(sub, *box_cases()[i])
  return go


def box_osqp(c, mode, es, chk, box, freq):
  models.LINEAR_RULES = True
  I = S.solver_interp()
  con = f"BoxOSQP[{mode},{es},infeasibility={chk},{box},frequencies={freq}]"
  sysm = Systems(I)
  sysm.install()
  try:
    o = user_options(mode)
    opts = {k: opt(v) for k, v in TOLS.items()}
    if box == "still":
      opts["momentum"] = tm.num(0)
    s = I.instantiate(S.public(I, "BoxOSQP"), [], dict(o, eq_qp_solve=es, check_primal_dual_infeasability=chk, jit=True,
                                                       stepsize_updates_frequency=freq[0], verbose=False, rho_start=opt("rho"),
                                                       termination_check_frequency=freq[1], **opts))
    obj = opt("pobj") if mode == "fun" else (ranked("Q", 2), vec("c"))
    l, u = vec("l"), vec("u")
    if box in ("l=-inf", "free"):
      l = tm.neg(tm.INF)
    if box in ("u=inf", "free"):
      u = tm.INF
    args = [obj, ranked("A", 2), (l, u)]
    c0 = [vec(n) for n in ("x", "z", "y", "mu", "phi")]
    if box == "free":
      c0[2] = tm.num(0)
    if mode == "linear":
      args[0] = (obj[0], tm.num(0))
    p0 = kkt(I, *c0)
    spec = I.module("spec.qp").frame.vars
    if mode == "fun":
      g = I.lift(I.unpack_values(I.call(spec["operators"], [I.newdict(o), p0.vals["primal"][0], obj], {}), 2)[1])
      models.RANK[g] = 1
    O = I.newdict(o)
    where = where_of(I.getattr(s, "update"))
    st0 = I.call(I.getattr(s, "init_state"), [p0] + args, {})
    want = I.payload(I.call(spec["box_init"], [s, O, p0] + args, {}))
    for f, v in want.items():
      c.same("admm", f"{con} init_state {f}", st0.vals[f], v, where=where_of(I.getattr(s, "init_state")))
    state = Rec(st0.cls, dict(st0.vals, iter_num=tm.sym("cnt", "k"), error=opt("err"), status=tm.sym("cnt", "status"),
                              primal_residuals=vec("pres"), dual_residuals=vec("dres")))
    p1, st1 = step(c, I, s, spec, O, con, "admm", p0, state, args, where)
    if st1 is not None:
      state2 = Rec(st1.cls, dict(st1.vals, iter_num=tm.sym("cnt", "k2"), error=opt("err2"), status=tm.sym("cnt", "status2"),
                                 primal_residuals=vec("pres2"), dual_residuals=vec("dres2")))
      # the linear-solver state is the one left by the first step; its warm start is not part of the contract
      q = kkt(I, *[vec(n + "2") for n in ("x", "z", "y", "mu", "phi")])
      step(c, I, s, spec, O, con + " second step", "penalty", q, state2, args, where, only=("x", "z", "y"))
    if es == "cg+jacobi":
      jacobi(c, I, s, con, sysm, opts, where)
  except AbsRaise as e:
    c.unknown("admm", con, f"raises {e}") if model_limit(e) else c.bad("admm", con, f"raises {e}", "jaxopt/_src/osqp.py")
  finally:
    sysm.remove()
  c.absorb(I)


def step(c, I, s, spec, O, con, rule, p, state, args, where, only=None):
  out = I.call(I.getattr(s, "update"), [p, state] + args, {})
  np_, ns = I.unpack_values(out, 2)
  want = I.payload(I.call(spec["box_update"], [s, O, p, state] + args, {}))
  got = dict(ns.vals)
  x, z = I.unpack_values(np_.vals["primal"], 2)
  mu, phi = I.unpack_values(np_.vals["dual_ineq"], 2)
  got.update(x=x, z=z, y=np_.vals["dual_eq"], mu=mu, phi=phi)
  for f, v in want.items():
    if only is None or f in only:
      c.same(rule, f"{con} {f}", got[f], v, where=where)
  return np_, ns


def jacobi(c, I, s, con, sysm, opts, where):
  Q, A = ranked("Q", 2), ranked("A", 2)
  if not sysm.pre:
    c.bad("preconditioner", con, "no preconditioner is given to the linear solver", where)
    return
  got, _ = sysm.pre[0]
  want = I.call(I.module("spec.qp").frame.vars["jacobi"], [Q, A, opts["sigma"], opt("rho"), sysm.probe], {})
  c.same("preconditioner", con, got, want, where=where)


# ---------------------------------------------------------------- the other solvers ----
NROWS = {"b": 2, "h": 3}


def program(I):
  """A program with 2 equality and 3 inequality constraints in dimension 4."""
  v = {n: vec(n) for n in "bhcx"}
  v.update({n: ranked(n, 2) for n in "QAG"})
  models.LEAD.update({v["b"]: (2,), v["h"]: (3,), v["A"]: (2, 4), v["G"]: (3, 4), v["Q"]: (4, 4), v["c"]: (4,), v["x"]: (4,)})
  return v


def lead_vec(n, size):
  t = vec(n)
  models.LEAD[t] = (size,)
  return t


def others(c):
  saved = dict(models.LEAD)
  models.LINEAR_RULES = True
  try:
    for part in (box_starts, osqp_conversion, equality_qp, cvxpy_bridge, operators):
      I = S.solver_interp()
      try:
        part(c, I)
      except AbsRaise as e:
        (c.unknown if model_limit(e) else c.bad)(part.__name__, part.__name__, f"raises {e}",
                                                 *([] if model_limit(e) else ["jaxopt/_src/osqp.py"]))
      c.absorb(I)
  finally:
    models.LEAD.clear()
    models.LEAD.update(saved)


def box_starts(c, I):
  """A run without a starting point starts at x = 0, z = clip(Ax, l, u), y = mu = phi = 0."""
  spec = I.module("spec.qp").frame.vars
  A, l, u, x = ranked("A", 2), vec("l"), vec("u"), vec("x")
  rec = []
  I.method_hooks.append((lambda cls, name, owner: name == "run" and getattr(owner, "name", owner) == "IterativeSolver",
                         lambda I, s, fn, args, kw: (rec.append((list(args), dict(kw))), mk("sym", "runresult"))[1]))
  for mode in ("plain", "matvec", "fun"):
    o = user_options(mode)
    s = I.instantiate(S.public(I, "BoxOSQP"), [], dict(o))
    obj = opt("pobj") if mode == "fun" else (ranked("Q", 2), vec("c"))
    f = I.getattr(s, "init_params")
    where = where_of(f)
    O = I.newdict(o)
    for con, x0 in ((f"BoxOSQP[{mode}].init_params(x)", x), (f"BoxOSQP[{mode}].init_params(None)", None)):
      args = [x0, obj, A, (l, u)]
      if mode == "fun" and x0 is None:
        raises(c, I, "start", con, f, args, where)
        continue
      got = I.call(f, args, {})
      wx = x if x0 is not None else tm.num(0)
      want = I.unpack_values(I.call(spec["box_start"], [O, wx, A, (l, u)], {}), 3)
      gx, gz = I.unpack_values(got.vals["primal"], 2)
      mu, phi = I.unpack_values(got.vals["dual_ineq"], 2)
      for n, g, w in (("x", gx, wx), ("z", gz, want[1]), ("y", got.vals["dual_eq"], tm.num(0)), ("mu", mu, tm.num(0)),
                      ("phi", phi, tm.num(0))):
        c.same("start", f"{con} {n}", g, w, where=where)
    # what run() is started from
    rec.clear()
    run_ = I.getattr(s, "run")
    p0 = kkt(I, *[vec(n) for n in ("x", "z", "y", "mu", "phi")])
    for con, first in ((f"BoxOSQP[{mode}].run()", None), (f"BoxOSQP[{mode}].run(init_params)", p0)):
      if mode == "fun" and first is None:
        continue
      rec.clear()
      I.call(run_, [first, obj, A, (l, u)], {})
      if len(rec) != 1:
        c.unknown("start", con, f"{len(rec)} iterations recorded")
        continue
      args, kw = rec[0]
      d = dict(zip(["init_params", "params_obj", "params_eq", "params_ineq"], args), **kw)
      if first is None:
        want = I.unpack_values(I.call(spec["box_start"], [O, tm.num(0), A, (l, u)], {}), 3)
        want = (tm.num(0), want[1])
      else:
        want = p0.vals["primal"]
      c.same("start", con + " primal", d["init_params"].vals["primal"], want, where=where_of(run_))
      c.same("start", con + " dual", d["init_params"].vals["dual_eq"], tm.num(0) if first is None else p0.vals["dual_eq"],
             where=where_of(run_))
      for n, w in (("params_obj", obj), ("params_eq", A), ("params_ineq", (l, u))):
        c.same("start", f"{con} {n}", d.get(n), w, where=where_of(run_))
  I.method_hooks.pop()


def raises(c, I, rule, con, f, args, where, kw=None):
  """The documented refusal of a malformed program."""
  try:
    I.call(f, args, kw or {})
  except AbsRaise as e:
    if model_limit(e):
      c.unknown(rule, con, str(e))
    else:
      c.ok(rule, con)
    return
  c.bad(rule, con, "is accepted", where)


def pieces(I, v):
  """Rows of a stacked vector: [top, bottom]."""
  if not isinstance(v, T):
    xs = I.iterate(v)
    return None if xs is None else [I.lift(x) for x in xs]
  if v.op == "concatenate" and v.args[0].op == "tuple":
    return list(v.args[0].args)
  if v.op == "matmul" and v.args[0].op == "concatenate":
    return [tm.matmul(x, v.args[1]) for x in pieces(I, v.args[0])]
  return [v]


def osqp_conversion(c, I):
  """min 0.5x'Qx + c'x, Ax = b, Gx <= h   ==   [A; G]x in [(b, -inf), (b, h)]."""
  v = program(I)
  y0 = {"eq": lead_vec("y0", 2), "ineq": lead_vec("mu0", 3)}
  sy = {"eq": lead_vec("sy", 2), "ineq": lead_vec("sw", 3)}      # multipliers of the stacked rows
  sm = {"eq": lead_vec("sme", 2), "ineq": lead_vec("smi", 3)}
  K = I.cls("jaxopt._src.base", "KKTSolution")
  rec = []

  def hook(I, s, fn, args, kw):
    d = dict(zip(["init_params", "params_obj", "params_eq", "params_ineq"], args), **kw)
    attrs = I.heap[s.id]
    u = ranked("u", 1)
    rec.append((d, I.call(I.call(attrs["matvec_A"], [d["params_eq"]], {}), [u], {}),
                I.call(I.call(attrs["matvec_Q"], [I.unpack_values(d["params_obj"], 2)[0]], {}), [u], {}), u))
    stacked = hook.dense

    def stack(p):
      xs = [p[k] for k in ("eq", "ineq") if k in hook.parts]
      if not stacked:
        return I.newlist(xs)
      return xs[0] if len(xs) == 1 else mk("concatenate", mk("tuple", *xs), tm.num(0))
    sol = kkt(I, ranked("sx", 1), ranked("sz", 1), stack(sy), stack(sm), ranked("sphi", 1))
    B = I.cls("jaxopt._src.osqp", "BoxOSQPState")
    st = Rec(B, {n: mk("sym", "box", n) for n, _, _ in B.fields()})
    return Rec(I.cls("jaxopt._src.base", "OptStep"), {"params": sol, "state": st})
  I.method_hooks.append((lambda cls, name, owner: name == "run" and getattr(cls, "name", "") == "BoxOSQP", hook))
  cases = [("dense", {}, ("eq", "ineq")), ("dense", {}, ("eq",)), ("dense", {}, ("ineq",)),
           ("products", {"matvec_A": product("mvA"), "matvec_G": product("mvG")}, ("eq", "ineq")),
           ("product A", {"matvec_A": product("mvA")}, ("eq", "ineq")),
           ("product A", {"matvec_A": product("mvA")}, ("eq",)),
           ("product G", {"matvec_G": product("mvG")}, ("eq", "ineq")),
           ("product G", {"matvec_G": product("mvG")}, ("ineq",)),
           ("product Q", {"matvec_Q": product("mvQ")}, ("eq", "ineq"))]
  for name, o, parts in cases:
    hook.dense, hook.parts = "matvec_A" not in o and "matvec_G" not in o, parts
    s = I.instantiate(S.public(I, "OSQP"), [], dict(o))
    run_ = I.getattr(s, "run")
    where = where_of(run_)
    eq = (v["A"], v["b"]) if "eq" in parts else None
    ineq = (v["G"], v["h"]) if "ineq" in parts else None
    for warm in (False, True):
      con = f"OSQP[{name}; {'+'.join(parts)}; {'warm' if warm else 'cold'} start]"
      p0 = Rec(K, {"primal": v["x"], "dual_eq": y0["eq"] if eq else None, "dual_ineq": y0["ineq"] if ineq else None}) if warm else None
      rec.clear()
      out = I.call(run_, [p0, (v["Q"], v["c"]), eq, ineq], {})
      if len(rec) != 1:
        c.unknown("conversion", con, f"{len(rec)} runs of BoxOSQP")
        continue
      d, Au, Qu, u = rec[0]

      def mv(k, M):
        return I.call(o[k], [M, u], {}) if k in o else tm.matmul(M, u)
      c.same("conversion", con + " objective", (Qu, I.unpack_values(d["params_obj"], 2)[1]), (mv("matvec_Q", v["Q"]), v["c"]), where=where)
      lo, hi = I.unpack_values(d["params_ineq"], 2)
      want = {"rows": [], "lower": [], "upper": []}
      if eq:
        want["rows"].append(mv("matvec_A", v["A"])), want["lower"].append(v["b"]), want["upper"].append(v["b"])
      if ineq:
        want["rows"].append(mv("matvec_G", v["G"])), want["lower"].append(tm.neg(tm.INF)), want["upper"].append(v["h"])
      for n, g in (("rows", Au), ("lower", lo), ("upper", hi)):
        ps = pieces(I, g)
        if n == "lower" and ineq and ps and ps[-1] is tm.INF:
          c.bad("conversion", f"{con} {n}", "the inequality rows are bounded below by +infinity", where)
        elif ps is None or len(ps) != len(want[n]):
          c.unknown("conversion", f"{con} {n}", describe(g))
        else:
          c.same("conversion", f"{con} {n}", tuple(ps), tuple(want[n]), where=where)
      start = d["init_params"]
      if isinstance(start, Rec):
        gx = I.unpack_values(start.vals["primal"], 2)[0]
        c.same("conversion", con + " start", gx, v["x"] if warm else tm.num(0), where=where)
        ps = pieces(I, start.vals["dual_eq"])
        if ps is not None:
          wd = [y0[k] if warm else tm.num(0) for k in parts]
          if not warm and len(ps) == 1:
            wd = wd[:1]
          if len(ps) == len(wd):
            c.same("conversion", con + " starting multipliers", tuple(ps), tuple(wd), where=where)
          else:
            c.unknown("conversion", con + " starting multipliers", describe(start.vals["dual_eq"]))
      sol, st = I.unpack_values(out, 2)
      for n, w in (("primal", ranked("sx", 1)), ("dual_eq", sy["eq"] if eq else None), ("dual_ineq", sm["ineq"] if ineq else None)):
        g = sol.vals[n]
        if isinstance(g, T) and g in models.LEAD and isinstance(w, T) and models.LEAD[g] != models.LEAD.get(w, models.LEAD[g]):
          c.bad("conversion", f"{con} returned {n}", f"{models.LEAD[g][0]} multipliers for {models.LEAD[w][0]} constraints", where)
          continue
        if isinstance(g, T) and isinstance(w, T):
          other = [y for y in (*sy.values(), *sm.values()) if y is not w and y in tm.deps(g)]
          if other:
            c.bad("conversion", f"{con} returned {n}", f"{describe(g)} holds multipliers of other rows than {describe(w)}", where)
            continue
        c.same("conversion", f"{con} returned {n}", g, w, where=where)
      for n in ("iter_num", "error", "status"):
        if isinstance(st, Rec) and n in st.vals:
          c.same("conversion", f"{con} returned {n}", st.vals[n], mk("sym", "box", n), where=where)
  s = I.instantiate(S.public(I, "OSQP"), [], {})
  raises(c, I, "conversion", "OSQP without constraints", I.getattr(s, "run"), [None, (v["Q"], v["c"]), None, None], where)
  I.method_hooks.pop()


def equality_qp(c, I):
  """[Q A'; A 0](x, y) = (-c, b)."""
  spec = I.module("spec.qp").frame.vars
  v = program(I)
  K = I.cls("jaxopt._src.base", "KKTSolution")
  for mode in ("plain", "matvec", "fun"):
    for refine in (False, True):
      for warm in ((True,) if mode == "fun" else (False, True)):
        o = user_options(mode)
        con = f"EqualityConstrainedQP[{mode}{'; regularised' if refine else ''}{'; warm start' if warm else ''}]"
        rec = []

        def solve(I, a, k):
          d = dict(zip(["matvec", "b"], a), **k)
          rec.append(d)
          return (ranked("sp", 1), ranked("sd", 1))
        ex = {"refine_regularization": opt("reg")} if refine else {}
        s = I.instantiate(S.public(I, "EqualityConstrainedQP"), [], dict(o, solve=PyFn("solve", solve), tol=opt("tol"), maxiter=opt("maxiter"), **ex))
        run_ = I.getattr(s, "run")
        where = where_of(run_)
        p0 = Rec(K, {"primal": v["x"], "dual_eq": vec("y0"), "dual_ineq": None}) if warm else None
        obj = opt("pobj") if mode == "fun" else (v["Q"], v["c"])
        refined = []
        if refine:
          I.method_hooks.append((lambda cls, name, owner: name == "run" and getattr(cls, "name", "") == "IterativeRefinement",
                                 lambda I, s, fn, a, k: (refined.append((I.heap[s.id], dict(zip(["init_params", "A", "b"], a), **k))),
                                                         ((ranked("sp", 1), ranked("sd", 1)), mk("sym", "refstate")))[1]))
        try:
          out = I.call(run_, [p0, obj, (v["A"], v["b"])], {})
        finally:
          if refine:
            I.method_hooks.pop()
        O = I.newdict(o)
        mv, rhs = I.unpack_values(I.call(spec["kkt_system"], [O, v["x"], obj, (v["A"], v["b"])], {}), 2)
        if mode == "fun":
          models.RANK[I.lift(I.unpack_values(rhs, 2)[0])] = 1
        u, w = ranked("u", 1), ranked("w", 1)
        want = tuple(I.unpack_values(I.call(mv, [u, w], {}), 2))
        init = (v["x"], vec("y0")) if warm else None
        if not refine:
          if len(rec) != 1:
            c.unknown("kkt", con, f"{len(rec)} linear solves")
            continue
          d = rec[0]
          got = I.call(d["matvec"], [(u, w)], {})
          c.same("kkt", con + " system", got, want, where=where)
          c.same("kkt", con + " right-hand side", d["b"], rhs, where=where)
          c.same("kkt", con + " start", d.get("init"), init, where=where)
          c.same("kkt", con + " tolerance", d.get("tol"), opt("tol"), where=where)
          c.same("kkt", con + " iterations", d.get("maxiter"), opt("maxiter"), where=where)
        elif len(refined) != 1:
          c.unknown("kkt", con, f"{len(refined)} refinements")
          continue
        else:
          attrs, d = refined[0]
          A_ = d.get("A")
          got = I.call(I.call(attrs["matvec_A"], [A_], {}), [(u, w)], {})
          c.same("kkt", con + " system", got, want, where=where)
          reg = [tm.add(want[0], tm.mul(opt("reg"), u)), tm.sub(want[1], tm.mul(opt("reg"), w))]
          bar = d.get("A_bar", A_)
          c.same("kkt", con + " regularised system", I.call(I.call(attrs["matvec_A_bar"], [bar], {}), [(u, w)], {}), tuple(reg), where=where)
          c.same("kkt", con + " right-hand side", d["b"], rhs, where=where)
          c.same("kkt", con + " start", d.get("init_params"), init, where=where)
        sol, _ = I.unpack_values(out, 2)
        for n, w_ in (("primal", ranked("sp", 1)), ("dual_eq", ranked("sd", 1)), ("dual_ineq", None)):
          c.same("kkt", f"{con} returned {n}", sol.vals[n], w_, where=where)


def cvxpy_bridge(c, I):
  v = program(I)
  for parts in (("eq", "ineq"), ("eq",), ("ineq",), ()):
    con = f"CvxpyQP[{'+'.join(parts)}]"
    s = I.instantiate(S.public(I, "CvxpyQP"), [], {"solver": mk("sym", "solver")})
    run_ = I.getattr(s, "run")
    where = where_of(run_)
    eq = (v["A"], v["b"]) if "eq" in parts else None
    ineq = (v["G"], v["h"]) if "ineq" in parts else None
    out = I.call(run_, [None, (v["Q"], v["c"]), eq, ineq], {})
    sol, _ = I.unpack_values(out, 2)
    x = sol.vals["primal"]
    if not (isinstance(x, T) and x.op == "attr" and x.args[1] == "value"):
      c.bad("bridge", con + " returned primal", f"{describe(x)} is not the value of the program's variable", where)
      continue
    X = x.args[0]
    pb = None
    for n, on in (("dual_eq", "eq"), ("dual_ineq", "ineq")):
      g = sol.vals[n]
      if on not in parts:
        c.same("bridge", f"{con} returned {n}", g, None, where=where)
        continue
      if not (isinstance(g, T) and g.op == "attr" and g.args[1] == "dual_value"):
        c.bad("bridge", f"{con} returned {n}", f"{describe(g)} is not a multiplier of the program", where)
        continue
      k = g.args[0]
      if k.op == "item" and k.args[0].op == "attr" and k.args[0].args[1] == "constraints":
        p = k.args[0].args[0]
        cs, i = p.args[1] if len(p.args) > 1 else None, models.const_int(k.args[1])
        pb = p
        if not (isinstance(cs, T) and cs.op == "tuple") or i is None or not -len(cs.args) <= i < len(cs.args):
          c.unknown("bridge", f"{con} returned {n}", tm.show(k, 4))
          continue
        k = cs.args[i]
        if len(cs.args) != len(parts):
          c.bad("bridge", con + " constraints", f"{len(cs.args)} constraints are posed", where)
      want = tm.eq(tm.matmul(v["A"], X), v["b"]) if on == "eq" else tm.le(tm.matmul(v["G"], X), v["h"])
      if on == "eq" and k.op == "eq" and k is not want:
        r = tm.substitute(k.args[0], {X: ranked("x", 1)})
        want = tm.sub(v["b"], tm.matmul(v["A"], ranked("x", 1)))
        sts = [same_value(r, y)[0] for y in (want, tm.neg(want))]
        if "eq" in sts:
          c.ok("bridge", f"{con} returned {n}")
        elif "undecided" in sts:
          c.unknown("bridge", f"{con} returned {n}", tm.show(r, 4))
        else:
          c.bad("bridge", f"{con} returned {n}", f"is the multiplier of {tm.show(r, 6)} = 0", where)
        continue
      if k is want:
        c.ok("bridge", f"{con} returned {n}")
      else:
        x_ = ranked("x", 1)
        c.same("bridge", f"{con} returned {n}", tm.substitute(k, {X: x_}), tm.substitute(want, {X: x_}), where=where)
    if pb is None:
      continue
    goal = pb.args[0]
    if goal.op == "ext:cvxpy.Maximize":
      c.bad("bridge", con + " objective", "is maximised", where)
      continue
    if goal.op != "ext:cvxpy.Minimize":
      c.unknown("bridge", con + " objective", goal.op)
      continue
    x_ = ranked("x", 1)
    f = expand_forms(tm.substitute(goal.args[0], {X: x_}))
    want = tm.add(tm.mul(tm.num(0.5), tm.asum(tm.mul(x_, tm.matmul(v["Q"], x_)))), tm.asum(tm.mul(v["c"], x_)))
    c.same("bridge", con + " objective", f, want, where=where, real=True)


def expand_forms(t):
  """quad_form(x, P) = x'Px, sum_squares(x) = x'x, x' y = sum(x y)."""
  m = {}
  for d in tm.deps(t):
    if d.op == "ext:cvxpy.quad_form" and len(d.args) == 2:
      m[d] = tm.asum(tm.mul(d.args[0], tm.matmul(d.args[1], d.args[0])))
    if d.op == "ext:cvxpy.sum_squares" and len(d.args) == 1:
      m[d] = tm.asum(tm.mul(d.args[0], d.args[0]))
    if d.op == "matmul" and all(models.rank(z.args[0] if z.op == "transpose" else z) == 1 for z in d.args):
      a, b = [z.args[0] if z.op == "transpose" else z for z in d.args]
      m[d] = tm.asum(tm.mul(a, b))
  return tm.substitute(t, m) if m else t


def operators(c, I):
  """Dense and functional operators: A u, A'w, A'Au, diag(A), column norms."""
  mod = I.module("jaxopt._src.linear_operator").frame.vars
  M, u, w = ranked("M", 2), ranked("u", 1), ranked("w", 1)
  Mu, Mtw = tm.matmul(M, u), models.term_attr(I, M, "T")
  Mtw = tm.matmul(Mtw, w)
  Mt = models.term_attr(I, M, "T")
  norms2 = models.reduction(I, "sum", tm.mul(M, M), tm.num(0), {})
  for name in ("DenseLinearOperator", "FunctionalLinearOperator"):
    if name not in mod:
      continue
    cls = mod[name]
    f = PyFn("mv", lambda I, a, k: tm.matmul(I.lift(a[0]), I.lift(a[1])))
    op = I.call(cls, [M] if name.startswith("Dense") else [f, M], {})
    table = [("matvec", [u], Mu), ("rmatvec", [u, w], Mtw), ("matvec_and_rmatvec", [u, w], (Mu, Mtw)),
             ("normal_matvec", [u], tm.matmul(Mt, Mu))]
    if name.startswith("Dense"):
      table += [("diag", [], mk("diagof", M)), ("columns_l2_norms", [], tm.power(norms2, tm.Fraction(1, 2)))]
    for n, args, want in table:
      try:
        g = I.getattr(op, n)
      except AbsRaise:
        continue
      v, e = safe_call(c, "operator", f"{name}.{n}", I, g, args, {})
      if e is None:
        c.same("operator", f"{name}.{n}", v, want, where=where_of(g))
    v, e = safe_call(c, "operator", f"{name}.__call__", I, op, [u], {})
    if e is None:
      c.same("operator", f"{name}.__call__", v, Mu, where="jaxopt/_src/linear_operator.py")
    if name.startswith("Dense"):
      g = I.getattr(op, "columns_l2_norms")
      v, e = safe_call(c, "operator", f"{name}.columns_l2_norms(squared)", I, g, [], {"squared": True})
      if e is None:
        c.same("operator", f"{name}.columns_l2_norms(squared)", v, norms2, where=where_of(g))
