"""P19: every linear solver solves the documented system for the operator it is given."""
from ..core import *
from .. import models
from .. import terms as tm

FLOOR = 40
mk = tm.mk

KINDS = {"lu": {"general"}, "cholesky": {"general", "pos"}, "inv": {"general", "pos"}, "qr": {"general"},
         "cg": {"cg", "general", "pos"}, "normal_cg": {"cg", "gmres", "bicgstab", "general", "pos"},
         "gmres": {"gmres", "general"}, "bicgstab": {"bicgstab", "gmres", "general"}}
DIRECT = ("lu", "cholesky", "inv", "qr")
ITERATIVE = ("cg", "normal_cg", "gmres", "bicgstab")


def QQ(m):
  return mk("app", mk("sym", "fn", "qr_q"), m)


class Opaque(Exception):
  """The construction is outside the recognised linear algebra."""


# ------------------------------------------------ linear maps as terms ----
def occurs(t, x):
  return x in tm.deps(t)


def split(t, x):
  """Linear term in x as [(coefficient, atom depending on x)]."""
  if t is x or t.op != "poly":
    return [(tm.ONE, t)]
  out = []
  for m, c in t.args[0]:
    dep = [(a, e) for a, e in m if occurs(a, x)]
    if len(dep) != 1 or dep[0][1] != 1:
      raise Opaque("not linear")
    rest = tm._poly({tuple((a, e) for a, e in m if a is not dep[0][0]): c})
    out.append((rest, dep[0][0]))
  return out


def adjoint(t, x, y):
  """L^T y for the term t = L x."""
  res = tm.ZERO
  for c, a in split(t, x):
    if a is x:
      r = y
    elif a.op == "matmul" and not occurs(a.args[0], x):
      r = adjoint(a.args[1], x, tm.matmul(tm.transpose(a.args[0]), y))
    elif a.op == "matmul" and not occurs(a.args[1], x):
      r = adjoint(a.args[0], x, tm.matmul(a.args[1], y))
    else:
      raise Opaque("adjoint of " + a.op)
    res = tm.add(res, tm.mul(c, r))
  return res


class Machine:
  """Models of the linear-algebra externals for this check."""

  def __init__(self, I):
    self.I = I
    self.systems = []
    for n, f in (("jax.jacfwd", self.jac), ("jax.jacrev", self.jac), ("jax.jacobian", self.jac),
                 ("jax.vjp", self.vjp), ("jax.linear_transpose", self.transpose),
                 ("jax.numpy.linalg.solve", self.solve), ("jax.scipy.linalg.solve", self.solve),
                 ("jax.numpy.linalg.inv", self.inv), ("jax.scipy.linalg.inv", self.inv),
                 ("jax.numpy.linalg.qr", self.qr), ("jax.scipy.linalg.qr", self.qr),
                 ("jax.scipy.linalg.solve_triangular", self.tri),
                 ("jax.scipy.linalg.cho_factor", self.fact("pos")), ("jax.scipy.linalg.lu_factor", self.fact("general")),
                 ("jax.scipy.linalg.cho_solve", self.fsolve), ("jax.scipy.linalg.lu_solve", self.fsolve)):
      self.saved = getattr(self, "saved", {})
      self.saved[n] = models.MODELS.get(n)
      models.MODELS[n] = f
    for n in ("cg", "gmres", "bicgstab"):
      k = "jax.scipy.sparse.linalg." + n
      self.saved[k] = models.MODELS.get(k)
      models.MODELS[k] = self.krylov(n)

  def close(self):
    for n, f in self.saved.items():
      if f is None:
        models.MODELS.pop(n, None)
      else:
        models.MODELS[n] = f

  # a linear function of one array, as a term of a bound variable
  def body(self, f, like):
    I = self.I
    b = mk("bv", 70 + len(self.systems), 0)
    r = self.prank
    old = models.RANK.get(b)
    if r is not None:
      models.RANK[b] = r
    try:
      return b, I.lift(I.call(f, [b], {}))
    finally:
      if old is None:
        models.RANK.pop(b, None)

  def jac(self, I, a, k):
    f = a[0]

    def g(I, args, kw):
      x = I.lift(args[0])
      b, t = self.body(f, x)
      if self.prank == 0:
        return substitute(I, t, b, tm.ONE)
      return mk("linmat", mk("lam", 1, t), b)
    return PyFn("jac", g)

  def vjp(self, I, a, k):
    f, x = a[0], a[1:]
    if len(x) != 1:
      raise Opaque("vjp")
    out = I.call(f, [x[0]], {})
    pull = self.transpose(I, [f, x[0]], {})
    return (out, pull)

  def transpose(self, I, a, k):
    f, x = a[0], a[1]

    def g(I, args, kw):
      n = [0]

      def fresh(v):
        n[0] += 1
        b = mk("bv", 60, n[0])
        r = models.rank(v)
        if r is not None:
          models.RANK[b] = r
        return b
      xs = models.tmap(I, fresh, [x])
      flat = leaves(I, xs)
      out = leaves(I, I.call(f, [xs], {}))
      ys = leaves(I, args[0])
      if len(out) != len(ys):
        raise Opaque("cotangent structure")
      res = {}
      for b in flat:
        r = tm.ZERO
        for o, y in zip(out, ys):
          o = drop(o, b, flat)
          if o is not None:
            r = tm.add(r, adjoint(o, b, I.lift(y)))
        res[b] = r
      return (models.tmap(I, lambda b: res[b], [xs]),)
    return PyFn("transpose", g)

  # ------------------------------------------------------------ solvers ----
  def system(self, kind, op, rhs, x0=None, opts=None):
    self.systems.append((kind, op, rhs, x0, opts or {}))
    return mk("linsol", len(self.systems) - 1)

  def solve(self, I, a, k):
    d = models.getargs(I, ["a", "b"], a, k)
    pos = k.get("assume_a", "gen")
    kind = "pos" if isinstance(pos, str) and pos in ("pos", "her", "sym") else "general"
    if k.get("transposed"):
      raise Opaque("transposed")
    return self.like(d["b"], self.system(kind, I.lift(d["a"]), d["b"]))

  def like(self, b, x):
    r = models.rank(self.I.lift(b)) if not isinstance(b, (tuple, Ref)) else None
    if r is not None:
      models.RANK[x] = r
    return x

  def inv(self, I, a, k):
    t = mk("inv", I.lift(a[0]))
    models.RANK[t] = 2
    return t

  def qr(self, I, a, k):
    m = I.lift(a[0])
    q, r = QQ(m), mk("qrr", m)
    models.RANK[q] = models.RANK[r] = 2
    return (q, r)

  def tri(self, I, a, k):
    r, b = I.lift(a[0]), I.lift(a[1])
    if r.op != "qrr" or len(a) > 2 and a[2] not in (0, "N"):
      raise Opaque("triangular system")
    if any(k.get(n) not in (None, False, 0, "N") for n in ("trans", "lower", "unit_diagonal")):
      return mk("wrongsystem", r, b)
    m = r.args[0]
    # find the vector that Q^H multiplies
    for cand in self.candidates:
      w = tm.matmul(tm.transpose(tm.conj(QQ(m))), cand)
      st = "eq" if w is b else same_value(b, w)[0]
      if st == "eq":
        return self.like(cand, self.system("general", m, cand))
      q = QQ(m)
      wrong = [tm.matmul(x, cand) for x in (tm.transpose(q), q, tm.conj(q))]
      if st == "diff" or any(x is b for x in wrong):
        return mk("wrongsystem", r, b)
    raise Opaque("triangular system")

  def fact(self, kind):
    def f(I, a, k):
      return (mk("factor", kind, I.lift(a[0])), k.get("lower", False))
    return f

  def fsolve(self, I, a, k):
    fac = I.unpack_values(a[0], 2)[0]
    if not isinstance(fac, T) or fac.op != "factor" or k.get("trans"):
      raise Opaque("factorised system")
    return self.like(a[1], self.system(fac.args[0], fac.args[1], a[1]))

  def krylov(self, kind):
    def f(I, a, k):
      d = models.getargs(I, ["A", "b", "x0"], a[:3], {n: v for n, v in k.items() if n in ("A", "b", "x0")})
      opts = {n: v for n, v in k.items() if n not in ("A", "b", "x0")}
      if len(a) > 3:
        raise Opaque("positional options")
      x = self.system(kind, d["A"], d["b"], d.get("x0"), opts)
      sol = models.tmap(I, lambda l, i=[0]: nth(x, i), [d["b"]]) if isinstance(d["b"], (tuple, Ref)) else x
      return (sol, None)
    return f

  # ---------------------------------------------------------- operators ----
  def apply(self, op, v):
    """The matrix or function op applied to v."""
    I = self.I
    if not isinstance(op, T) or op.op in ("fun",):
      return I.call(op, [v], {})
    return self.mat(op, v)

  def mat(self, m, v):
    if m.op == "poly":
      res = tm.ZERO
      for mono, c in m.args[0]:
        ms = [(a, e) for a, e in mono if a.op in ("linmat", "eye", "transpose", "conj", "reshape") or (models.rank(a) or 0) > 1]
        if len(ms) != 1 or ms[0][1] != 1:
          raise Opaque("matrix expression")
        rest = tm._poly({tuple((a, e) for a, e in mono if a is not ms[0][0]): c})
        res = tm.add(res, tm.mul(rest, self.mat(ms[0][0], v)))
      return res
    if m.op == "linmat":
      return substitute(self.I, m.args[0].args[1], m.args[1], v)
    if m.op == "eye":
      return v
    if m.op == "transpose" and m.args[0].op == "linmat":
      l = m.args[0]
      return adjoint(l.args[0].args[1], l.args[1], v)
    if (models.rank(m) or 0) == 2:
      return tm.matmul(m, v)
    raise Opaque("matrix " + m.op)


def nth(x, i):
  i[0] += 1
  return mk("linsolpart", x, i[0])


def drop(o, b, others):
  """Part of a linear output that depends on b alone."""
  o = o if isinstance(o, T) else tm.num(o)
  if not occurs(o, b):
    return None
  if o is b or o.op != "poly":
    return o
  return tm._poly({m: c for m, c in o.args[0] if any(occurs(a, b) for a, _ in m)})


def leaves(I, v):
  return [v] if isinstance(v, T) and v.op != "tuple" else models.leaves_of(I, v)


def substitute(I, t, b, v):
  return tm.substitute(t, {b: v})


# --------------------------------------------------------------- the check ----
def run(c):
  c.rule("operator", "the operator handed to the underlying solver is A + ridge I (A^H A + ridge I for normal equations)")
  c.rule("rhs", "its right-hand side is b (A^H b for normal equations)")
  c.rule("method", "the underlying method solves systems of the class the solver documents")
  c.rule("guess", "the initial guess is passed as starting point only")
  c.rule("options", "remaining options reach the underlying method unchanged")
  c.rule("result", "the solution is returned in the shape of b")
  I = new_interp()
  M = Machine(I)
  try:
    for name in DIRECT + ITERATIVE:
      f = I.public_fn("jaxopt.linear_solve", "solve_" + name)
      for shape in ("scalar", "vector", "matrix", "tree"):
        if shape == "tree" and name in DIRECT or shape == "matrix" and name in ("inv", "qr"):
          continue
        for ridge in (None, 0.0, opt("ridge")):
          for init in ((False, True) if name in ITERATIVE else (False,)):
            for kw in (({}, {"tol": opt("tol"), "maxiter": opt("maxiter")}) if name in ITERATIVE else ({},)):
              one(c, I, M, f, name, shape, ridge, init, kw)
  finally:
    M.close()
  c.absorb(I)


def problem(I, shape):
  A, b = ranked("A", 2), ranked("b", 1)
  if shape == "scalar":
    a = tm.sym("sc", "a")
    b = tm.sym("sc", "b")
    models.RANK[a] = models.RANK[b] = 0
    return (lambda I, x, k: tm.mul(a, I.lift(x[0]))), b, tm.sym("sc", "x0"), tm.sym("sc", "v")
  if shape == "vector":
    return (lambda I, x, k: tm.matmul(A, I.lift(x[0]))), b, ranked("x0", 1), ranked("v", 1)
  if shape == "matrix":
    return (lambda I, x, k: tm.matmul(A, I.lift(x[0]))), ranked("b", 2), ranked("x0", 2), ranked("v", 2)
  B = ranked("B", 2)

  def mv(I, x, k):
    t = I.unpack_values(x[0], 2)
    return (tm.add(tm.matmul(A, I.lift(t[0])), tm.matmul(B, I.lift(t[1]))),
            tm.add(tm.matmul(tm.transpose(B), I.lift(t[0])), I.lift(t[1])))
  return mv, (ranked("b1", 1), ranked("b2", 1)), (ranked("x1", 1), ranked("x2", 1)), (ranked("v1", 1), ranked("v2", 1))


def one(c, I, M, f, name, shape, ridge, init, kw):
  con = f"solve_{name}[{shape},ridge={'sym' if isinstance(ridge, T) else ridge},init={init},options={sorted(kw)}]"
  mv, b, x0, v = problem(I, shape)
  mvf = PyFn("matvec", mv)
  M.systems = []
  M.prank = models.rank(b) if isinstance(b, T) else None
  M.candidates = [b] if isinstance(b, T) else []
  args = dict(kw)
  if ridge is not None:
    args["ridge"] = ridge
  if init:
    args["init"] = x0
  where = where_of(f)
  try:
    res = I.call(f, [mvf, b], args)
  except Opaque as e:
    c.unknown("operator", con, e)
    return
  except AbsRaise as e:
    if model_limit(e):
      c.unknown("operator", con, e)
    else:
      c.bad("result", con, f"raises {e.exc}", e.where)
    return
  r = 0.0 if ridge is None else ridge
  add = lambda p, q: models.tmap(I, lambda s, t: tm.add(s, tm.mul(I.lift(r), t)), [p, q])
  try:
    verify(c, I, M, con, where, name, shape, mvf, b, v, x0 if init else None, kw, res, add)
  except Opaque as e:
    c.unknown("operator", con, e)


def verify(c, I, M, con, where, name, shape, mvf, b, v, x0, kw, res, add):
  if shape == "scalar" and name in DIRECT:
    a = tm.sym("sc", "a")
    if isinstance(res, T) and not M.systems:
      c.same("result", con, tm.mul(res, I.lift(add(a, tm.ONE))), b, where=where)
      return
    if len(M.systems) != 1 or not isinstance(M.systems[0][1], T):
      raise Opaque("scalar system")
  if isinstance(res, T):
    if any(x.op == "wrongsystem" for x in tm.deps(res)):
      c.bad("operator", con, "the factors are not combined into the solution of A x = b", where)
      return
    inv = [x for x in tm.deps(res) if x.op == "inv"]
    if inv and not M.systems:
      m = inv[0].args[0]
      if same_value(res, tm.matmul(inv[0], I.lift(b)))[0] == "eq":
        res = M.like(b, M.system("general", m, b))
      elif same_value(res, tm.matmul(I.lift(b), inv[0]))[0] == "eq" or same_value(res, tm.matmul(tm.transpose(inv[0]), I.lift(b)))[0] == "eq":
        c.bad("operator", con, "the transposed system is solved", where)
        return
  if len(M.systems) != 1:
    raise Opaque(f"{len(M.systems)} recognised systems")
  kind, op, rhs, guess, opts = M.systems[0]
  # matrices of 2-D problems act on flattened vectors
  flat = False
  if shape == "matrix" and isinstance(op, T):
    sh = op.args[1] if op.op == "reshape" else None
    if op.op != "reshape" or op.args[0].op != "linmat" or not square_flat(sh, b):
      raise Opaque("flattened operator")
    op, flat = op.args[0], True
  got = M.apply(op, v)
  direct = add(I.call(mvf, [v], {}), v)
  conj = lambda t: models.tmap(I, tm.conj, [t])
  tr = lambda y: conj(I.unpack_values(I.call(M.transpose(I, [mvf, v], {}), [conj(y)], {}), 1)[0])
  normal = add(tr(I.call(mvf, [v], {})), v)
  want = normal if name == "normal_cg" else direct
  c.same("operator", con, got, want, where=where)
  wr = tr(b) if name == "normal_cg" else b
  if flat:
    wr = models.ravel(I.lift(wr))
  c.same("rhs", con, rhs, wr, where=where)
  c.expect("method", con, kind in KINDS[name], f"uses {kind}", where)
  if name in ITERATIVE and kind not in ("general", "pos"):
    if x0 is None:
      c.expect("guess", con, guess is None or zero(I, guess), f"starts from {describe(guess)}", where)
    else:
      c.same("guess", con, guess, x0, where=where)
    for k, val in kw.items():
      if k not in opts:
        c.bad("options", con, f"{k} is dropped", where)
      else:
        c.same("options", con, opts[k], val, where=where)
  x = mk("linsol", 0)
  if shape == "tree":
    want = (mk("linsolpart", x, 1), mk("linsolpart", x, 2))
    c.same("result", con, res, want, where=where)
  elif flat:
    ok = isinstance(res, T) and res.op == "reshape" and res.args[0] is x
    if not ok:
      raise Opaque("reshaped result")
    c.expect("result", con, same_shape(res.args[1], b), f"result has shape {describe(res.args[1])}", where)
  else:
    c.same("result", con, res, x, where=where)


def zero(I, g):
  return all(same_value(x, 0)[0] == "eq" for x in leaves(I, g))


def dims(sh):
  return list(sh.args) if isinstance(sh, T) and sh.op == "tuple" else None


def square_flat(sh, b):
  d = dims(sh)
  if not d or len(d) != 2:
    return False
  size = tm.mul(mk("dim", b, 0), mk("dim", b, 1))
  ok = lambda x: x is mk("size", b) or x is tm.num(-1) or same_value(x, size)[0] == "eq"
  return ok(d[0]) and ok(d[1]) and not (d[0] is tm.num(-1) and d[1] is tm.num(-1))


def same_shape(sh, b):
  dim = lambda x, i: x in (mk("dim", b, i), tm.item(mk("shape", b), tm.num(i)), mk("dim", b, i - 2))
  if sh in (mk("shape", b), mk("star", mk("shape", b))):
    return True
  d = dims(sh)
  if d and len(d) == 1 and d[0] is mk("star", mk("shape", b)):
    return True
  if d is None or len(d) != 2:
    raise Opaque("result shape")
  return bool(d) and len(d) == 2 and all(dim(x, i) or x is tm.num(-1) for i, x in enumerate(d))
