"""Models of the external vocabulary (builtins, functools, jax, numpy, ...).

Every model is a transfer function on abstract values; nothing external is
imported or run.  Names without a model become uninterpreted terms that keep
the dependence on all their arguments.
"""
import ast
from fractions import Fraction

from . import terms as tm
from .terms import T, mk

MODELS = {}


def _imports():
  from . import interp as I
  return I


def model(*names):
  def deco(f):
    for n in names:
      MODELS[n] = f
    return f
  return deco


# Rank (number of axes) of symbols, when a rule declares it.
class Declared(dict):
  """Declared ranks; every change drops what was inferred from them."""

  def __setitem__(self, k, v):
    if k not in self or self[k] != v:
      _RANK_MEMO.clear()
      dict.__setitem__(self, k, v)

  def __delitem__(self, k):
    _RANK_MEMO.clear()
    dict.__delitem__(self, k)

  def pop(self, k, *d):
    if k in self:
      _RANK_MEMO.clear()
    return dict.pop(self, k, *d)

  def update(self, *a, **k):
    _RANK_MEMO.clear()
    dict.update(self, *a, **k)


_RANK_MEMO = {}
RANK = Declared()
# Fields of solver states that hold scalars.
SCALAR_FIELDS = {"num_updates", "theta", "stepsize", "t", "error", "iter_num", "value", "gamma", "tau",
                 "velocity_scale", "sigma", "beta", "num_fun_eval", "num_grad_eval",
                 "num_jac_eval", "num_linesearch_iter", "failed_linesearch", "max_stepsize",
                 "damping_factor", "increase_factor", "rho", "low", "high", "sign",
                 "failed", "done", "loss", "momentum", "decrease_error", "curvature_error",
                 "value_init", "slope_init", "interval_found", "prev_stepsize", "prev_value_step", "prev_slope_step",
                 "value_low", "slope_low", "value_high", "slope_high", "cubic_ref", "value_cubic_ref", "safe_stepsize"}

ELEMWISE = {"abs", "sign", "exp", "log", "log1p", "expm1", "tanh", "sigmoid", "conj", "real", "imag",
            "logaddexp", "pow", "floor", "mod", "sqrt", "arctan", "isnan", "isinf", "isfinite",
            "not", "and", "or", "pos", "nonneg", "eq", "max", "min", "ite", "eqv", "floordiv",
            "sin", "cos", "erf", "softplus", "truthy"}


RESULT_RANK = Declared()      # user function -> number of axes of its result
SCALAR_RESULT = Declared()    # user function -> paths of its result that are scalars


def rank(t):
  """Number of axes, None when unknown."""
  r = _RANK_MEMO.get(t, _RANK_MEMO)
  if r is _RANK_MEMO:
    r = rank_of(t)
    _RANK_MEMO[t] = r
  return r


def rank_of(t):
  if t in RANK:
    return RANK[t]
  if t.op in ("bv", "vel"):
    return t.args[2] if len(t.args) > 2 else None
  if t.op == "vmap" and len(t.args) == 2:
    r = rank(t.args[0])
    return None if r is None else r + 1
  if t.op in ("const", "bool"):
    return 0
  if t.op == "eye" and t.args or t.op == "eyeM":
    return 2
  if t.op == "arr" and t.args:
    if all(isinstance(x, T) and x.op != "tuple" and rank(x) == 0 for x in t.args):
      return 1
    if all(isinstance(x, T) and x.op == "tuple" and x.args and all(isinstance(y, T) and rank(y) == 0 for y in x.args) for x in t.args):
      return 2
    return None
  if t.op == "grad" and len(t.args) > 1 and t.args[1].op != "tuple":
    return None if t.args[1] is tm.ZERO else rank(t.args[1])
  if t.op == "vjp" and len(t.args) == 4 and isinstance(t.args[1], tuple) and isinstance(t.args[3], int):
    i = t.args[3]
    return rank(t.args[1][i]) if 0 <= i < len(t.args[1]) and isinstance(t.args[1][i], T) else None
  if t.op in ("ext:jnp.linalg.inv", "ext:jax.numpy.linalg.inv") and len(t.args) == 1:
    return rank(t.args[0])
  if t.op in ("ext:jnp.linalg.solve", "ext:jax.numpy.linalg.solve", "ext:jax.scipy.linalg.solve",
              "ext:jax.scipy.sparse.linalg.cg", "ext:jax.scipy.linalg.solve_triangular") and len(t.args) >= 2:
    return rank(t.args[1]) if isinstance(t.args[1], T) else None
  if t.op == "poly":
    r = 0
    for m, _ in t.args[0]:
      for a, _e in m:
        x = rank(a)
        if x is None:
          return None
        r = max(r, x)
    return r
  if t.op == "sym":
    return 0 if t.args[0] in ("opt", "cnt", "sc", "boolopt") else None
  if t.op == "app" and t.args[0] in RESULT_RANK:
    return RESULT_RANK[t.args[0]]
  if t.op in ("app", "item"):
    path, u = (), t
    while u.op == "item" and isinstance(u.args[1], T) and tm.const_of(u.args[1]) is not None:
      path, u = (int(tm.const_of(u.args[1])),) + path, u.args[0]
    if u.op == "app" and path in SCALAR_RESULT.get(u.args[0], ()):
      return 0
  if t.op in ("ext:jnp.diff", "ext:jnp.pad", "ext:jnp.tril", "ext:jnp.triu", "tril", "triu") and isinstance(t.args[0], T):
    return rank(t.args[0])
  if t.op in ("argmax", "argmin") and len(t.args) == 1:
    return 0
  if t.op == "diagm":
    return 2 if rank(t.args[0]) == 1 else None
  if t.op == "concatenate" and t.args[0].op == "tuple":
    rs = [rank(x) for x in t.args[0].args]
    return max(rs, default=None) if all(r is not None for r in rs) and any(rs) else None
  if t.op in ("treesum", "dim", "size", "ndim", "count", "eps"):
    return 0
  if t.op == "arange":
    return 1
  if t.op == "reshape" and t.args[1].op == "tuple":
    return len(t.args[1].args)
  if t.op == "onehot":
    return 1 + (rank(t.args[0]) or 0)
  if t.op == "item" and t.args[0].op in ("ext:jax.lax.top_k", "ext:jax.lax.approx_max_k") and len(t.args[0].args) == 2:
    return rank(t.args[0].args[0])
  if t.op in ("softmax", "sort", "argsort", "cumsum", "at_set", "at_add", "at_mul"):
    return rank(t.args[0])
  if t.op == "sum" or t.op in ("mean", "maxr", "minr", "allr", "anyr", "prod", "logsumexp"):
    r = rank(t.args[0])
    if len(t.args) == 1:
      return 0 if r is not None else None
    if r is None:
      return None
    ax = t.args[1]
    c = tm.const_of(ax) if isinstance(ax, T) else None
    if c is not None and len(t.args) == 2:
      return r - 1
    return None
  if t.op in ELEMWISE:
    r = 0
    for a in t.args:
      if isinstance(a, T):
        x = rank(a)
        if x is None:
          return None
        r = max(r, x)
    return r
  if t.op == "matmul":
    a, b = rank(t.args[0]), rank(t.args[1])
    if a is None or b is None or a == 0 or b == 0:
      return None
    if a + b - 2 > 2:
      return None
    return a + b - 2
  if t.op == "transpose":
    return rank(t.args[0])
  if t.op == "attr" and t.args[1] in ("value", "dual_value"):
    return 1    # vector variables and multipliers of an external modelling package
  if t.op in ("ravel", "diagof"):
    return 1
  if t.op == "item" and t.args[0].op in ("while", "fori", "scan") and isinstance(t.args[1], T):
    j, inits = tm.const_of(t.args[1]), t.args[0].args[2]
    if j is not None and isinstance(inits, tuple) and j < len(inits) and isinstance(inits[int(j)], T):
      i = inits[int(j)]
      return rank(i) if tm.const_of(i) is None else carried_rank(t.args[0], int(j))
    return None
  if t.op == "item":
    r = rank(t.args[0])
    k = t.args[1]
    if r is None or not isinstance(k, T):
      return None
    if tm.const_of(k) is not None:
      return r - 1
    if k.op == "slice":
      return r
    if k.op == "tuple":
      out = r
      for x in k.args:
        if x.op == "none":
          out += 1
        elif x.op in ("slice",):
          pass
        elif x.op == "str":
          pass
        elif rank(x) == 0:
          out -= 1
        else:
          return None
      return out
    if k.op == "none":
      return r + 1
    if rank(k) == 0:
      return r - 1
    if rank(k) == 1 and r == 1:
      return 1
    return None
  if t.op in ("st", "lv", "lsf", "out") and isinstance(t.args[-1], str):
    return 0 if t.args[-1].split(".")[-1] in SCALAR_FIELDS else None
  if t.op in ("elem", "bv"):
    return RANK.get(t)
  return None


def carried_rank(loop, j):
  """Axes of a carried value that starts as a constant: what the body makes of it."""
  ns, bodies, inits = loop.args[-1], loop.args[1], loop.args[2]
  if ns.op != "names" or not isinstance(bodies, tuple) or j >= len(bodies):
    return None
  lvs = [mk("lv", ns.args[0], n) for n in ns.args[1:]]
  if len(lvs) != len(inits) or any(v in RANK for v in lvs):
    return None
  try:
    for v, i in zip(lvs, inits):
      RANK[v] = rank(i) if tm.const_of(i) is None else 0
    return rank(bodies[j])
  finally:
    for v in lvs:
      RANK.pop(v, None)


def is_global(t):
  """A scalar not tied to one leaf of a pytree (may be moved out of sums)."""
  if t.op == "sum" or t.op in ("mean", "maxr"):
    return rank(t) == 0
  return rank(t) == 0


tm.is_global = is_global
tm.is_leafscalar = lambda t: (t.op in ("sum", "mean", "maxr", "minr", "prod", "logsumexp") and len(t.args) == 1) or is_global(t)
tm.scalar_index = lambda t: rank(t) == 0 or t.op == 'mod' and rank(t.args[0]) == 0
tm.rank_of = rank
tm.is_rank1 = lambda t: rank(t) in (0, 1)


def rank1(t):
  return rank(t) == 1


def dot(a, b):
  ra, rb = rank(a), rank(b)
  if ra == 0 or rb == 0:
    return tm.mul(a, b)
  if a.op == "arr" and b.op == "arr" and rb == 1 and all(len(row_of(x)) == len(b.args) for x in (a.args if ra == 2 else (a,))):
    # product with literal entries
    rows_ = [tm.ZERO] * len(a.args) if ra == 2 else [tm.ZERO]
    for i, x in enumerate(a.args if ra == 2 else (a,)):
      for y, z in zip(row_of(x), b.args):
        rows_[i] = tm.add(rows_[i], tm.mul(y, z))
    return mk("arr", *rows_) if ra == 2 else rows_[0]
  if ra == 1 and rb == 1:
    return tm.asum(tm.mul(a, b))
  return tm.matmul(a, b)


def row_of(x):
  return x.args if x.op in ("arr", "tuple") else ()


def entry(t, k):
  """Entry k of an array, looking through scalar multiples of literal arrays."""
  c = const_int(k) if isinstance(k, T) else k
  if c is not None and c >= 0:
    if t.op == "arr" and c < len(t.args):
      return t.args[c]
    if t.op == "poly":
      out = tm.ZERO
      for m, q in t.args[0]:
        lit = [(x, e) for x, e in m if x.op == "arr"]
        if len(lit) != 1 or lit[0][1] != 1 or c >= len(lit[0][0].args) or any(rank(x) != 0 for x, e in m if x.op != "arr"):
          return tm.item(t, k)
        rest = tm._poly({tuple((x, e) for x, e in m if x.op != "arr"): q})
        out = tm.add(out, tm.mul(rest, lit[0][0].args[c]))
      return out
  return tm.item(t, k)


def vdot(a, b):
  return tm.asum(tm.mul(tm.conj(a), b))


# ------------------------------------------------------------ arithmetic ----
def arith(I, op, x, y):
  if op == "Add":
    return tm.add(x, y)
  if op == "Sub":
    return tm.sub(x, y)
  if op == "Mult":
    if tm.is_boolish(x) and tm.is_boolish(y) and not (x.op == "bool" or y.op == "bool"):
      return tm.and_(x, y)
    return tm.mul(x, y)
  if op == "Div":
    return tm.div(x, y)
  if op == "Pow":
    c = tm.const_of(y)
    if c is not None and abs(c.numerator) < 50 and c.denominator < 50:
      return tm.power(x, c)
    return mk("pow", x, y)
  if op == "MatMult":
    return dot(x, y)
  if op == "Mod":
    return tm.mod(x, y)
  if op == "FloorDiv":
    return mk("floordiv", x, y)
  if op == "BitAnd":
    return tm.and_(x, y)
  if op == "BitOr":
    return tm.or_(x, y)
  if op == "BitXor":
    return tm.not_(tm.eq(x, y))
  return mk("op" + op, x, y)


def L(I, v):
  return I.lift(v)


LEAD = {}     # leading dimensions that are known


def index(I, t, k):
  kt = I.lift(k)
  if t.op == "shape" and kt.op == "slice" and rank(t.args[0]) is not None:
    parts = [None if x.op == "none" else const_int(x) for x in kt.args]
    if all(x is not None or y.op == "none" for x, y in zip(parts, kt.args)):
      return tuple(index(I, t, i) for i in range(rank(t.args[0]))[slice(*parts)])
  if t.op == "shape":
    c = tm.const_of(kt)
    if c is not None and c.denominator == 1:
      i = int(c)
      r = rank(t.args[0])
      if i < 0 and r is not None:
        i += r
      u = t.args[0]
      while u.op in ("at_set", "at_add", "at_mul"):
        u = u.args[0]
      if u in LEAD and 0 <= i < len(LEAD[u]):
        return tm.num(LEAD[u][i])
      if i == 0 and lead(u) is not None:
        return tm.num(lead(u))
      return dim(u, i)
  if kt.op == "slice":
    s = known_slice(t, kt)
    if s is not None:
      return s
  return entry(t, kt)


def known_slice(t, kt):
  """Rows of a stacked array whose parts have known leading dimensions."""
  ps = list(t.args[0].args) if t.op == "concatenate" and t.args[0].op == "tuple" and len(t.args) == 2 and t.args[1] is tm.ZERO else [t]
  if not all(p in LEAD for p in ps):
    return None
  bounds = [None if x.op == "none" else const_int(x) for x in kt.args]
  if any(b is None and x.op != "none" for b, x in zip(bounds, kt.args)) or bounds[2] not in (None, 1):
    return None
  lo, hi, _ = slice(*bounds).indices(sum(LEAD[p][0] for p in ps))
  out, at = [], 0
  for p in ps:
    n = LEAD[p][0]
    a, b = max(lo, at), min(hi, at + n)
    if a < b:
      if (a, b) != (at, at + n):
        r = tm.item(t, kt)
        LEAD[r] = (max(hi - lo, 0),)
        return r
      out.append(p)
    at += n
  if not out:
    return None
  return out[0] if len(out) == 1 else mk("concatenate", mk("tuple", *out), tm.ZERO)


def dim(t, i):
  return mk("dim", t, i)


def size(t):
  if rank(t) == 1:
    n = lead(t)
    return dim(t, 0) if n is None else tm.num(n)
  return mk("size", t)


def lead(t):
  """Known leading dimension, else None."""
  while t.op in ("at_set", "at_add", "at_mul"):
    t = t.args[0]
  if t in LEAD:
    return LEAD[t][0]
  if t.op == "item" and isinstance(t.args[1], T) and lead(t.args[0]) is not None:
    xs = axis0(t.args[1])
    return len(xs) if xs is not None else None
  return None


def axis0(t):
  """Elements of an array along its first axis, when there is a known number of them."""
  if t.op == "stack" and all(isinstance(x, T) for x in t.args):
    return list(t.args)
  if t.op == "item" and isinstance(t.args[1], T) and lead(t.args[0]) is not None:
    xs = axis0(t.args[1])
    return None if xs is None else [tm.item(t.args[0], x) for x in xs]
  n = lead(t)
  if n is not None:
    return [tm.item(t, tm.num(i)) for i in range(n)]
  rs = [x for x in tm.deps(t) if x.op == "arange"]
  if len(rs) == 1:
    cs = [const_int(x) for x in rs[0].args]
    if all(c is not None for c in cs) and len(cs) <= 3 and rows(t, rs[0]):
      return [tm.substitute(t, {rs[0]: tm.num(i)}) for i in range(*cs)]
  return None


# ------------------------------------------------------------ attributes ----
def ext_attr(I, o, name):
  full = o.name + "." + name
  if full in EXT_CONSTS:
    return EXT_CONSTS[full]
  if name in ("__name__", "__doc__", "__module__"):
    return o.name.split(".")[-1]
  return I.ext(full)


EXT_CONSTS = {
    "jax.numpy.inf": tm.INF, "numpy.inf": tm.INF, "math.inf": tm.INF,
    "jax.numpy.nan": tm.NAN, "numpy.nan": tm.NAN, "jax.numpy.pi": tm.PI, "numpy.pi": tm.PI,
    "jax.numpy.newaxis": None, "numpy.newaxis": None, "math.pi": tm.PI,
}


def rec_attr(I, o, name):
  M = _imports()
  if name == "_replace":
    def f(I, a, k):
      for x in k:
        if x not in o.vals:
          raise M.AbsRaise(f"ValueError _replace unexpected field {x}", I.where())
      d = dict(o.vals)
      d.update(k)
      return M.Rec(o.cls, d)
    return M.PyFn("_replace", f)
  if name == "_asdict":
    return M.PyFn("_asdict", lambda I, a, k: I.newdict(o.vals))
  if name == "_fields":
    return tuple(o.vals)
  if name == "__class__":
    return o.cls
  if name in ("count", "index"):
    return M.AbsRaise
  return M.AbsRaise


def fn_attr(I, o, name):
  M = _imports()
  if isinstance(o, M.Bound):
    if name == "__self__":
      return o.selfv
    if name == "__func__":
      return o.fn
    return fn_attr(I, o.fn, name) if isinstance(o.fn, (M.Closure, M.PyFn)) else M.AbsRaise
  if name in o.attrs:
    return o.attrs[name]
  if name in ("__name__", "__qualname__"):
    return getattr(o, "name", "fn")
  if name == "__doc__":
    return "doc"
  if name in ("defjvp", "defvjp", "defjvps"):
    def f(I, a, k):
      o.attrs["rule:" + name] = a
      I.event("defrule", (o, name, a))
      return a[0] if a else None
    return M.PyFn(name, f)
  if isinstance(o, M.Partial):
    if name == "func":
      return o.fn
    if name == "args":
      return tuple(o.args)
    if name == "keywords":
      return I.newdict(o.kwargs)
  if isinstance(o, M.PyFn) and isinstance(o.base, (M.Closure, M.PyFn)):
    return fn_attr(I, o.base, name)
  if name in ("__wrapped__",):
    return M.AbsRaise
  return M.AbsRaise


def value_attr(I, o, name):
  M = _imports()
  if isinstance(o, T):
    return term_attr(I, o, name)
  if isinstance(o, str):
    def f(I, a, k):
      if all(isinstance(x, (str, int)) for x in a) and not k:
        r = getattr(o, name)(*a)
        return I.newlist(r) if isinstance(r, list) else r
      if name == "join" and a:
        xs = I.iterate(a[0])
        if xs is not None and all(isinstance(x, str) for x in xs):
          return o.join(xs)
      if name == "format":
        return o
      return mk("strmeth", o, name, *[I.lift(x) for x in a])
    return M.PyFn("str." + name, f) if hasattr(str, name) else M.AbsRaise
  if isinstance(o, M.Ref) and o.kind == "dict":
    return dict_attr(I, o, name)
  if isinstance(o, M.Ref) and o.kind == "list":
    return list_attr(I, o, name)
  if isinstance(o, (bool, int, float, complex)):
    if name == "real":
      return o.real
    if name == "imag":
      return o.imag
    if name in ("conjugate", "conj"):
      return M.PyFn(name, lambda I, a, k: o)
    if name == "dtype":
      return mk("dtype", I.lift(o))
    if name == "shape":
      return M.AbsRaise
    if name == "is_integer":
      return M.PyFn(name, lambda I, a, k: float(o).is_integer())
    return M.AbsRaise
  if isinstance(o, tuple):
    if name == "index":
      def f(I, a, k):
        for i, x in enumerate(o):
          if I.same(x, a[0]):
            return i
        return mk("tupleindex", I.lift(o), I.lift(a[0]))
      return M.PyFn("index", f)
    if name in ("count", "__len__"):
      return M.PyFn(name, lambda I, a, k: mk("tuple." + name, I.lift(o)))
    return M.AbsRaise
  if isinstance(o, slice):
    return getattr(o, name, M.AbsRaise)
  return M.AbsRaise


def dict_attr(I, o, name):
  M = _imports()
  p = I.heap[o.id]

  def get(I, a, k):
    key = a[0]
    p = I.heap[o.id]
    d = a[1] if len(a) > 1 else k.get("default")
    if isinstance(key, (str, int)):
      if key in p:
        return p[key]
      if "**" in p:
        return mk("dictget", I.lift(p["**"]), str(key), I.lift(d))
      return d
    return mk("dictget", I.lift(o), I.lift(key), I.lift(d))

  def pop(I, a, k):
    I.effect_store(o, "pop")
    p = I.heap[o.id]
    if isinstance(a[0], (str, int)):
      if a[0] in p:
        return p.pop(a[0])
      if len(a) > 1:
        return a[1]
      raise M.AbsRaise("KeyError " + str(a[0]), I.where())
    return mk("dictpop", I.lift(o), I.lift(a[0]))

  def update(I, a, k):
    I.effect_store(o, "update")
    p = I.heap[o.id]
    for x in a:
      if isinstance(x, M.Ref) and x.kind == "dict":
        p.update(I.heap[x.id])
      else:
        p["**"] = I.lift(x)
    p.update(k)

  def setdefault(I, a, k):
    I.effect_store(o, "setdefault")
    p = I.heap[o.id]
    if a[0] not in p:
      p[a[0]] = a[1] if len(a) > 1 else None
    return p[a[0]]

  fns = {
      "items": lambda I, a, k: I.newlist(list(I.heap[o.id].items())),
      "keys": lambda I, a, k: I.newlist(list(I.heap[o.id])),
      "values": lambda I, a, k: I.newlist(list(I.heap[o.id].values())),
      "get": get, "pop": pop, "update": update, "setdefault": setdefault,
      "copy": lambda I, a, k: I.newdict(I.heap[o.id]),
      "clear": lambda I, a, k: (I.effect_store(o, "clear"), I.heap[o.id].clear())[1],
  }
  if name in fns:
    return M.PyFn("dict." + name, fns[name])
  return M.AbsRaise


def list_attr(I, o, name):
  M = _imports()

  def mut(f):
    def g(I, a, k):
      I.effect_store(o, name)
      return f(I.heap[o.id], *a)
    return g

  def drop(p, x):
    for i, y in enumerate(p):
      if x is y or x is None and y is M.NONE_T or x is M.NONE_T and y is None:
        del p[i]
        return
      if isinstance(x, (str, int)) and isinstance(y, (str, int)):
        if x == y:
          del p[i]
          return
      elif x is not None and x is not M.NONE_T:
        return    # the first equal element is not known

  fns = {
      "append": mut(lambda p, x: p.append(x)),
      "extend": mut(lambda p, x: p.extend(I.iterate(x) or [mk("star", I.lift(x))])),
      "insert": mut(lambda p, i, x: p.insert(i, x) if isinstance(i, int) else p.append(x)),
      "pop": mut(lambda p, i=-1: p.pop(i) if isinstance(i, int) and p else mk("poplist")),
      "reverse": mut(lambda p: p.reverse()),
      "sort": mut(lambda p: None),
      "remove": mut(drop),
      "clear": mut(lambda p: p.clear()),
      "copy": lambda I, a, k: I.newlist(I.heap[o.id]),
      "index": lambda I, a, k: mk("listindex", I.lift(o), I.lift(a[0])),
      "count": lambda I, a, k: mk("listcount", I.lift(o), I.lift(a[0])),
  }
  if name in fns:
    return M.PyFn("list." + name, fns[name])
  return M.AbsRaise


REDUCE_METHODS = {"sum", "mean", "max", "min", "prod", "all", "any", "argmax", "argmin",
                  "std", "var", "cumsum", "dot", "ravel", "flatten", "reshape", "transpose",
                  "conj", "conjugate", "squeeze", "round", "take", "sort", "argsort", "clip",
                  "swapaxes", "repeat", "diagonal", "trace"}


def term_attr(I, o, name):
  M = _imports()
  if o is M.NONE_T:
    return M.AbsRaise
  if o.op == "rec":
    pass
  if name == "shape":
    return mk("shape", o)
  if name == "ndim":
    r = rank(o)
    return r if r is not None else mk("ndim", o)
  if name == "size":
    return size(o)
  if name == "dtype":
    return mk("dtype", o)
  if o.op == "finfo" and name in ("eps", "tiny", "smallest_normal", "resolution"):
    return mk("eps", name)
  if o.op in STATIC_OPS_EXTRA:
    if name == "unflatten":
      return M.PyFn("unflatten", lambda I, a, k: td_unflatten(I, o, a[0]))
    if name == "num_leaves":
      return td_leaves(o) if o.op in STRUCT_TD else nleaves(o.args)
  if name == "T":
    if rank(o) is not None and rank(o) <= 1:
      return o
    return tm.transpose(o)
  if name == "real":
    return tm.real(o)
  if name == "imag":
    return tm.imag(o)
  if name == "at":
    return mk("at", o)
  if o.op == "item" and o.args[0].op == "at":
    base, idx = o.args[0].args[0], o.args[1]
    if name in ("set", "add", "multiply", "mul", "subtract", "min", "max", "get", "apply", "divide"):
      def f(I, a, k):
        if name == "set":
          return tm.at_set(base, idx, I.lift(a[0]))
        if name in ("multiply", "mul"):
          return mk("at_mul", base, idx, I.lift(a[0]))
        return mk("at_" + name, base, idx, *[I.lift(x) for x in a])
      return M.PyFn("at." + name, f)
  if name in ("astype", "copy", "block_until_ready", "view"):
    return M.PyFn(name, lambda I, a, k: o)
  if name in ("item", "tolist"):
    def f(I, a, k):
      I.event("pyconv", (name, o))
      return o
    return M.PyFn(name, f)
  if name in REDUCE_METHODS and o.op not in ("app",) or (name in REDUCE_METHODS and o.op == "app"):
    return M.PyFn(name, lambda I, a, k: call_ext(I, "jax.numpy." + name, [o] + list(a), k, None, None))
  if o.op == "dict":
    if name in ("items", "keys", "values", "get"):
      d = I.newdict({kv.args[0]: kv.args[1] for kv in o.args})
      return dict_attr(I, d, name)
  if name in ("items", "keys", "values") :
    return M.PyFn(name, lambda I, a, k: mk(name, o))
  if name == "get":
    return M.PyFn(name, lambda I, a, k: mk("dictget", o, I.lift(a[0]), I.lift(a[1] if len(a) > 1 else None)))
  if o.op == "ite":
    return I.merge(o.args[0], I.getattr(o.args[1], name), I.getattr(o.args[2], name))
  if o.op == "leaves" or o.op == "sym" and o.args[0] == "fn" and name != "__name__":
    return M.AbsRaise
  return mk("attr", o, name)


# ------------------------------------------------------------ calls ---------
def call_ext(I, name, args, kwargs, node, fr):
  M = _imports()
  if name.startswith("numpy.") or name.startswith("scipy."):
    if any(has_array(I, a) for a in args) or any(has_array(I, a) for a in kwargs.values()):
      I.event("hostnumpy", (name, tuple(I.lift(a) for a in args)), node)
  f = MODELS.get(name)
  if f is None and name.startswith("numpy."):
    f = MODELS.get("jax." + name)
  if f is None and name.startswith("jax.lax."):
    f = MODELS.get("jax.numpy." + name[8:]) if name[8:] in LAX_SAME else None
  if f is None and name.startswith("math."):
    f = MODELS.get("jax.numpy." + name[5:])
  if f is None and name.startswith("builtins."):
    short = name[9:]
    if short.endswith(("Error", "Exception", "Warning")):
      return mk("exc", short)
  if f is not None:
    return f(I, list(args), dict(kwargs))
  return generic(I, name, args, kwargs)


LAX_SAME = {"max", "min", "select", "abs", "exp", "log", "sqrt", "square", "sign", "add", "sub", "mul",
            "div", "neg", "log1p", "expm1", "tanh", "floor", "pow", "dot"}


def has_array(I, v):
  """Does the value contain a runtime array term (not purely static)?"""
  M = _imports()
  if isinstance(v, T):
    return not static_term(v)
  if isinstance(v, tuple):
    return any(has_array(I, x) for x in v)
  if isinstance(v, M.Ref) and v.kind in ("list", "dict"):
    p = I.heap[v.id]
    return any(has_array(I, x) for x in (p if v.kind == "list" else p.values()))
  return False


STATIC_OPS = {"shape", "dim", "ndim", "size", "dtype", "isinstance", "callable", "isnone", "nleaves",
              "treedef", "str", "ext", "cls", "none", "bool", "const", "type", "hasattr", "signature",
              "finfo", "eps", "arange", "fun", "obj", "lam", "nparams", "raised", "strmeth", "iscomplexobj", "isscalar"}
STATIC_OPS |= {"tdrec", "tdtuple", "tdlist", "tddict", "tdnone", "tdof", "tdleaf"}
_ST = {}


def static_term(t):
  """True when the term depends on arrays only through structure/shape/dtype."""
  r = _ST.get(t)
  if r is not None:
    return r
  if t.op in STATIC_OPS:
    r = True
  elif t.op == "sym":
    r = t.args[0] in ("opt", "boolopt", "fn", "static", "solver")
  elif t.op in ("app", "grad", "st", "lv", "bv", "elem", "vjp", "jvp", "while", "scan", "lsf", "out"):
    r = False
    if t.op == "app" and t.args[0].op in ("attr", "ext", "sym"):
      r = all(static_term(x) for x in tm.children(t)) and t.args[0].op != "sym"
  else:
    r = all(static_term(x) for x in tm.children(t))
  _ST[t] = r
  return r


def generic(I, name, args, kwargs):
  la = [I.lift(a) for a in args]
  la += [mk("kw", k, I.lift(v)) for k, v in sorted(kwargs.items())]
  short = name.replace("jax.numpy.", "jnp.").replace("numpy.", "jnp.") if name.startswith(("jax.numpy.", "numpy.")) else name
  I.unknown_ext[short] = I.unknown_ext.get(short, 0) + 1
  return mk("ext:" + short, *la)


# ------------------------------------------------------------ builtins ------
def const_int(v):
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, int):
    return v
  if isinstance(v, T):
    c = tm.const_of(v)
    if c is not None and c.denominator == 1:
      return int(c)
  return None


@model("builtins.isinstance")
def m_isinstance(I, a, k):
  M = _imports()
  v, ts = a
  if isinstance(ts, tuple):
    res = False
    for t in ts:
      r = m_isinstance(I, [v, t], {})
      if r is True:
        return True
      if r is not False:
        res = r if res is False else tm.or_(I.lift(res), r)
    return res
  if isinstance(v, M.PhiV):
    return I.merge(v.c, m_isinstance(I, [v.a, ts], {}), m_isinstance(I, [v.b, ts], {}))
  if isinstance(ts, M.ClassInfo):
    if isinstance(v, M.Ref) and v.kind == "obj":
      return v.cls.subclass_of(ts)
    if isinstance(v, M.Rec):
      return v.cls.subclass_of(ts)
    return False
  n = ts.name if isinstance(ts, M.Ext) else None
  if n is None:
    return mk("isinstance", I.lift(v), I.lift(ts))
  n = n.split(".")[-1]
  if n == "Tracer":
    # while tracing (I.tracing) every symbolic array is a tracer; otherwise calls are eager
    return bool(getattr(I, "tracing", False)) and isinstance(v, T)
  py = {"bool": bool, "int": int, "float": float, "str": str, "complex": complex}
  if M.concrete(v):
    if v is None:
      return n == "NoneType"
    if n in py:
      return isinstance(v, py[n])
    if n in ("Number",):
      return not isinstance(v, str)
    return False
  if isinstance(v, tuple):
    return n in ("tuple", "Sequence", "Iterable")
  if isinstance(v, M.Rec):
    return n == "tuple"
  if isinstance(v, M.Ref):
    if v.kind == "list":
      return n in ("list", "Sequence", "Iterable")
    if v.kind == "dict":
      return n in ("dict", "Mapping")
    if v.kind == "obj" and v.cls.qual.startswith("spec."):   # stand-in for an external class
      return v.cls.named(n)
    return False
  if isinstance(v, M.PyFn) and v.name == "signature":
    return n == "Signature"
  if isinstance(v, (M.Closure, M.Bound, M.PyFn, M.Partial)):
    return n in ("Callable", "FunctionType") or (n == "partial" and isinstance(v, M.Partial))
  if isinstance(v, T):
    if v is M.NONE_T:
      return False
    if v.op == "ite":
      return I.merge(v.args[0], m_isinstance(I, [v.args[1], ts], {}), m_isinstance(I, [v.args[2], ts], {}))
    if v.op == "str":
      return n == "str"
    if v.op == "tuple":
      return n == "tuple"
    if v.op == "sym" and v.args[0] == "fn":
      return n in ("Callable",)
    if v.op == "sym" and v.args[0] in ("opt", "boolopt", "static"):
      if v.args[0] == "boolopt":
        return n == "bool"
      if n in ("str", "bool", "tuple", "list", "dict", "ndarray", "Array"):
        return False
      if n in ("float", "int"):
        return True
      return mk("isinstance", v, mk("str", n))
    if n in ("ndarray", "Array", "Tracer"):
      return tm.const_of(v) is None or mk("isinstance", v, mk("str", "ndarray"))
    if n in ("str", "bool", "list", "tuple", "dict", "type", "NoneType", "Callable", "partial"):
      return False
    return mk("isinstance", v, mk("str", n))
  return mk("isinstance", I.lift(v), mk("str", n))


@model("builtins.issubclass")
def m_issub(I, a, k):
  M = _imports()
  if isinstance(a[0], M.ClassInfo) and isinstance(a[1], M.ClassInfo):
    return a[0].subclass_of(a[1])
  return mk("issubclass", I.lift(a[0]), I.lift(a[1]))


@model("builtins.callable")
def m_callable(I, a, k):
  M = _imports()
  v = a[0]
  if isinstance(v, M.PhiV):
    return I.merge(v.c, m_callable(I, [v.a], {}), m_callable(I, [v.b], {}))
  if isinstance(v, (M.Closure, M.Bound, M.PyFn, M.Partial, M.Ext, M.ClassInfo)):
    return True
  if isinstance(v, M.Ref) and v.kind == "obj":
    return v.cls.lookup("__call__")[1] is not None
  if isinstance(v, T):
    if v.op == "sym":
      return v.args[0] == "fn"
    if v.op in ("lam", "fun", "meth", "partial"):
      return True
    return False
  return False


@model("builtins.getattr")
def m_getattr(I, a, k):
  M = _imports()
  if not isinstance(a[1], str):
    return mk("getattr", *[I.lift(x) for x in a])
  return I.getattr(a[0], a[1], a[2] if len(a) > 2 else M.AbsRaise)


@model("builtins.hasattr")
def m_hasattr(I, a, k):
  M = _imports()
  v, n = a
  if isinstance(v, T) and v is not M.NONE_T:
    if v.op == "sym" and v.args[0] == "fn":
      return False
    if n in ("shape", "dtype", "ndim") and not (v.op == "sym" and v.args[0] in ("opt", "static")):
      return True
    return mk("hasattr", v, n)
  if isinstance(v, M.PhiV):
    return I.merge(v.c, m_hasattr(I, [v.a, n], {}), m_hasattr(I, [v.b, n], {}))
  s = object()
  return I._getattr(v, n) is not M.AbsRaise


@model("builtins.setattr", "object.__setattr__")
def m_setattr(I, a, k):
  I.setattr(a[0], a[1], a[2])


LEAFWISE = {"poly", "mean", "sumr", "abs", "exp", "log", "sqrt", "ravel", "real", "imag", "maxr", "minr", "conj", "max", "min", "sign"}


def nleaves(ls):
  """Number of leaves; leafwise operations keep the structure of their argument."""
  out = []
  for l in ls:
    if isinstance(l, T) and l.op in LEAFWISE:
      inner = {x for x in tm.deps(l) | {l} if x.op not in LEAFWISE}
      trees = [x for x in inner if rank(x) is None and tm.const_of(x) is None]
      if len(inner) == len(trees) == 1:
        l = trees[0]
    out.append(l)
  return mk("nleaves", *out)


@model("builtins.len")
def m_len(I, a, k):
  M = _imports()
  v = a[0]
  if isinstance(v, str):
    return len(v)
  xs = I.iterate(v)
  if xs is not None:
    return len(xs)
  t = I.lift(v)
  if v is None or isinstance(v, (bool, int, float)):
    raise M.AbsRaise("TypeError len()", I.where())
  if t.op == "leaves":
    return nleaves(t.args)
  if t.op == "shape":
    r = rank(t.args[0])
    return r if r is not None else mk("ndim", t.args[0])
  n = lead(t)
  return n if n is not None else dim(t, 0)


@model("builtins.sum")
def m_sum(I, a, k):
  M = _imports()
  v = a[0]
  start = a[1] if len(a) > 1 else k.get("start", 0)
  xs = I.iterate(v)
  if xs is not None:
    r = start
    for x in xs:
      r = I.binop(ast.Add(), r, x)
    return r
  t = I.lift(v)
  if t.op == "leaves":
    r = I.lift(start)
    for x in t.args:
      r = tm.add(r, leafsum(x))
    return r
  return tm.add(mk("pysum", t), I.lift(start))


@model("builtins.zip")
def m_zip(I, a, k):
  xs = [I.iterate(x) for x in a]
  if all(x is not None for x in xs):
    return I.newlist([tuple(z) for z in zip(*xs)])
  ts = [I.lift(x) for x in a]
  n = next((len(x) for x in xs if x is not None), None)
  if n is not None:
    return I.newlist([tuple(x[i] if x is not None else tm.item(t, tm.num(i)) for x, t in zip(xs, ts)) for i in range(n)])
  return mk("zip", *ts)


@model("builtins.range")
def m_range(I, a, k):
  xs = [const_int(x) for x in a]
  if all(x is not None for x in xs):
    return range(*xs)
  I.event("pyrange", tuple(I.lift(x) for x in a))
  return mk("range", *[I.lift(x) for x in a])


@model("builtins.enumerate")
def m_enumerate(I, a, k):
  xs = I.iterate(a[0])
  if xs is not None:
    s = a[1] if len(a) > 1 else k.get("start", 0)
    return I.newlist([(i + s, x) for i, x in enumerate(xs)])
  return mk("enumerate", I.lift(a[0]))


@model("builtins.tuple")
def m_tuple(I, a, k):
  if not a:
    return ()
  xs = I.iterate(a[0])
  return tuple(xs) if xs is not None else I.lift(a[0])


@model("builtins.list")
def m_list(I, a, k):
  if not a:
    return I.newlist([])
  xs = I.iterate(a[0])
  return I.newlist(xs) if xs is not None else I.lift(a[0])


@model("builtins.dict")
def m_dict(I, a, k):
  M = _imports()
  d = {}
  if a:
    v = a[0]
    if isinstance(v, M.Ref) and v.kind == "dict":
      d.update(I.heap[v.id])
    else:
      xs = I.iterate(v)
      if xs is not None and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], (str, int)) for x in xs):
        d.update(dict(xs))
      else:
        d["**"] = I.lift(v)
  d.update(k)
  return I.newdict(d)


@model("builtins.set", "builtins.frozenset")
def m_set(I, a, k):
  if not a:
    return mk("set")
  xs = I.iterate(a[0])
  if xs is not None:
    return mk("set", *sorted({I.lift(x) for x in xs}, key=tm.skey))
  return mk("setof", I.lift(a[0]))


@model("builtins.bool")
def m_bool(I, a, k):
  v = a[0] if a else False
  c = I.cond_term(v)
  c = I.decide(c)
  if c is tm.TRUE:
    return True
  if c is tm.FALSE:
    return False
  I.event("pyconv", ("bool", I.lift(v)))
  return c


@model("builtins.int", "builtins.float")
def m_int(I, a, k):
  v = a[0] if a else 0
  if isinstance(v, (bool, int, float)):
    return v
  if isinstance(v, str):
    try:
      return float(v)
    except ValueError:
      return tm.num(float("nan"))
  I.event("pyconv", ("num", I.lift(v)))
  return I.lift(v)


@model("builtins.complex")
def m_complex(I, a, k):
  return mk("complex", *[I.lift(x) for x in a])


@model("builtins.str", "builtins.repr", "builtins.format")
def m_str(I, a, k):
  if a and isinstance(a[0], (str, int, float, bool, type(None))):
    return str(a[0])
  return mk("strof", *[I.lift(x) for x in a])


@model("builtins.abs")
def m_pyabs(I, a, k):
  if isinstance(a[0], (int, float)):
    return abs(a[0])
  return tm.absolute(I.lift(a[0]))


@model("builtins.max", "builtins.min")
def m_pymax(I, a, k):
  raise NotImplementedError


def _pyminmax(which):
  def f(I, a, k):
    xs = a
    if len(a) == 1:
      xs = I.iterate(a[0])
      if xs is None:
        return mk("py" + which, I.lift(a[0]))
    if all(isinstance(x, (bool, int, float)) for x in xs):
      return (max if which == "max" else min)(xs)
    ts = [I.lift(x) for x in xs]
    r = ts[0]
    for t in ts[1:]:
      r = tm.maximum(r, t) if which == "max" else tm.minimum(r, t)
    if tm.const_of(r) is None:
      I.event("pybranch", mk("py" + which, *ts))
    return r
  return f


MODELS["builtins.max"] = _pyminmax("max")
MODELS["builtins.min"] = _pyminmax("min")


def _pyallany(which):
  def f(I, a, k):
    xs = I.iterate(a[0])
    if xs is None:
      return mk("py" + which, I.lift(a[0]))
    r = tm.boolt(which == "all")
    for x in xs:
      c = I.decide(I.cond_term(x))
      r = tm.and_(r, c) if which == "all" else tm.or_(r, c)
    if r is tm.TRUE:
      return True
    if r is tm.FALSE:
      return False
    I.event("pybranch", r)
    return r
  return f


MODELS["builtins.all"] = _pyallany("all")
MODELS["builtins.any"] = _pyallany("any")


@model("builtins.print", "warnings.warn", "jax.debug.print", "jax.debug.callback")
def m_print(I, a, k):
  I.event("print", tuple(I.lift(x) for x in a))
  return None


@model("builtins.map")
def m_map(I, a, k):
  xs = [I.iterate(x) for x in a[1:]]
  if all(x is not None for x in xs):
    return I.newlist([I.call(a[0], list(z), {}) for z in zip(*xs)])
  ts = [I.lift(x) for x in a[1:]]
  I.lamdepth += 1
  els = [mk("elem", t, I.lamdepth) for t in ts]
  body = I.lift(I.call(a[0], els, {}))
  I.lamdepth -= 1
  return mk("comp", ts[0] if len(ts) == 1 else mk("zip", *ts), body, ())


@model("builtins.reversed")
def m_reversed(I, a, k):
  xs = I.iterate(a[0])
  if xs is not None:
    return I.newlist(list(reversed(xs)))
  return mk("reversed", I.lift(a[0]))


@model("builtins.sorted")
def m_sorted(I, a, k):
  xs = I.iterate(a[0])
  if xs is not None and not k and all(isinstance(x, str) for x in xs):
    return I.newlist(sorted(xs))
  return mk("sorted", I.lift(a[0]))


@model("builtins.iter")
def m_iter(I, a, k):
  M = _imports()
  if isinstance(a[0], M.Ref) and a[0].kind == "list":
    return I.new("iter", list(I.payload(a[0])))
  if isinstance(a[0], tuple):
    return I.new("iter", list(a[0]))
  return a[0]


@model("builtins.next")
def m_next(I, a, k):
  M = _imports()
  if isinstance(a[0], M.Ref) and a[0].kind == "iter":
    q = I.payload(a[0])
    I.event("exactnext", len(q))
    if q:
      x, I.heap[a[0].id] = q[0], q[1:]
      return x
    if len(a) > 1:
      return a[1]
    raise M.AbsRaise("StopIteration", I.where())
  t = I.lift(a[0])
  n = I.iter_count.get(t, 0)
  I.iter_count[t] = n + 1
  I.event("next", t)
  return mk("next", t, n)


@model("builtins.type")
def m_type(I, a, k):
  M = _imports()
  v = a[0]
  if isinstance(v, (M.Ref, M.Rec)) and v.cls is not None if isinstance(v, M.Ref) else isinstance(v, M.Rec):
    return v.cls
  n = None
  if isinstance(v, (bool, int, float, str, tuple, complex)):
    n = type(v).__name__
  elif isinstance(v, M.Ref) and v.kind in ("list", "dict"):
    n = v.kind
  elif isinstance(v, T) and v.op == "sym" and v.args[0] == "opt":
    n = "float"
  elif isinstance(v, T) and v.op == "tuple":
    n = "tuple"
  if n:
    return I.ext("builtins." + n)
  return mk("type", I.lift(v))


@model("builtins.id", "builtins.hash")
def m_id(I, a, k):
  return mk("id", I.lift(a[0]))


@model("builtins.round", "builtins.divmod", "builtins.pow")
def m_pyround(I, a, k):
  if len(a) == 2 and tm.const_of(I.lift(a[1])) is not None:
    return arith(I, "Pow", I.lift(a[0]), I.lift(a[1]))
  return mk("round", *[I.lift(x) for x in a])


@model("builtins.slice")
def m_slice(I, a, k):
  if len(a) == 1:
    return slice(a[0])
  return slice(*a)


@model("builtins.vars")
def m_vars(I, a, k):
  M = _imports()
  if isinstance(a[0], M.Ref):
    return I.newdict(I.heap[a[0].id])
  return mk("vars", I.lift(a[0]))


# operator module
_OPS = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "pow": ast.Pow, "mod": ast.Mod,
        "matmul": ast.MatMult, "and_": ast.BitAnd, "or_": ast.BitOr, "floordiv": ast.FloorDiv}
for _n, _c in _OPS.items():
  MODELS["operator." + _n] = (lambda c: lambda I, a, k: I.binop(c(), a[0], a[1]))(_c)
for _n, _c in {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}.items():
  MODELS["operator." + _n] = (lambda c: lambda I, a, k: I.compare(c(), a[0], a[1]))(_c)
MODELS["operator.neg"] = lambda I, a, k: tm.neg(I.lift(a[0]))
MODELS["operator.not_"] = lambda I, a, k: I.lift(tm.not_(I.cond_term(a[0])))
MODELS["operator.itemgetter"] = lambda I, a, k: _imports().PyFn("itemgetter", lambda I, b, kk: I.getitem(b[0], a[0]))
MODELS["operator.attrgetter"] = lambda I, a, k: _imports().PyFn("attrgetter", lambda I, b, kk: I.getattr(b[0], a[0]))


# functools / dataclasses / itertools / misc
@model("functools.partial", "jax.tree_util.Partial")
def m_partial(I, a, k):
  M = _imports()
  return M.Partial(a[0], a[1:], k)


@model("functools.reduce")
def m_reduce(I, a, k):
  xs = I.iterate(a[1])
  if xs is None:
    t = I.lift(a[1])
    if t.op == "leaves":
      return tree_reduce(I, [a[0], t] + a[2:], k)
    return mk("reduce", I.lift_fn2(a[0]), t, *[I.lift(x) for x in a[2:]])
  xs = list(xs)
  acc = a[2] if len(a) > 2 else xs.pop(0)
  for x in xs:
    acc = I.call(a[0], [acc, x], {})
  return acc


def _ident_deco(I, a, k):
  M = _imports()
  if a and isinstance(a[0], (M.Closure, M.PyFn, M.Partial, M.Bound, M.Ref, M.PhiV)) or (a and isinstance(a[0], T) and a[0].op == "sym" and a[0].args[0] == "fn"):
    return a[0]
  if a and isinstance(a[0], T):
    return a[0]
  return M.PyFn("deco", lambda I, b, kk: b[0])


for _n in ("functools.lru_cache", "functools.cache", "jax.jit", "jax.named_call", "jax.checkpoint",
           "jax.remat", "jax.named_scope", "jax.jit.static", "dataclasses.dataclass", "abc.abstractmethod",
           "typing.overload", "jax.tree_util.register_pytree_node_class", "typing.cast_"):
  MODELS[_n] = _ident_deco
MODELS["functools.wraps"] = lambda I, a, k: _imports().PyFn("wraps", lambda I, b, kk: b[0])
MODELS["functools.update_wrapper"] = lambda I, a, k: a[0]
MODELS["typing.cast"] = lambda I, a, k: a[1]
MODELS["typing.TypeVar"] = lambda I, a, k: mk("str", "TypeVar")


@model("dataclasses.fields")
def m_fields(I, a, k):
  M = _imports()
  c = a[0].cls if isinstance(a[0], M.Ref) else a[0]
  if not isinstance(c, M.ClassInfo):
    return mk("fields", I.lift(a[0]))
  env = FieldObj(I)
  return tuple(env.make(n) for n, _, _ in c.fields())


class FieldObj:
  def __init__(self, I):
    self.I = I

  def make(self, n):
    M = _imports()
    r = self.I.new("dict", {"name": n})
    return M.PyFn("field", lambda I, a, k: None, None, name=n)


@model("dataclasses.field")
def m_field(I, a, k):
  if "default" in k:
    return k["default"]
  if "default_factory" in k:
    return I.call(k["default_factory"], [], {})
  return None


@model("dataclasses.replace")
def m_dcreplace(I, a, k):
  M = _imports()
  o = a[0]
  if isinstance(o, M.Ref) and o.kind == "obj":
    vals = {n: I.heap[o.id].get(n) for n, _, _ in o.cls.fields()}
    vals.update(k)
    return I.instantiate(o.cls, [], vals)
  return mk("replace", I.lift(o), *[mk("kw", n, I.lift(v)) for n, v in sorted(k.items())])


@model("dataclasses.asdict")
def m_asdict(I, a, k):
  M = _imports()
  o = a[0]
  if isinstance(o, M.Ref) and o.kind == "obj":
    return I.newdict(I.heap[o.id])
  return mk("asdict", I.lift(o))


@model("itertools.islice")
def m_islice(I, a, k):
  M = _imports()
  if isinstance(a[0], M.Ref) and a[0].kind == "iter":
    ks = [None if (x is None or x is M.NONE_T) else const_int(x) for x in a[1:]]
    if not any(v is None and not (x is None or x is M.NONE_T) for v, x in zip(ks, a[1:])):
      q = I.payload(a[0])
      sl = slice(*ks)
      out = q[sl]
      stop = sl.stop
      I.heap[a[0].id] = q[stop:] if stop is not None else []
      return I.new("iter", out)
  return mk("islice", *[I.lift(x) for x in a])


@model("itertools.repeat")
def m_repeat(I, a, k):
  n = const_int(a[1]) if len(a) > 1 else const_int(k["times"]) if "times" in k else None
  if n is not None:
    return I.newlist([a[0]] * n)
  return mk("repeat", *[I.lift(x) for x in a])


@model("itertools.chain")
def m_chain(I, a, k):
  xs = [I.iterate(x) for x in a]
  if all(x is not None for x in xs):
    return I.newlist([y for x in xs for y in x])
  return mk("chain", *[I.lift(x) for x in a])


@model("copy.copy", "copy.deepcopy")
def m_copy(I, a, k):
  M = _imports()
  v = a[0]
  if isinstance(v, M.Ref):
    p = I.heap[v.id]
    return I.new(v.kind, p.copy() if isinstance(p, (dict, list)) else p, v.cls, v.label)
  return v


# ------------------------------------------------------------ pytrees -------
def is_struct(I, v):
  M = _imports()
  return isinstance(v, (tuple, M.Rec)) or (isinstance(v, M.Ref) and v.kind in ("list", "dict")) or \
      (isinstance(v, T) and v.op == "tuple")


def tmap(I, f, trees, is_leaf=None):
  M = _imports()
  if not trees:
    raise _imports().AbsRaise("TypeError tree_map() missing 1 required positional argument: 'tree'", I.where())
  t0 = trees[0]
  if is_leaf is not None:
    c = I.decide(I.cond_term(I.call(is_leaf, [t0], {})))
    if c is tm.TRUE:
      return f(*trees)
  if t0 is None or t0 is M.NONE_T:
    return None
  if isinstance(t0, T) and t0.op == "tuple":
    t0 = tuple(t0.args)
  rest = trees[1:]
  if isinstance(t0, M.PhiV):
    return I.merge(t0.c, tmap(I, f, [t0.a] + list(rest), is_leaf), tmap(I, f, [t0.b] + list(rest), is_leaf))

  def proj(x, keys, get):
    return [get(x, k_) for k_ in keys]

  if isinstance(t0, M.Rec):
    out = {}
    for i, (kk, v) in enumerate(t0.vals.items()):
      rs = [_sub(I, r, kk, i) for r in rest]
      out[kk] = tmap(I, f, [v] + rs, is_leaf)
    return M.Rec(t0.cls, out)
  if isinstance(t0, tuple):
    return tuple(tmap(I, f, [v] + [_sub(I, r, i, i) for r in rest], is_leaf) for i, v in enumerate(t0))
  if isinstance(t0, M.Ref) and t0.kind == "list":
    return I.newlist([tmap(I, f, [v] + [_sub(I, r, i, i) for r in rest], is_leaf) for i, v in enumerate(I.heap[t0.id])])
  if isinstance(t0, M.Ref) and t0.kind == "dict":
    return I.newdict({kk: tmap(I, f, [v] + [_sub(I, r, kk, kk) for r in rest], is_leaf) for kk, v in I.heap[t0.id].items()})
  if isinstance(t0, T) and t0.op == "ite" and False:
    pass
  return f(t0, *rest)


def _sub(I, r, key, i):
  M = _imports()
  if isinstance(r, M.Rec):
    if key in r.vals:
      return r.vals[key]
    vs = list(r.vals.values())
    if isinstance(key, int) and key < len(vs):
      return vs[key]
    raise M.AbsRaise("ValueError pytree structure mismatch", I.where())
  if isinstance(r, tuple):
    if isinstance(i, int) and i < len(r):
      return r[i]
    raise M.AbsRaise("ValueError pytree structure mismatch", I.where())
  if isinstance(r, M.Ref) and r.kind == "list":
    p = I.heap[r.id]
    if isinstance(i, int) and i < len(p):
      return p[i]
    raise M.AbsRaise("ValueError pytree structure mismatch", I.where())
  if isinstance(r, M.Ref) and r.kind == "dict":
    p = I.heap[r.id]
    if key in p:
      return p[key]
    raise M.AbsRaise("ValueError pytree structure mismatch", I.where())
  if isinstance(r, T):
    return tm.item(r, I.lift(i))
  return r


@model("jax.tree_util.tree_map")
def tree_map(I, a, k):
  f = a[0] if a else k["f"]
  trees = a[1:]
  is_leaf = k.get("is_leaf")
  return tmap(I, lambda *xs: I.call(f, list(xs), {}), list(trees), is_leaf)


def leaves_of(I, v):
  M = _imports()
  out = []

  def go(x):
    if x is None or x is M.NONE_T:
      return
    if isinstance(x, (tuple, M.Rec)) or (isinstance(x, M.Ref) and x.kind in ("list",)):
      for y in I.iterate(x):
        go(y)
    elif isinstance(x, M.Ref) and x.kind == "dict":
      p = I.heap[x.id]
      for kk in sorted(p, key=str):
        go(p[kk])
    elif isinstance(x, T) and x.op == "tuple":
      for y in x.args:
        go(y)
    else:
      out.append(I.lift(x))
  go(v)
  return out


def leafsum(x):
  """Sum of the leaves of an unknown subtree (itself when known to be one array)."""
  if rank(x) is not None and tm.const_of(x) is None:
    return x
  return tm.treesum(x)


@model("jax.tree_util.tree_leaves")
def tree_leaves(I, a, k):
  td = treedef(I, a[0])
  if td.op == "tdleaf":
    return I.newlist(raw_leaves(I, a[0]))
  return mk("leaves", *leaves_of(I, a[0]))


@model("jax.tree_util.tree_reduce")
def tree_reduce(I, a, k):
  M = _imports()
  f = a[0]
  t = a[1]
  ls = list(t.args) if isinstance(t, T) and t.op == "leaves" else leaves_of(I, t)
  x, y = mk("bv", 90, 0), mk("bv", 90, 1)
  r = I.lift(I.call(f, [x, y], {}))
  init = a[2] if len(a) > 2 else k.get("initializer")
  if r is tm.add(x, y):
    tot = I.lift(init) if init is not None else tm.ZERO
    for l in ls:
      tot = tm.add(tot, leafsum(l))
    return tot
  if init is None and len(ls) == 1 and isinstance(ls[0], T) and rank(ls[0]):
    return ls[0]
  if ls and all(isinstance(l, T) and (rank(l) is not None or l.op == "allr" or tm.is_boolish(l)) for l in ls):
    # every leaf is one array
    out = init
    for l in ls:
      out = l if out is None else I.call(f, [out, l], {})
    return out
  return mk("treereduce", mk("lam", 2, r), *ls, *([I.lift(init)] if init is not None else []))


def raw_leaves(I, v):
  M = _imports()
  out = []

  def go(x):
    if x is None or x is M.NONE_T:
      return
    if isinstance(x, (tuple, M.Rec)) or (isinstance(x, M.Ref) and x.kind == "list"):
      for y in I.iterate(x):
        go(y)
    elif isinstance(x, M.Ref) and x.kind == "dict":
      p = I.heap[x.id]
      for kk in sorted(p, key=str):
        go(p[kk])
    elif isinstance(x, T) and x.op == "tuple":
      for y in x.args:
        go(y)
    else:
      out.append(x)
  go(v)
  return out


def treedef(I, v):
  """Structure of a value as a term with leaf markers."""
  M = _imports()
  if v is None or v is M.NONE_T:
    return mk("tdnone")
  if isinstance(v, M.Rec):
    return mk("tdrec", v.cls.name, *[treedef(I, x) for x in v.vals.values()])
  if isinstance(v, tuple):
    return mk("tdtuple", *[treedef(I, x) for x in v])
  if isinstance(v, T) and v.op == "tuple":
    return mk("tdtuple", *[treedef(I, x) for x in v.args])
  if isinstance(v, M.Ref) and v.kind == "list":
    return mk("tdlist", *[treedef(I, x) for x in I.heap[v.id]])
  if isinstance(v, M.Ref) and v.kind == "dict":
    p = I.heap[v.id]
    return mk("tddict", *[mk("kv", str(kk), treedef(I, p[kk])) for kk in sorted(p, key=str)])
  if isinstance(v, T) and v.op == "unflatten":
    return v.args[0]
  if isinstance(v, T) and rank(v) is None:
    return mk("tdof", v)
  return mk("tdleaf")


STRUCT_TD = ("tdrec", "tdtuple", "tdlist", "tddict", "tdnone")
STATIC_OPS_EXTRA = STRUCT_TD + ("tdof", "tdleaf")


def unflatten(I, td, leaves):
  M = _imports()
  it = iter(leaves)

  def go(t):
    if t.op == "tdnone":
      return None
    if t.op == "tdtuple":
      return tuple(go(x) for x in t.args)
    if t.op == "tdlist":
      return I.newlist([go(x) for x in t.args])
    if t.op == "tddict":
      return I.newdict({kv.args[0]: go(kv.args[1]) for kv in t.args})
    if t.op == "tdrec":
      return tuple(go(x) for x in t.args[1:])
    return next(it)
  try:
    return go(td)
  except StopIteration:
    raise M.AbsRaise("ValueError too few leaves for treedef", I.where())


def td_leaves(t):
  if t.op == "tdnone":
    return 0
  if t.op in STRUCT_TD:
    return sum(td_leaves(x) for x in tm.children(t))
  if t.op == "kv":
    return td_leaves(t.args[1])
  return 1


@model("jax.tree_util.tree_flatten")
def tree_flatten(I, a, k):
  td = treedef(I, a[0])
  if td.op in STRUCT_TD or td.op == "tdleaf":
    return (I.newlist(raw_leaves(I, a[0])), td)
  return (mk("leaves", *leaves_of(I, a[0])), td)


@model("jax.tree_util.tree_unflatten")
def tree_unflatten(I, a, k):
  td = I.lift(a[0])
  return td_unflatten(I, td, a[1])


def td_unflatten(I, td, ls):
  xs = I.iterate(ls)
  if td.op in STRUCT_TD:
    if xs is None:
      t = I.lift(ls)
      xs = [tm.item(t, tm.num(i)) for i in range(td_leaves(td))]
    return unflatten(I, td, xs)
  if xs is not None and len(xs) == 1 and td.op == "tdleaf":
    return xs[0]
  return mk("unflatten", td, I.lift(ls))


@model("jax.tree_util.tree_structure")
def tree_structure(I, a, k):
  return treedef(I, a[0])


@model("jax.tree_util.treedef_is_leaf")
def treedef_is_leaf(I, a, k):
  return I.lift(a[0]).op not in STRUCT_TD


# ------------------------------------------------------------ transforms ----
def getargs(I, params, a, k, defaults=None):
  """Binds positional/keyword arguments of an external call."""
  out = dict(defaults or {})
  for p, v in zip(params, a):
    out[p] = v
  for p, v in k.items():
    out[p] = v
  return out


def argnums_of(I, v):
  if v is None:
    return 0
  if isinstance(v, tuple):
    return tuple(const_int(x) for x in v)
  return const_int(v)


def value_part(I, out, has_aux):
  if not has_aux:
    return out, None
  xs = I.unpack_values(out, 2)
  return xs[0], xs[1]


def grad_term(I, f, args, kwargs, argnum, has_aux):
  """grad of f w.r.t. args[argnum] at args, as a term."""
  M = _imports()
  nums = argnum if isinstance(argnum, tuple) else (argnum,)
  res = []
  for n in nums:
    # partial derivative: the other arguments stay at the given point
    def body(bvs, n=n):
      aa = list(args)
      var.append(bvs[0])
      aa[n] = shape_as(I, args[n], bvs[0]) if n is not None and n < len(args) else bvs[0]
      v, _ = value_part(I, I.call(f, aa, kwargs), has_aux)
      return v
    at = args[n] if n is not None and n < len(args) else None
    var = []
    # a constant (zeros_like) does not say how many axes it has
    r = rank(at) if isinstance(at, T) and at.op != "const" and tm.const_of(at) is None else None
    b = I.lam(1, body, ranks=[r])
    lin, b = linear_part(b, var[0]) if isinstance(at, T) and var else (None, b)
    g = grad_shape(I, mk("lam", 1, b), [args[n]], None, args[n]) if lin is None or b is not tm.ZERO else tm.ZERO
    res.append(g if lin is None else tm.add(lin, g))
  if isinstance(argnum, tuple):
    return tuple(res)
  return res[0]


LINEAR_RULES = False    # differentiate linear terms and matrix products explicitly


def linear_part(body, x):
  """(gradient of the terms sum(c * x) with c free of x, or None; the remaining terms)."""
  if not LINEAR_RULES or not isinstance(body, T) or body.op != "poly":
    return None, body
  lin, rest = None, {}
  for m, c in body.args[0]:
    k = None
    if len([1 for a, _ in m if x in tm.deps(a)]) == 1:
      (a, e), = [(a, e) for a, e in m if x in tm.deps(a)]
      u = a
      if u.op == "treesum" and len(u.args) == 1 and len(x.args) > 2 and isinstance(u.args[0], T):
        u = u.args[0]     # x is one array
      if e == 1 and u.op == "sum" and len(u.args) == 1 and len(tm.as_poly(u.args[0])) == 1:
        (m2, c2), = tm.as_poly(u.args[0]).items()
        dep = [(b, f) for b, f in m2 if x in tm.deps(b)]
        if len(dep) == 1 and dep[0] == (x, 1) and len(m2) > 1:
          k = tm._poly({tuple((b, f) for b, f in m2 if b is not x): c * c2})
          for b, f in m:
            if b is not a:
              k = tm.mul(k, tm._poly({((b, f),): 1}))
    if k is None:
      rest[m] = c
    else:
      lin = k if lin is None else tm.add(lin, k)
  return lin, (body if lin is None else tm._poly(rest))


def grad_shape(I, L_, pts, i, p):
  ptt = tuple(I.lift(x) for x in pts)
  c, L_ = lam_coef(L_)
  base = mk("grad", L_, *ptt) if i is None else mk("gradi", L_, i, *ptt)
  r = project_like(I, p, base)
  return r if c == 1 else tmap(I, lambda x: tm.scale(c, I.lift(x)), [r])


def lam_coef(L_):
  """(c, f) such that the function L_ is c * f for a numeric constant c."""
  if L_.op == "lam" and isinstance(L_.args[-1], T) and not tm.is_boolish(L_.args[-1]) and len(tm.as_poly(L_.args[-1])) == 1:
    c, r = tm.pull(L_.args[-1])
    if c != 1 and r is not tm.ONE and c != 0:
      return c, mk("lam", *L_.args[:-1], r)
  return 1, L_


def project_like(I, p, t):
  """Give term t the container structure of value p."""
  M = _imports()
  if isinstance(p, tuple):
    return tuple(project_like(I, x, tm.item(t, tm.num(j))) for j, x in enumerate(p))
  if isinstance(p, M.Rec):
    return M.Rec(p.cls, {kk: project_like(I, x, tm.item(t, tm.num(j))) for j, (kk, x) in enumerate(p.vals.items())})
  if isinstance(p, M.Ref) and p.kind == "list":
    return I.newlist([project_like(I, x, tm.item(t, tm.num(j))) for j, x in enumerate(I.heap[p.id])])
  if isinstance(p, M.Ref) and p.kind == "dict":
    return I.newdict({kk: project_like(I, x, tm.item(t, mk("str", str(kk)))) for kk, x in I.heap[p.id].items()})
  if p is None:
    return None
  return t


shape_as = lambda I, p, b: project_like(I, p, b)


def _grad_model(kind):
  def f(I, a, k):
    M = _imports()
    d = getargs(I, ["fun", "argnums", "has_aux"], a, k)
    fun = d["fun"]
    argn = argnums_of(I, d.get("argnums", 0))
    ha = d.get("has_aux", False)
    hc = I.decide(I.cond_term(ha))

    def g(I, args, kw):
      def run(has_aux):
        cnt = len(I.events)
        out = None
        if kind == "value_and_grad" or has_aux:
          I.in_grad += 1
          try:
            out = I.call(fun, args, kw)
          finally:
            I.in_grad -= 1
        gr = grad_term(I, fun, args, kw, argn, has_aux)
        I.event("gradcall", (kind, gr if isinstance(gr, T) else I.lift(gr)))
        if kind == "value_and_grad":
          if out is None and not has_aux:
            raise M.AbsRaise("TypeError grad of None", I.where())
          if not has_aux and isinstance(out, (tuple, M.Rec)):
            raise M.AbsRaise("TypeError gradient of tuple-valued function", I.where())
          return (out, gr)
        if has_aux:
          v, aux = value_part(I, out, True)
          return (gr, aux)
        return gr
      if hc is tm.TRUE:
        return run(True)
      if hc is tm.FALSE:
        return run(False)
      return I.merge(hc, run(True), run(False))
    return M.PyFn(kind, g, fun if not isinstance(fun, T) else None)
  return f


MODELS["jax.grad"] = _grad_model("grad")
MODELS["jax.value_and_grad"] = _grad_model("value_and_grad")


def _jac_model(kind):
  def f(I, a, k):
    M = _imports()
    d = getargs(I, ["fun", "argnums", "has_aux"], a, k)
    fun = d["fun"]
    argn = argnums_of(I, d.get("argnums", 0))
    ha = I.decide(I.cond_term(d.get("has_aux", False))) is tm.TRUE

    def g(I, args, kw):
      nums = argn if isinstance(argn, tuple) else (argn,)
      ts = []
      for n in nums:
        def body(bvs, n=n):
          aa = list(args)
          aa[n] = shape_as(I, args[n], bvs[0])
          return value_part(I, I.call(fun, aa, kw), ha)[0]
        ts.append(mk("jac", mk("lam", 1, I.lam(1, body)), 0, I.lift(args[n])))
      ts = tuple(ts)
      I.event("jaccall", (kind, ts[0]))
      r = ts if isinstance(argn, tuple) else ts[0]
      if ha:
        I.in_grad += 1
        out = I.call(fun, args, kw)
        I.in_grad -= 1
        return (r, value_part(I, out, True)[1])
      return r
    return M.PyFn(kind, g)
  return f


for _n in ("jacfwd", "jacrev", "jacobian"):
  MODELS["jax." + _n] = _jac_model(_n)
MODELS["jax.hessian"] = lambda I, a, k: call_ext(I, "jax.jacfwd", [call_ext(I, "jax.jacrev", a, k, None, None)], {}, None, None)


@model("jax.jvp")
def m_jvp(I, a, k):
  M = _imports()
  d = getargs(I, ["fun", "primals", "tangents", "has_aux"], a, k)
  fun = d["fun"]
  ps = I.unpack_values(d["primals"], None) or I.iterate(d["primals"])
  ts = I.iterate(d["tangents"])
  ha = I.decide(I.cond_term(d.get("has_aux", False))) is tm.TRUE
  if ps is None or ts is None:
    return generic(I, "jax.jvp", a, k)
  I.in_grad += 1
  out = I.call(fun, list(ps), {})
  I.in_grad -= 1
  v, aux = value_part(I, out, ha)
  # total derivative: sum of the partial ones, other arguments fixed
  r = None
  tot = []
  for n, tg in enumerate(ts):
    def body(bvs, n=n):
      aa = list(ps)
      aa[n] = shape_as(I, ps[n], bvs[0])
      return value_part(I, I.call(fun, aa, {}), ha)[0]
    tl = I.lift(tg)
    if const_int(tl) == 0 if isinstance(tl, T) and tm.const_of(tl) is not None else False:
      continue
    L_ = mk("lam", 1, I.lam(1, body))
    t = mk("jvp", L_, (I.lift(ps[n]),), (tl,))
    tot.append(t)
    x = project_like(I, v, t)
    r = x if r is None else tmap(I, tm.add, [r, x])
  if r is None:
    r = tmap(I, lambda x: tm.num(0), [v])
  I.event("jvpcall", mk("tuple", *tot))
  return (v, r, aux) if ha else (v, r)


@model("jax.vjp")
def m_vjp(I, a, k):
  M = _imports()
  fun, ps = a[0], a[1:]
  ha = I.decide(I.cond_term(k.get("has_aux", False))) is tm.TRUE
  I.in_grad += 1
  out = I.call(fun, list(ps), {})
  I.in_grad -= 1
  v, aux = value_part(I, out, ha)

  var = []

  def body(bvs):
    var.extend(bvs[:1])
    aa = [shape_as(I, p, b) for p, b in zip(ps, bvs)]
    return value_part(I, I.call(fun, aa, {}), ha)[0]
  L_ = mk("lam", len(ps), I.lam(len(ps), body))
  lps = tuple(I.lift(p) for p in ps)

  def pull(I, b, kk):
    ct = I.lift(b[0])
    I.event("vjpcall", (L_, ct))
    if len(ps) == 1:
      if LINEAR_RULES and isinstance(ps[0], T) and rank(ps[0]) == 1:
        r = transposed_product(L_.args[-1], var[0], ct)
        if r is not None:
          return (r,)
      return (project_like(I, ps[0], mk("vjp", L_, lps, ct, 0)),)
    out = []
    for n, p in enumerate(ps):
      def one(bvs, n=n):
        aa = list(ps)
        aa[n] = shape_as(I, ps[n], bvs[0])
        return value_part(I, I.call(fun, aa, {}), ha)[0]
      ln = mk("lam", 1, I.lam(1, one))
      out.append(project_like(I, p, mk("vjp", ln, (lps[n],), ct, 0)))
    return tuple(out)
  I.event("vjpbuild", (L_, lps))
  pf = M.PyFn("vjp_fun", pull)
  return (v, pf, aux) if ha else (v, pf)


def transposed_product(body, x, ct):
  """The pull-back of ct through a sum of matrix products K @ x (and terms free of x), else None."""
  if not isinstance(body, T):
    return None
  out = tm.ZERO
  for m, c in tm.as_poly(body).items():
    dep = [(a, e) for a, e in m if x in tm.deps(a)]
    if not dep:
      continue
    if len(dep) != 1 or dep[0][1] != 1 or any(rank(a) != 0 for a, _ in m if a is not dep[0][0]):
      return None
    a = dep[0][0]
    if a.op != "matmul" or a.args[1] is not x or rank(a.args[0]) != 2 or x in tm.deps(a.args[0]):
      return None
    k = tm._poly({tuple((b, e) for b, e in m if b is not a): c})
    out = tm.add(out, tm.mul(k, tm.matmul(tm.transpose(a.args[0]), ct)))
  return out


@model("jax.linearize")
def m_linearize(I, a, k):
  M = _imports()
  fun, ps = a[0], a[1:]
  v = I.call(fun, list(ps), {})

  def lin(I, b, kk):
    return m_jvp(I, [fun, tuple(ps), tuple(b)], {})[1]
  return (v, M.PyFn("lin_fun", lin))


@model("jax.linear_transpose")
def m_lintrans(I, a, k):
  M = _imports()
  fun, ps = a[0], a[1:]

  def body(bvs):
    return I.call(fun, [shape_as(I, p, b) for p, b in zip(ps, bvs)], {})
  L_ = mk("lam", len(ps), I.lam(len(ps), body))

  def pull(I, b, kk):
    ct = I.lift(b[0])
    return tuple(project_like(I, p, mk("lintrans", L_, ct, i)) for i, p in enumerate(ps))
  return M.PyFn("transpose_fun", pull)


@model("jax.vmap", "jax.pmap")
def m_vmap(I, a, k):
  M = _imports()
  d = getargs(I, ["fun", "in_axes", "out_axes"], a, k)
  fun = d["fun"]
  in_axes = d.get("in_axes", 0)
  out_axes = d.get("out_axes", 0)

  def g(I, args, kw):
    axes = list(in_axes) if isinstance(in_axes, tuple) else [in_axes] * len(args)
    if isinstance(in_axes, M.Ref):
      axes = I.iterate(in_axes)
    I.lamdepth += 1
    lvl = I.lamdepth
    try:
      els = []
      mapped = []
      for x, ax in zip(args, axes):
        if ax is None:
          els.append(x)
        else:
          t = I.lift(x)
          r = rank(t)
          b = mk("vel", lvl, len(mapped)) if not r else mk("vel", lvl, len(mapped), r - 1)
          mapped.append(mk("ax", t, I.lift(ax)) if not (isinstance(ax, int) and ax == 0) else t)
          els.append(shape_as(I, x, b) if is_struct(I, x) else b)
      for kk, v in kw.items():
        pass
      kwm = {}
      for kk, v in sorted(kw.items()):
        t = I.lift(v)
        b = mk("vel", lvl, len(mapped))
        mapped.append(t)
        kwm[kk] = b
      out = I.call(fun, els, kwm)
    finally:
      I.lamdepth -= 1
    mt = tuple(mapped)
    oa = I.lift(out_axes)

    def wrap(x):
      t = I.lift(x)
      c = 1
      if not tm.is_boolish(t) and t.op != "none" and len(tm.as_poly(t)) == 1:
        c, r = tm.pull(t)
        t = r if c not in (0, 1) and r is not tm.ONE else t
        c = c if c != 0 and t is r else 1
      return tm.scale(c, wrap1(t)) if c != 1 else wrap1(t)

    def wrap1(t):
      if out_axes == 0 or not isinstance(out_axes, int):
        return mk("vmap", t, mt)
      return mk("vmap", t, mt, oa)
    return tmap(I, wrap, [out])
  return M.PyFn("vmap", g)


@model("jax.custom_jvp", "jax.custom_vjp")
def m_custom(I, a, k):
  M = _imports()
  if not a:
    return M.PyFn("custom_deco", lambda I, b, kk: m_custom(I, b, k))
  p = M.PyFn("custom", None, a[0])
  p.attrs["nondiff_argnums"] = k.get("nondiff_argnums", a[1] if len(a) > 1 else ())
  return p


@model("jax.lax.stop_gradient")
def m_stopgrad(I, a, k):
  return a[0]


@model("jax.lax.cond")
def m_cond(I, a, k):
  M = _imports()
  pred, f1, f2 = a[0], a[1], a[2]
  ops = a[3:]
  if "operand" in k:
    ops = [k["operand"]]
  if not callable_value(I, f1) or (len(a) == 5 and callable_value(I, a[2]) is False):
    # legacy form cond(pred, x1, f1, x2, f2)
    if len(a) == 5:
      pred, x1, f1, x2, f2 = a
      c = I.decide(I.cond_term(pred))
      return I.call(M.PhiV(c, M.PyFn("t", lambda I, b, kk: I.call(f1, [x1], {})),
                           M.PyFn("f", lambda I, b, kk: I.call(f2, [x2], {}))), [], {})
  c = I.decide(I.cond_term(pred))
  I.event("laxcond", c)
  if c is tm.TRUE:
    return I.call(f1, ops, {})
  if c is tm.FALSE:
    return I.call(f2, ops, {})
  n = len(I.path)
  res = []
  hs = []
  st0 = I.snap_heap()
  for f, val in ((f1, True), (f2, False)):
    I.heap = {kk: (v.copy() if isinstance(v, (dict, list)) else v) for kk, v in st0.items()}
    I.path.append((c, val))
    try:
      res.append(I.call(f, list(ops), {}))
    finally:
      del I.path[n:]
    hs.append(I.heap)
  I.merge_heaps(c, hs[0], hs[1])
  I.event("condresult", (res[0], res[1]))
  return I.merge(c, res[0], res[1])


def callable_value(I, v):
  r = m_callable(I, [v], {})
  return r is True


@model("jax.lax.switch")
def m_switch(I, a, k):
  idx = I.lift(a[0])
  fs = I.iterate(a[1])
  if fs is None:
    return generic(I, "jax.lax.switch", a, k)
  outs = [I.call(f, a[2:], {}) for f in fs]
  r = outs[-1]
  for i in range(len(outs) - 2, -1, -1):
    c = tm.le(idx, tm.num(i)) if i == 0 else tm.le(idx, tm.num(i))
    r = I.merge(c, outs[i], r)
  return r


def loop_result(I, init, gen, cond_t, body, kind, extra=()):
  """Loop exit value: invariant leaves keep their initial value.

  Every other leaf is an item of a loop that carries only the leaves it depends
  on, so that the grouping and order of carried values does not matter.
  """
  inits, names, bodies = [], [], []

  def collect(i, b, p):
    inits.append(I.lift(i))
    bodies.append(I.lift(b))
    names.append(leafname(p))
    return None
  I.generalize_like(init, body, collect, ())
  lvl = I.lamdepth + 1
  L = LoopTerms(I, kind, lvl, cond_t, bodies, inits, names, extra)
  cnt = [0]

  def out(i, b, p):
    j = cnt[0]
    cnt[0] += 1
    bt = bodies[j]
    if bt.op == "lv" and bt.args == (lvl, names[j]):
      return i
    return L.out(j)
  r = I.generalize_like(init, body, out, ())
  I.last_loop = L
  return r


class LoopTerms:
  def __init__(self, I, kind, lvl, cond, bodies, inits, names, extra):
    self.kind, self.lvl, self.extra = kind, lvl, extra
    self.cond, self.bodies, self.inits, self.names = cond, bodies, inits, names
    self.given = bodies
    ts = [cond] + bodies
    sub = {}
    for n, b, i in zip(names, bodies, inits):
      if b.op == "lv" and b.args == (lvl, n):
        sub[b] = i
    # a closed loop of the same level inside would capture the variables
    self.whole = I.plain_loops or any(x.op == "names" and x.args[0] == lvl for t in ts for x in tm.deps(t))
    if not self.whole and sub:
      self.cond = tm.substitute(cond, sub)
      self.bodies = [tm.substitute(b, sub) for b in bodies]
    self.index = {n: j for j, n in enumerate(names)}
    self.memo, self.readmemo = {}, {}
    self.small = sum(len(tm.deps(t)) for t in ts) <= 600

  def used(self, t):
    """Carried leaves a term reads, in a canonical order."""
    return [self.index[x.args[1]] for x in sorted((x for x in tm.deps(t) if x.op == "lv" and x.args[0] == self.lvl
                                                   and x.args[1] in self.index), key=lambda x: self.index[x.args[1]])]

  def out(self, j):
    if self.whole:
      W = mk(self.kind, self.cond, tuple(self.bodies), tuple(self.inits), *self.extra, mk("names", self.lvl, *self.names))
      return mk("item", W, tm.num(j))
    W, order, _ = self.sliced([], [j])
    return mk("item", W, tm.num(order.index(j)))

  def reads(self, j):
    if j not in self.readmemo:
      self.readmemo[j] = frozenset(self.used(self.bodies[j]))
    return self.readmemo[j]

  def sliced(self, roots, order):
    """(loop carrying what `roots` and the test read, carried leaves, `roots` in its names)."""
    todo = list(order) + [j for t in roots + [self.cond] for j in self.used(t)]
    need = set()
    while todo:
      j = todo.pop()
      if j not in need:
        need.add(j)
        todo += self.reads(j)
    if len(need) <= 6 and self.small:     # canonical order and names
      k = 0
      for t in list(roots) + [self.cond]:
        order = order + [j for j in self.walk(t) if j not in order]
      while k < len(order):
        order = order + [j for j in self.walk(self.bodies[order[k]]) if j not in order]
        k += 1
      new = [".%d%s" % (i, self.kept(j)) for i, j in enumerate(order)]
      ren = {mk("lv", self.lvl, self.names[j]): mk("lv", self.lvl, n) for n, j in zip(new, order)}
    else:
      order = sorted(need)
      new = [self.names[j] for j in order]
      ren = {}
    tmp = {k: mk("lv~", self.lvl, v.args[1]) for k, v in ren.items() if k is not v}
    back = {v: ren[k] for k, v in tmp.items()}
    r = lambda t: tm.substitute(tm.substitute(t, tmp), back) if tmp else t
    key = tuple(order)
    W = self.memo.get(key)
    if W is None:
      W = self.memo[key] = mk(self.kind, r(self.cond), tuple(r(self.bodies[j]) for j in order),
                              tuple(self.inits[j] for j in order), *self.extra, mk("names", self.lvl, *new))
    return W, order, [r(t) for t in roots]

  def kept(self, j):
    """The part of a leaf's name that says it is a scalar counter or flag."""
    n = self.names[j].split(".")[-1]
    return "." + n if n in SCALAR_FIELDS else ""

  def walk(self, t):
    """Carried leaves in order of their first occurrence, up to commutation."""
    out, seen = [], set()
    stack = [t]
    mine = {}
    while stack:
      x = stack.pop()
      if x in seen:
        continue
      seen.add(x)
      if x.op == "lv" and x.args[0] == self.lvl and x.args[1] in self.index:
        out.append(self.index[x.args[1]])
        continue
      ks = [c for c in tm.children(x) if any(y.op == "lv" and y.args[0] == self.lvl for y in tm.deps(c))]
      if x.op in ("poly", "max", "min", "and", "or", "eq"):
        ks = sorted(ks, key=lambda c: self.shape(c))
      stack.extend(reversed(ks))
    return out

  def shape(self, t):
    """Ordering key blind to the names of the carried leaves, then by position."""
    m = {x: mk("lv", self.lvl, "?") for x in tm.deps(t) if x.op == "lv" and x.args[0] == self.lvl}
    return (tm.skey(tm.substitute(t, m)), min(self.index.get(x.args[1], 0) for x in m))


def leafname(p):
  return "".join("." + str(x) for x in p)


def fresh_level(I):
  I.lamdepth += 1
  return I.lamdepth


def while_exact(I, cond_fun, body_fun, init, limit):
  """Unrolled loop when the test is decided False within `limit` rounds, else None."""
  n, np_ = len(I.events), len(I.path)
  vals, conds = [init], []
  try:
    for _ in range(limit):
      c = I.decide(I.cond_term(I.call(cond_fun, [vals[-1]], {})))
      if c is tm.FALSE:
        out = vals[-1]
        for c, v in zip(reversed(conds), reversed(vals[:-1])):
          out = I.merge(c, out, v)
        return (out,)
      conds.append(c)
      I.path.append((c, True))
      vals.append(I.call(body_fun, [vals[-1]], {}))
  finally:
    del I.path[np_:]
  del I.events[n:]
  return None


def while_bounded(I, cond_fun, body_fun, init, n):
  """At most n rounds of a bounded loop, exactly."""
  np_ = len(I.path)
  vals, conds = [init], []
  try:
    for _ in range(n):
      c = I.decide(I.cond_term(I.call(cond_fun, [vals[-1]], {})))
      if c is tm.FALSE:
        break
      conds.append(c)
      I.path.append((c, True))
      vals.append(I.call(body_fun, [vals[-1]], {}))
  finally:
    del I.path[np_:]
  out = vals[-1]
  for c, v in zip(reversed(conds), reversed(vals[:-1])):
    out = I.merge(c, out, v)
  return out


def while_prim(I, cond_fun, body_fun, init, maxiter=None):
  if I.unroll_loops and maxiter is not None:
    n = const_int(maxiter)
    if n is not None and n <= I.unroll_loops:
      return while_bounded(I, cond_fun, body_fun, init, n)
  if I.unroll_loops:
    r = while_exact(I, cond_fun, body_fun, init, I.unroll_loops)
    if r is not None:
      return r[0]
  lvl = fresh_level(I)
  try:
    gen = I.generalize(init, ("lv", lvl))
    c = I.cond_term(I.call(cond_fun, [gen], {}))
    I.path.append((c, True))
    try:
      b = I.call(body_fun, [gen], {})
    finally:
      I.path.pop()
  finally:
    I.lamdepth -= 1
  I.event("loop", (init, gen, c, b, maxiter))
  extra = () if maxiter is None else (I.lift(maxiter),)
  return loop_result(I, init, gen, I.lift(c), b, "while", extra)


@model("jax.lax.while_loop")
def m_while(I, a, k):
  d = getargs(I, ["cond_fun", "body_fun", "init_val"], a, k)
  return while_prim(I, d["cond_fun"], d["body_fun"], d["init_val"])


@model("jax.lax.fori_loop")
def m_fori(I, a, k):
  d = getargs(I, ["lower", "upper", "body_fun", "init_val"], a, k)
  if I.unroll_loops:
    lo, hi = const_int(d["lower"]), const_int(d["upper"])
    if lo is not None and hi is not None and hi - lo <= I.unroll_loops:
      v = d["init_val"]
      for i in range(lo, hi):
        v = I.call(d["body_fun"], [tm.num(i), v], {})
      return v
  lvl = fresh_level(I)
  try:
    gen = I.generalize(d["init_val"], ("lv", lvl))
    idx = mk("idx", lvl)
    RANK[idx] = 0
    b = I.call(d["body_fun"], [idx, gen], {})
  finally:
    I.lamdepth -= 1
  I.event("fori", (d["lower"], d["upper"], d["init_val"], gen, b))
  return loop_result(I, d["init_val"], gen, tm.TRUE, b, "fori", (I.lift(d["lower"]), I.lift(d["upper"])))


def scan_elements(I, xs, n):
  """Elements of a scanned pytree of known length, else None."""
  if isinstance(xs, tuple):
    parts = [scan_elements(I, x, n) for x in xs]
    if any(p is None for p in parts) or len({len(p) for p in parts}) != 1:
      return None
    return list(zip(*parts))
  t = I.lift(xs)
  if t.op == "tuple":
    return scan_elements(I, tuple(t.args), n)
  return axis0(t)


def rows(t, r):
  """Is t an elementwise function of the vector r and of scalars?"""
  if t is r or rank(t) == 0 and r not in tm.deps(t):
    return True
  if t.op == "poly":
    return all(rows(a, r) for m, _ in t.args[0] for a, _e in m)
  if t.op in ELEMWISE or t.op in ("mod", "floordiv"):
    return all(rows(x, r) for x in t.args if isinstance(x, T))
  return False


@model("jax.lax.scan")
def m_scan(I, a, k):
  M = _imports()
  d = getargs(I, ["f", "init", "xs", "length", "reverse"], a, k)
  init, xs = d["init"], d.get("xs")
  if I.unroll_loops:
    n = const_int(d.get("length")) if d.get("length") is not None else None
    none_xs = xs is None or xs is M.NONE_T
    els = None
    if none_xs and n is not None:
      els = [None] * n
    elif not none_xs:
      els = scan_elements(I, xs, n)
    if els is not None and len(els) <= I.unroll_loops and isinstance(d.get("reverse", False), bool):
      ys = []
      for x in (reversed(els) if d.get("reverse") else els):
        r = I.unpack_values(I.call(d["f"], [init, x], {}), 2)
        init = r[0]
        ys.append(r[1])
      if d.get("reverse"):
        ys.reverse()
      if all(y is None or y is M.NONE_T for y in ys):
        return (init, None)
      return (init, mk("stack", *[I.lift(y) for y in ys]))
  lvl = fresh_level(I)
  try:
    gen = I.generalize(init, ("lv", lvl))
    if xs is None:
      el = None
    else:
      cnt = [0]

      def leaf(t):
        return mk("elem", I.lift(t), lvl)
      el = tmap(I, leaf, [xs])
    out = I.call(d["f"], [gen, el], {})
  finally:
    I.lamdepth -= 1
  r = I.unpack_values(out, 2)
  I.event("scan", (init, gen, xs, r[0], r[1], d.get("length"), d.get("reverse")))
  ex = (I.lift(xs), I.lift(d.get("length")), I.lift(bool(d.get("reverse", False)) if isinstance(d.get("reverse", False), bool) else d.get("reverse")))
  carry = loop_result(I, init, gen, tm.TRUE, r[0], "scan", ex)
  L = I.last_loop
  ct = I.lift(carry) if L.whole else None

  def stacked(y):
    y = I.lift(y)
    if L.whole:
      return mk("scanys", y, ct, *ex)
    y = tm.substitute(y, {b: i for n, b, i in zip(L.names, L.given, L.inits) if b.op == "lv" and b.args == (L.lvl, n)})
    W, _, (y,) = L.sliced([y], [])
    return mk("scanys", y, W, *ex)
  ys = tmap(I, stacked, [r[1]]) if r[1] is not None else None
  return (carry, ys)


@model("jax.lax.map")
def m_laxmap(I, a, k):
  return I.call(m_vmap(I, [a[0]], {}), [a[1]], {})


@model("jax.eval_shape")
def m_eval_shape(I, a, k):
  r = I.call(a[0], a[1:], k)
  return tmap(I, lambda t: mk("shapestruct", I.lift(t)), [r])


@model("jax.pure_callback", "jax.experimental.host_callback.call")
def m_callback(I, a, k):
  return mk("callback", *[I.lift(x) for x in a])


@model("jax.device_get", "jax.device_put", "jax.block_until_ready")
def m_devget(I, a, k):
  return a[0]


# ------------------------------------------------------------ jnp -----------
def jl(*names):
  return model(*["jax.numpy." + n for n in names])


def elementwise(name, f):
  MODELS["jax.numpy." + name] = lambda I, a, k: f(*[I.lift(x) for x in a])


elementwise("add", tm.add)
elementwise("subtract", tm.sub)
elementwise("multiply", tm.mul)
elementwise("divide", tm.div)
elementwise("true_divide", tm.div)
elementwise("negative", tm.neg)
elementwise("abs", tm.absolute)
elementwise("fabs", tm.absolute)
elementwise("sqrt", lambda x: tm.power(x, tm.Fraction(1, 2)))
elementwise("square", lambda x: tm.mul(x, x))
elementwise("reciprocal", lambda x: tm.power(x, -1))
elementwise("conj", tm.conj)
elementwise("real", tm.real)
elementwise("imag", tm.imag)
elementwise("maximum", tm.maximum)
elementwise("minimum", tm.minimum)
elementwise("sign", tm.sign)
elementwise("isnan", tm.isnan)
elementwise("logical_and", tm.and_)
elementwise("logical_or", tm.or_)
elementwise("logical_not", tm.not_)
elementwise("bitwise_and", tm.and_)
elementwise("bitwise_or", tm.or_)
elementwise("greater", lambda a, b: tm.lt(b, a))
elementwise("greater_equal", lambda a, b: tm.le(b, a))
elementwise("less", tm.lt)
elementwise("less_equal", tm.le)
elementwise("equal", tm.eq)
elementwise("not_equal", lambda a, b: tm.not_(tm.eq(a, b)))
elementwise("mod", tm.mod)
elementwise("remainder", tm.mod)
elementwise("floor_divide", lambda a, b: mk("floordiv", a, b))
MODELS["jax.numpy.power"] = lambda I, a, k: arith(I, "Pow", I.lift(a[0]), I.lift(a[1]))
MODELS["jax.numpy.float_power"] = MODELS["jax.numpy.power"]
MODELS["jax.numpy.pow"] = MODELS["jax.numpy.power"]
for _n in ("exp", "log", "log1p", "expm1", "tanh", "arctan", "floor", "ceil", "isinf", "isfinite", "isneginf",
           "isposinf", "log2", "sin", "cos", "sinh", "cosh"):
  elementwise(_n, (lambda n: lambda x: mk(n, x))(_n))


def _tanh(x):
  return mk("tanh", x)


@jl("exp")
def j_exp(I, a, k):
  t = I.lift(a[0])
  if t is tm.ZERO:
    return tm.ONE
  if t.op == "log":
    return t.args[0]
  return mk("exp", t)


@jl("log")
def j_log(I, a, k):
  t = I.lift(a[0])
  if t is tm.ONE:
    return tm.ZERO
  if t.op == "exp":
    return t.args[0]
  return mk("log", t)


@model("jax.lax.max")
def l_max(I, a, k):
  return tm.maximum(I.lift(a[0]), I.lift(a[1]))


@model("jax.lax.min")
def l_min(I, a, k):
  return tm.minimum(I.lift(a[0]), I.lift(a[1]))


for _n, _f in {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "div": tm.div, "neg": tm.neg, "abs": tm.absolute,
               "lt": tm.lt, "le": tm.le, "gt": lambda a, b: tm.lt(b, a), "ge": lambda a, b: tm.le(b, a),
               "eq": tm.eq, "select": lambda c, a, b: tm.ite(c, a, b), "square": lambda x: tm.mul(x, x),
               "sqrt": lambda x: tm.power(x, tm.Fraction(1, 2)),
               "rsqrt": lambda x: tm.power(x, tm.Fraction(-1, 2)),
               "sign": tm.sign, "exp": lambda x: mk("exp", x), "log": lambda x: mk("log", x),
               "conj": tm.conj}.items():
  MODELS["jax.lax." + _n] = (lambda f: lambda I, a, k: f(*[I.lift(x) for x in a]))(_f)


@jl("where")
def j_where(I, a, k):
  M = _imports()
  if len(a) == 1:
    return mk("nonzero", I.lift(a[0]))
  c = I.decide(I.cond_term(a[0]))
  for x in a[1:]:
    if x is None:
      raise M.AbsRaise("TypeError jnp.where on None", I.where())
  return tm.ite(c, I.lift(a[1]), I.lift(a[2]))


MODELS["jax.lax.select"] = j_where


@jl("clip")
def j_clip(I, a, k):
  d = getargs(I, ["x", "lo", "hi"], a, {})
  x = I.lift(d.get("x", k.get("a", k.get("arr"))))
  lo = d.get("lo", k.get("min", k.get("a_min")))
  hi = d.get("hi", k.get("max", k.get("a_max")))
  if lo is not None:
    x = tm.maximum(I.lift(lo), x)
  if hi is not None:
    x = tm.minimum(I.lift(hi), x)
  return x


@model("jax.lax.clamp")
def l_clamp(I, a, k):
  return tm.minimum(I.lift(a[2]), tm.maximum(I.lift(a[0]), I.lift(a[1])))


@model("jax.nn.relu")
def n_relu(I, a, k):
  return tm.maximum(I.lift(a[0]), tm.ZERO)


@model("jax.nn.sigmoid", "jax.scipy.special.expit", "jax.lax.logistic")
def n_sigmoid(I, a, k):
  return mk("sigmoid", I.lift(a[0]))


@model("jax.nn.softplus")
def n_softplus(I, a, k):
  return logaddexp(I.lift(a[0]), tm.ZERO)


def logaddexp(a, b):
  return mk("logaddexp", *sorted((a, b), key=tm.skey))


@jl("logaddexp")
def j_logaddexp(I, a, k):
  return logaddexp(I.lift(a[0]), I.lift(a[1]))


@model("jax.nn.softmax", "jax.scipy.special.softmax")
def n_softmax(I, a, k):
  return mk("softmax", I.lift(a[0]), I.lift(a[1] if len(a) > 1 else k.get("axis", -1)))


@model("jax.scipy.special.logsumexp", "jax.nn.logsumexp")
def n_lse(I, a, k):
  ax = a[1] if len(a) > 1 else k.get("axis")
  return reduction(I, "logsumexp", I.lift(a[0]), ax, k)


def contracted(t, axis):
  """sum(v[:, None] * M, 0) is v @ M, and sum(v[None, :] * M, 1) is M @ v."""
  res = tm.ZERO
  for m, c in tm.as_poly(t).items():
    v = [(x, e) for x, e in m if x.op == "item" and isinstance(x.args[1], T) and x.args[1].op == "tuple" and len(x.args[1].args) == 2
         and x.args[1].args[1 - axis].op == "none" and full_slice(x.args[1].args[axis]) and rank(x.args[0]) == 1]
    rest = [xe for xe in m if xe not in v]
    if len(v) != 1 or v[0][1] != 1 or not any(rank(x) == 2 for x, e in rest):
      return None
    M_ = tm._poly({tuple(rest): Fraction(c)})
    res = tm.add(res, tm.matmul(v[0][0].args[0], M_) if axis == 0 else tm.matmul(M_, v[0][0].args[0]))
  return res


def full_slice(s):
  return s.op == "slice" and all(x.op == "none" for x in s.args)


def reduction(I, op, t, axis, k):
  if axis is not None and rank(t) is not None and const_int(axis) is not None:
    ax = const_int(axis) % max(rank(t), 1)
    kd0 = k.get("keepdims", False)
    if rank(t) == 1 and ax == 0 and kd0 is False:
      axis = None
    else:
      axis = ax
  opts = []
  if axis is not None:
    opts.append(I.lift(axis))
  kd = k.get("keepdims", False)
  if kd is not False:
    if not opts:
      opts.append(mk("none"))
    opts.append(I.lift(kd))
  if op == "sum":
    if len(opts) == 1 and rank(t) == 2 and axis in (0, 1):
      r = contracted(t, axis)
      if r is not None:
        return r
    return tm.asum(t, *opts)
  if op == "mean":
    return tm.amean(t, *opts)
  if rank(t) == 0 and op in ("maxr", "minr", "prod", "allr", "anyr") and not opts:
    return t
  if op in ("maxr", "minr") and not opts and tm.const_of(t) is not None:
    return t
  return mk(op, t, *opts)


def _red(name, op):
  def f(I, a, k):
    ax = a[1] if len(a) > 1 else k.get("axis")
    t = I.lift(a[0])
    if op in ("allr", "anyr"):
      xs = I.iterate(a[0])
      if xs is not None:
        cs = [I.cond_term(x) for x in xs]
        return tm.and_(*cs) if op == "allr" else tm.or_(*cs)
      if t.op == "bool":
        return t
      if t.op == "arr" and ax is None and all(isinstance(x, T) and tm.is_boolish(x) for x in t.args):
        cs = [mk(op, x) if rank(x) not in (0, None) else x for x in t.args]
        return tm.and_(*cs) if op == "allr" else tm.or_(*cs)
    if name in ("sum", "count_nonzero"):
      b = t
      if b.op == "ite" and tm.const_of(b.args[1]) == 1 and tm.const_of(b.args[2]) == 0:
        b = b.args[0]
      if tm.is_boolish(b) and b.op != "bool":
        return reduction(I, "count", b, ax, k)
    if op in ("maxr", "minr") and k.get("initial") is not None:
      r = reduction(I, op, t, ax, k)
      return tm.maximum(r, I.lift(k["initial"])) if op == "maxr" else tm.minimum(r, I.lift(k["initial"]))
    return reduction(I, op, t, ax, k)
  return f


for _n, _o in {"sum": "sum", "mean": "mean", "average": "mean", "max": "maxr", "amax": "maxr", "min": "minr",
               "amin": "minr", "prod": "prod", "all": "allr", "any": "anyr", "argmax": "argmax",
               "argmin": "argmin", "count_nonzero": "count", "nansum": "nansum", "std": "std", "var": "var"}.items():
  MODELS["jax.numpy." + _n] = _red(_n, _o)
tm.BOOL_OPS |= {"allr", "anyr", "isneginf", "isposinf"}


@jl("dot", "matmul")
def j_dot(I, a, k):
  return dot(I.lift(a[0]), I.lift(a[1]))


MODELS["jax.lax.dot"] = j_dot


@jl("vdot")
def j_vdot(I, a, k):
  return vdot(I.lift(a[0]), I.lift(a[1]))


@jl("inner")
def j_inner(I, a, k):
  x, y = I.lift(a[0]), I.lift(a[1])
  if rank(x) == 1 and rank(y) == 1:
    return tm.asum(tm.mul(x, y))
  return mk("jnp.inner", x, y)


@jl("tensordot")
def j_tensordot(I, a, k):
  ax = a[2] if len(a) > 2 else k.get("axes", 2)
  x, y = I.lift(a[0]), I.lift(a[1])
  if ax == 1:
    return dot(x, y)
  return mk("tensordot", x, y, I.lift(ax))


@jl("outer")
def j_outer(I, a, k):
  return tm.outer(I.lift(a[0]), I.lift(a[1]))


@model("jax.numpy.linalg.norm")
def j_norm(I, a, k):
  x = I.lift(a[0])
  o = a[1] if len(a) > 1 else k.get("ord")
  ax = a[2] if len(a) > 2 else k.get("axis")
  if o is None or (o == 2 and (rank(x) == 1 or ax is not None)):
    kk = {n: v for n, v in k.items() if n == "keepdims"}
    return tm.power(reduction(I, "sum", tm.mul(tm.conj(x), x), ax, kk), tm.Fraction(1, 2))
  if o == 1 and (rank(x) == 1 or ax is not None):
    return reduction(I, "sum", tm.absolute(x), ax, {})
  if I.lift(o) is tm.INF and (rank(x) == 1 or ax is not None):
    return reduction(I, "maxr", tm.absolute(x), ax, {})
  return mk("norm", x, I.lift(o), I.lift(ax))


@jl("asarray", "array", "copy", "ascontiguousarray", "float32", "float64", "int32", "int64", "bool_",
    "asanyarray")
def j_asarray(I, a, k):
  M = _imports()
  v = a[0] if a else k.get("a", k.get("object"))
  if isinstance(v, M.Ref) and v.kind == "list" or isinstance(v, tuple):
    xs = I.iterate(v)
    return mk("arr", *[I.lift(x) for x in xs])
  if v is None:
    raise M.AbsRaise("TypeError jnp.asarray(None)", I.where())
  return I.lift(v)


@jl("zeros_like")
def j_zl(I, a, k):
  return tm.ZERO


@jl("zeros")
def j_z(I, a, k):
  return tm.ZERO


@jl("ones_like", "ones")
def j_ol(I, a, k):
  return tm.ONE


@jl("full_like", "full")
def j_fl(I, a, k):
  return I.lift(a[1] if len(a) > 1 else k["fill_value"])


@jl("eye", "identity")
def j_eye(I, a, k):
  return mk("eye", I.lift(a[0]))


@jl("transpose")
def j_transpose(I, a, k):
  t = I.lift(a[0])
  if len(a) > 1 or "axes" in k:
    return mk("transposeax", t, I.lift(a[1] if len(a) > 1 else k["axes"]))
  return term_attr(I, t, "T")


@jl("ravel")
def j_ravel(I, a, k):
  t = I.lift(a[0])
  return ravel(t)


MODELS["jax.numpy.flatten"] = j_ravel


def ravel(t):
  if rank(t) == 1 or tm.const_of(t) is not None:
    return t
  g, t = scalar_factor(t)
  if rank(t) == 1:
    return tm.mul(g, t)
  return tm.mul(g, mk("ravel", t))


def scalar_factor(t):
  """(g, r) with t = g * r and g a scalar (of a single product)."""
  p = tm.as_poly(t)
  if len(p) != 1:
    return tm.ONE, t
  (m, c), = p.items()
  g, r = tm._split_factor(m, ())
  if not r:
    return tm.ONE, t
  return tm._poly({g: c}), tm._poly({r: Fraction(1)})


@jl("reshape")
def j_reshape(I, a, k):
  t = I.lift(a[0])
  sh = a[1] if len(a) == 2 else (tuple(a[1:]) if len(a) > 2 else k.get("shape", k.get("newshape")))
  if not isinstance(sh, T) and I.iterate(sh) is not None:
    sh = tuple(I.iterate(sh))
  if const_int(sh) == -1 or (isinstance(sh, tuple) and len(sh) == 1 and const_int(sh[0]) == -1):
    return ravel(t)
  st = I.lift(sh)
  if st.op == "shape" and t.op in ("ravel", "reshape") and st.args[0] is t.args[0]:
    return t.args[0]
  if st.op == "shape" and rank(t) == 1 and rank(st.args[0]) == 1:
    return t
  if st.op == "tuple" and len(st.args) == rank(t) and st.args and tm.const_of(st.args[-1]) == -1 and \
      all(x is I.lift(index(I, mk("shape", t), i)) for i, x in enumerate(st.args[:-1])):
    return t      # keeps every extent
  if t.op in ("reshape", "ravel"):
    t = t.args[0]
  if st.op == "tuple" and st.args and all(isinstance(x, T) and tm.const_of(x) != -1 for x in st.args):
    st = mk("tuple", *st.args[:-1], tm.num(-1))   # the last extent follows from the others
  g, t = scalar_factor(t)
  return tm.mul(g, mk("reshape", t, st))


@jl("shape")
def j_shape(I, a, k):
  return mk("shape", I.lift(a[0]))


@jl("size")
def j_size(I, a, k):
  return size(I.lift(a[0]))


@jl("ndim")
def j_ndim(I, a, k):
  t = I.lift(a[0])
  r = rank(t)
  return r if r is not None else mk("ndim", t)


@jl("tile")
def j_tile(I, a, k):
  t = I.lift(a[0])
  r = I.lift(a[1] if len(a) > 1 else k["reps"])
  for m in range(1, 17):
    # a new leading axis of m copies
    if r is tm.add(mk("tuple", tm.num(m)), tm.mul(mk("ndim", t), mk("tuple", tm.ONE))):
      return mk("stack", *[t] * m)
  return mk("tile", t, r)


@jl("result_type", "promote_types")
def j_rt(I, a, k):
  return mk("dtype", *[I.lift(x) for x in a])


@jl("finfo")
def j_finfo(I, a, k):
  return mk("finfo", I.lift(a[0]))


@jl("arange")
def j_arange(I, a, k):
  return mk("arange", *[I.lift(x) for x in a if x is not None])


@model("jax.nn.one_hot")
def n_onehot(I, a, k):
  return mk("onehot", I.lift(a[0]), I.lift(a[1] if len(a) > 1 else k.get("num_classes")))


def _plain(name, op=None):
  """Operator kept uninterpreted, with positional normalisation of its arguments."""
  def f(I, a, k):
    return mk(op or name, *[I.lift(x) for x in a], *[mk("kw", n, I.lift(v)) for n, v in sorted(k.items()) if v is not None])
  MODELS["jax.numpy." + name] = f


@jl("argsort")
def j_argsort(I, a, k):
  k = dict(k)
  ax = const_int(k["axis"]) if "axis" in k and k["axis"] is not None else None
  t = I.lift(a[0])
  if ax == -1 or ax == 0 and rank(t) == 1:
    del k["axis"]
  for n in ("stable", "kind"):
    if k.get(n, 0) in (None, True):
      del k[n]
  return mk("argsort", t, *[I.lift(x) for x in a[1:]], *[mk("kw", n, I.lift(v)) for n, v in sorted(k.items())])


for _n in ("cumsum", "cumprod", "roll", "searchsorted", "median", "take", "repeat",
           "triu", "tril", "swapaxes", "round", "trace", "isin", "unique", "broadcast_to", "atleast_1d", "atleast_2d"):
  _plain(_n)


def reverse(I, t):
  return mk("item", t, mk("slice", mk("none"), mk("none"), tm.num(-1)))


@jl("flip")
def j_flip(I, a, k):
  t = I.lift(a[0])
  if rank(t) == 1:
    return reverse(I, t)
  return mk("flip", *[I.lift(x) for x in a], *[mk("kw", n, I.lift(v)) for n, v in sorted(k.items()) if v is not None])


@jl("sort")
def j_sort(I, a, k):
  t = I.lift(a[0])
  k = dict(k)
  down = k.pop("descending", False)
  if rank(t) == 1 and k.get("axis", -1) in (0, -1, None) and len(a) == 1 and down in (True, False):
    r = mk("sort", t)
    return reverse(I, r) if down else r
  if down is not False:
    k["descending"] = down
  return mk("sort", t, *[I.lift(x) for x in a[1:]], *[mk("kw", n, I.lift(v)) for n, v in sorted(k.items()) if v is not None])


@jl("concatenate", "hstack")
def j_concat(I, a, k):
  xs = I.iterate(a[0])
  if xs is None:
    return mk("concatenate", I.lift(a[0]))
  ax = a[1] if len(a) > 1 else k.get("axis", 0)
  if len(xs) == 1:
    return I.lift(xs[0])
  return mk("concatenate", mk("tuple", *[I.lift(x) for x in xs]), I.lift(ax))


@jl("split")
def j_split(I, a, k):
  t, at = I.lift(a[0]), I.lift(a[1] if len(a) > 1 else k["indices_or_sections"])
  if at.op == "cumsum" and len(at.args) == 1:
    at = at.args[0]
  if at.op == "tuple" and not at.args and len(a) < 3 and "axis" not in k:
    return I.newlist([t])     # no cut
  return mk("ext:jnp.split", t, I.lift(a[1] if len(a) > 1 else k["indices_or_sections"]), *[I.lift(x) for x in a[2:]],
            *[mk("kw", n, I.lift(v)) for n, v in sorted(k.items()) if n != "indices_or_sections"])


@jl("stack", "vstack")
def j_stack(I, a, k):
  xs = I.iterate(a[0])
  ax = a[1] if len(a) > 1 else k.get("axis", 0)
  if xs is None or const_int(ax) != 0:
    return mk("stackx", I.lift(a[0]), I.lift(ax))
  return mk("stack", *[I.lift(x) for x in xs])


@jl("isscalar")
def j_isscalar(I, a, k):
  M = _imports()
  v = a[0]
  if isinstance(v, (bool, int, float, complex)):
    return True
  if v is None or isinstance(v, (tuple, M.Rec, str, M.Ref)):
    return False
  t = I.lift(v)
  if t.op in ("tuple", "dict", "rec", "none") or (rank(t) or 0) > 0:
    return False
  if tm.const_of(t) is not None or rank(t) == 0:
    return True
  return mk("isscalar", t)


@jl("iscomplexobj", "isrealobj", "iscomplex")
def j_isc(I, a, k):
  return mk("iscomplexobj", I.lift(a[0]))


@jl("diag")
def j_diag(I, a, k):
  t = I.lift(a[0])
  r = rank(t)
  if t.op == "diagm" and len(a) == 1:
    return t.args[0]
  if r == 2 or (r is None and t.op in ("matmul", "jac")):
    return mk("diagof", t)
  if r == 1:
    return mk("diagm", t)
  return mk("diag", t)


@jl("diagonal")
def j_diagonal(I, a, k):
  return mk("diagof", I.lift(a[0]))


@jl("expand_dims")
def j_expand(I, a, k):
  return mk("expand_dims", I.lift(a[0]), I.lift(a[1] if len(a) > 1 else k.get("axis")))


@jl("squeeze")
def j_squeeze(I, a, k):
  return mk("squeeze", I.lift(a[0]), *([I.lift(a[1] if len(a) > 1 else k["axis"])] if len(a) > 1 or "axis" in k else []))


@jl("einsum")
def j_einsum(I, a, k):
  if isinstance(a[0], str):
    spec = a[0].replace(" ", "")
    ts = [I.lift(x) for x in a[1:]]
    r = contract(spec, ts)
    if r is None:
      r = contract_rows(I, spec, ts)
    return r if r is not None else mk("einsum", spec, *ts)
  return mk("einsum", *[I.lift(x) for x in a])


def contract_rows(I, spec, ts):
  """Products with a matrix (or histories) of a known number of rows, written out."""
  ins, _, out = spec.partition("->")
  ins = ins.split(",")
  if len(ins) != 2 or len(ts) != 2:
    return None
  for (i, x), (j, y) in (((ins[0], ts[0]), (ins[1], ts[1])), ((ins[1], ts[1]), (ins[0], ts[0]))):
    rest = i[1:]
    if not i or i[0] == "." or not rest or i[0] in rest:
      continue
    xs = axis0(x)
    if xs is None or len(xs) > 16:
      continue
    if j == rest and out == i[0]:
      return mk("stack", *[tm.asum(tm.mul(e, y)) for e in xs])
    if j == i[0] and out == rest:
      ys = axis0(y)
      if ys is not None and len(ys) == len(xs):
        r = tm.ZERO
        for e, w in zip(xs, ys):
          r = tm.add(r, tm.mul(e, w))
        return r
  return None


def contract(spec, ts):
  """Einstein summation over vectors and matrices as products and sums, or None."""
  ins, _, out = spec.partition("->")
  ins = ins.split(",")
  if "->" not in spec:
    out = "".join(sorted(l for l in set("".join(ins)) if "".join(ins).count(l) == 1))
  if "." in spec or len(ins) != len(ts) or any(len(i) > 2 or len(set(i)) != len(i) for i in ins) or len(out) > 2:
    return None
  ops = list(zip(ins, ts))

  def used(l, but=()):
    return l in out or any(l in i for n, (i, _) in enumerate(ops) if n not in but)

  def orient(i, t, last):
    return (i, t) if i[-1] == last else (i[::-1], tm.transpose(t))
  if len(ops) == 1 and not out:
    return tm.asum(ops[0][1])
  progress = True
  while progress:
    progress = False
    for n, (i, t) in enumerate(ops):
      for ax, l in enumerate(i):
        if not used(l, (n,)) and (len(i) == 1 or len(ops) == 1):
          ops[n] = (i.replace(l, ""), tm.asum(t, *([tm.num(ax)] if len(i) == 2 else [])))
          progress = True
          break
      if progress:
        break
    if progress:
      continue
    # matrix-vector and vector-vector products first
    pairs = sorted(((len(ops[p][0]) + len(ops[q][0]), p, q) for p in range(len(ops)) for q in range(p + 1, len(ops))), key=lambda x: x[0])
    for _, p, q in pairs:
      (i, x), (j, y) = ops[p], ops[q]
      shared = [l for l in i if l in j]
      gone = [l for l in shared if not used(l, (p, q))]
      new = None
      if not i or not j:
        new = (i + j, tm.mul(x, y))
      elif len(i) == len(j) == len(shared):
        y = y if i == j else tm.transpose(y)
        if len(gone) == len(i):
          new = ("", tm.asum(tm.mul(x, y)))
        elif len(gone) == 0:
          new = (i, tm.mul(x, y))
        else:
          new = (i.replace(gone[0], ""), tm.asum(tm.mul(x, y), tm.num(i.index(gone[0]))))
      elif len(shared) == 1 and gone == shared:
        l = shared[0]
        if len(i) == 1:
          (i, x), (j, y) = (j, y), (i, x)
        i, x = orient(i, x, l)
        if len(j) == 2:
          j, y = orient(j, y, l)
          j, y = j[::-1], tm.transpose(y)
        new = (i[:-1] + j[1:], tm.matmul(x, y))
      elif not shared and len(i) == len(j) == 1 and len(ops) == 2:
        new = (i + j, mk("outer", x, y))
      if new is not None:
        ops = [o for n, o in enumerate(ops) if n not in (p, q)] + [new]
        progress = True
        break
  if len(ops) != 1 or sorted(ops[0][0]) != sorted(out):
    return None
  return ops[0][1] if ops[0][0] == out else tm.transpose(ops[0][1])


def sig_params(I, f, bound=False):
  """Parameters [(name, kind, default-or-NODEF)] of a callable, or None if unknown."""
  M = _imports()
  if isinstance(f, M.Bound):
    ps = sig_params(I, f.fn)
    return ps[1:] if ps and ps[0][1] in ("pos", "posonly") else ps
  if isinstance(f, M.PyFn):
    if f.name == "signature":
      return f.attrs["params"]
    if "__wrapped__" in f.attrs:
      return sig_params(I, f.attrs["__wrapped__"])
    return sig_params(I, f.base) if f.base is not None else None
  if isinstance(f, M.Partial):
    return None
  if isinstance(f, M.Ref) and f.kind == "obj":
    c = I.getattr(f, "__call__", None)
    return sig_params(I, c) if c is not None else None
  if isinstance(f, T):
    names = I.signatures.get(f)
    if names is None:
      return None
    return [(n, "pos", NODEF) if isinstance(n, str) else n for n in names]
  if not isinstance(f, M.Closure):
    return None
  if "__wrapped__" in f.attrs:
    return sig_params(I, f.attrs["__wrapped__"])
  a = f.node.args
  out = []
  names = [("posonly", x.arg) for x in a.posonlyargs] + [("pos", x.arg) for x in a.args]
  nd = len(names) - len(f.defaults)
  for i, (kd, n) in enumerate(names):
    out.append((n, kd, f.defaults[i - nd] if i >= nd else NODEF))
  if a.vararg:
    out.append((a.vararg.arg, "var", NODEF))
  for x in a.kwonlyargs:
    out.append((x.arg, "kwonly", f.kwdefaults.get(x.arg, NODEF)))
  if a.kwarg:
    out.append((a.kwarg.arg, "varkw", NODEF))
  return out


NODEF = object()


@model("inspect.signature")
def m_signature(I, a, k):
  M = _imports()
  ps = sig_params(I, a[0])
  if ps is None:
    return mk("signature", I.lift_fn2(a[0]))
  return make_signature(I, ps)


KINDS = {"POSITIONAL_OR_KEYWORD": "pos", "POSITIONAL_ONLY": "posonly", "VAR_POSITIONAL": "var",
         "KEYWORD_ONLY": "kwonly", "VAR_KEYWORD": "varkw"}


@model("inspect.Parameter")
def m_parameter(I, a, k):
  name = a[0] if a else k["name"]
  kind = a[1] if len(a) > 1 else k.get("kind")
  kd = None
  for n, v in KINDS.items():
    if n in str(getattr(kind, "name", None) or (tm.show(kind, 3) if isinstance(kind, T) else kind)):
      kd = v
      if n != "POSITIONAL_OR_KEYWORD":
        continue
      break
  return make_parameter(name if isinstance(name, str) else str(name), kd or "pos", k.get("default", NODEF))


def make_parameter(n, kind, d):
  M = _imports()
  p = M.PyFn("parameter", None)
  p.attrs["triple"] = (n, kind, d)
  p.attrs["name"] = n
  kn = next(x for x, v in KINDS.items() if v == kind)
  p.attrs["kind"] = M.Ext("inspect.Parameter." + kn)
  p.attrs["default"] = d if d is not NODEF else M.Ext("inspect.Parameter.empty")
  return p


@model("inspect.Signature")
def m_Signature(I, a, k):
  ps = a[0] if a else k.get("parameters", ())
  xs = I.iterate(ps)
  if xs is None or not all("triple" in getattr(x, "attrs", {}) for x in xs):
    return mk("signature", I.lift(ps))
  return make_signature(I, [x.attrs["triple"] for x in xs])


def make_signature(I, ps):
  M = _imports()

  def bind(I, a, k):
    arguments = {}
    rest = list(a)
    kw = dict(k)
    for n, kind, d in ps:
      if kind in ("pos", "posonly"):
        if rest:
          arguments[n] = rest.pop(0)
        elif n in kw and kind == "pos":
          arguments[n] = kw.pop(n)
        elif d is NODEF:
          raise M.AbsRaise(f"TypeError missing a required argument: {n}", I.where())
      elif kind == "var":
        if rest:
          arguments[n] = tuple(rest)
        rest = []
      elif kind == "kwonly":
        if n in kw:
          arguments[n] = kw.pop(n)
        elif d is NODEF:
          raise M.AbsRaise(f"TypeError missing a required argument: {n}", I.where())
      else:
        if kw:
          arguments[n] = kw
        kw = {}
    if rest or kw:
      raise M.AbsRaise("TypeError got an unexpected argument", I.where())
    ba = M.PyFn("boundargs", None)

    def refresh():
      args, kws, started = [], {}, False
      for n, kind, d in ps:
        if kind in ("varkw", "kwonly"):
          started = True
        elif n not in arguments:
          started = True
          continue
        if n not in arguments:
          continue
        v = arguments[n]
        if not started:
          if kind == "var":
            args += list(v)
          else:
            args.append(v)
        elif kind == "varkw":
          kws.update(v)
        else:
          kws[n] = v
      ba.attrs["args"] = tuple(args)
      ba.attrs["kwargs"] = I.newdict(kws)
      ba.attrs["arguments"] = I.newdict({n: (I.newdict(v) if isinstance(v, dict) else v) for n, v in arguments.items()})

    def apply_defaults(I, a, k):
      for n, kind, d in ps:
        if n not in arguments:
          if kind == "var":
            arguments[n] = ()
          elif kind == "varkw":
            arguments[n] = {}
          elif d is not NODEF:
            arguments[n] = d
      refresh()
    ba.attrs["apply_defaults"] = M.PyFn("apply_defaults", apply_defaults)
    refresh()
    return ba
  sg = M.PyFn("signature", None, params=ps)
  sg.attrs["bind"] = M.PyFn("bind", bind)
  pars = {}
  for n, kind, d in ps:
    pars[n] = make_parameter(n, kind, d)
  sg.attrs["parameters"] = I.newdict(pars)

  def replace(I, a, k):
    return m_Signature(I, [k["parameters"]], {}) if "parameters" in k else sg
  sg.attrs["replace"] = M.PyFn("replace", replace)
  return sg


@model("jax.random.PRNGKey", "jax.random.key")
def m_prng(I, a, k):
  return mk("prngkey", I.lift(a[0]) if a else I.lift(k.get("seed", 0)))
