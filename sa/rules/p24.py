"""P24: SciPy wrappers are faithful bridges."""
import itertools

from ..core import *
from .. import interp as I_
from .. import models
from .. import solvers as S
from .. import terms as tm

FLOOR = 100

F64, F32 = "dt64", "dt32"
SIGNATURE = {
    "minimize": ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"],
    "root": ["fun", "x0", "args", "method", "jac", "tol", "callback", "options"],
    "least_squares": ["fun", "x0", "jac", "bounds", "method", "ftol", "xtol", "gtol", "x_scale", "loss", "f_scale"],
}
DEFAULT_LS = {"ftol": 1e-8, "xtol": 1e-8, "gtol": 1e-8, "x_scale": 1.0, "f_scale": 1.0, "tr_solver": None, "max_nfev": None}


# (label, structure of (name, shape) leaves); leaf names are unique
TREES = [
    ("vector", ("x", (3,))),
    ("matrix", ("x", (2, 3))),
    ("pair", (("u", (2,)), ("v", (3, 2)))),
    ("dict", {"b": ("b", (2, 2)), "a": ("a", ()), "c": (("c", (3,)), ("d", (1, 2)))}),
]


def is_leaf(t):
  return isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], str)


def leaves(t):
  if is_leaf(t):
    return [t]
  vals = [t[k] for k in sorted(t)] if isinstance(t, dict) else list(t)
  return [x for v in vals for x in leaves(v)]


def size(shape):
  n = 1
  for s in shape:
    n *= s
  return n


class Host:
  """NumPy and SciPy as seen by the wrappers: arrays with symbolic entries and a recording optimiser."""

  def __init__(self, I):
    self.I = I
    self.cls = I.cls("spec.nd", "ndarray")

  def nd(self, flat, shape, dtype):
    I = self.I
    return I.instantiate(self.cls, [I.newlist(list(flat)), tuple(shape), dtype], {})

  def make(self, t, entry, dtype=None):
    """The tree with entry(name, k) in its leaves."""
    if is_leaf(t):
      name, shape = t
      dt = dtype or (F32 if name in ("u", "a") else F64)
      return self.nd([entry(name, k) for k in range(size(shape))], shape, dt)
    if isinstance(t, dict):
      return self.I.newdict({k: self.make(v, entry, dtype) for k, v in t.items()})
    return tuple(self.make(v, entry, dtype) for v in t)

  def is_nd(self, x):
    return isinstance(x, I_.Ref) and x.kind == "obj" and x.cls is self.cls

  def parts(self, x):
    """(entries, shape, dtype) of a host array."""
    p = self.I.heap[x.id]
    return [self.I.lift(v) for v in self.I.heap[p["flat"].id]], tuple(p["shape"]), p["dtype"]

  def fresh(self, name, n, dtype=F64):
    return self.nd([sc(name, k) for k in range(n)], (n,), dtype)


def sc(name, k):
  return mk("sym", "sc", f"{name}{k}")


class Decode(Exception):
  pass


def same_tree(c, rule, con, h, got, t, want, where, dtype=None, real=False):
  """got is a tree of host arrays with the structure of t and the entries want(name, k)."""
  def go(x, t, path):
    if is_leaf(t):
      if not h.is_nd(x):
        return c.unknown(rule, con, f"leaf {path} is {type(x).__name__}")
      flat, shape, dt = h.parts(x)
      name, wshape = t
      c.same(rule, f"{con} shape{path}", mk("str", repr(shape)), mk("str", repr(tuple(wshape))), where=where)
      wdt = dtype or (F32 if name in ("u", "a") else F64)
      c.same(rule, f"{con} dtype{path}", mk("str", str(dt)), mk("str", wdt), where=where)
      w = [want(name, k) for k in range(size(wshape))]
      if len(flat) == len(w):
        c.same(rule, f"{con} entries{path}", mk("tuple", *flat), mk("tuple", *w), where=where)
      else:
        c.bad(rule, f"{con} entries{path}", f"{len(flat)} entries instead of {len(w)}", where)
      return
    if isinstance(t, dict):
      if not (isinstance(x, I_.Ref) and x.kind == "dict"):
        return c.unknown(rule, con, f"{path} is {type(x).__name__}")
      p = h.I.heap[x.id]
      if set(p) != set(t):
        return c.bad(rule, con, f"{path} has keys {sorted(map(str, p))}", where)
      for k in t:
        go(p[k], t[k], f"{path}.{k}")
      return
    xs = x
    if isinstance(x, I_.Ref) and x.kind == "list":
      return c.bad(rule, con, f"{path} is a list instead of a tuple", where)
    if not isinstance(xs, tuple):
      return c.unknown(rule, con, f"{path} is {type(x).__name__}")
    if len(xs) != len(t):
      return c.bad(rule, con, f"{path} has {len(xs)} parts", where)
    for i, (a, b) in enumerate(zip(xs, t)):
      go(a, b, f"{path}.{i}")
  go(got, t, "")


def flat_entries(t, want):
  return [want(n, k) for n, shape in leaves(t) for k in range(size(shape))]


def same_array(c, rule, con, h, got, entries, shape, where, dtype=F64):
  if not h.is_nd(got):
    return c.unknown(rule, con, f"not a host array: {str(got)[:60]}")
  flat, sh, dt = h.parts(got)
  c.same(rule, con + " shape", mk("str", repr(sh)), mk("str", repr(tuple(shape))), where=where)
  if dtype is not None:
    c.same(rule, con + " dtype", mk("str", str(dt)), mk("str", dtype), where=where)
  if len(flat) == len(entries):
    c.same(rule, con + " entries", mk("tuple", *flat), mk("tuple", *entries), where=where)


class Overrides:
  """Models of NumPy on host arrays and of SciPy's routines, for the duration of a rule."""

  def __init__(self, h):
    self.h, self.saved, self.calls = h, {}, []

  def set(self, name, f):
    self.saved.setdefault(name, models.MODELS.get(name))
    models.MODELS[name] = f

  def __enter__(self):
    h, I = self.h, self.h.I
    fn = lambda n: I.fn("spec.nd", n)

    def host(name, spec, first=0):
      old = models.MODELS.get(name) or models.MODELS.get("jax." + name)

      def f(I, a, k):
        if self.has_nd(a):
          k = {x: v for x, v in k.items() if x not in ("copy",)}
          return I.call(fn(spec), list(a), k) if isinstance(spec, str) else spec(I, a, k)
        return old(I, a, k) if old else models.generic(I, name, a, k)
      self.set(name, f)
    for n in ("numpy", "jax.numpy"):
      host(n + ".asarray", "asarray")
      host(n + ".array", "asarray")
      for m in ("concatenate", "hstack", "vstack"):
        host(f"{n}.{m}", m)
      host(n + ".split", "split")
      host(n + ".block", "block")
      host(n + ".ravel", lambda I, a, k: I.call(I.getattr(a[0], "ravel"), [], {}))
      host(n + ".reshape", lambda I, a, k: I.call(I.getattr(a[0], "reshape"), list(a[1:]) + list(k.values()), {}))
      host(n + ".shape", lambda I, a, k: I.getattr(a[0], "shape"))
      host(n + ".size", lambda I, a, k: I.getattr(a[0], "size"))
      host(n + ".isscalar", lambda I, a, k: False)
    for n in ("prod", "cumsum"):
      old = models.MODELS.get("numpy." + n) or models.MODELS.get("jax.numpy." + n)
      self.set("numpy." + n, self.static(n, old))
    old_leaves = models.MODELS["jax.tree_util.tree_leaves"]

    def tree_leaves(I, a, k):
      return I.newlist(models.raw_leaves(I, a[0])) if self.nested(a[0]) else old_leaves(I, a, k)
    for n in ("jax.tree_util.tree_leaves", "jax.tree.leaves", "jax.tree_leaves"):
      self.set(n, tree_leaves)
    self.set("jax.jacrev", self.jacobian)
    self.set("jax.jacfwd", self.jacobian)
    self.set("scipy.optimize.Bounds", lambda I, a, k: self.bounds(a, k))
    return self

  def static(self, n, old):
    def f(I, a, k):
      xs = I.iterate_static(a[0]) if hasattr(I, "iterate_static") else None
      xs = a[0]
      if isinstance(xs, I_.Ref) and xs.kind == "list":
        xs = tuple(I.heap[xs.id])
      if isinstance(xs, tuple) and all(isinstance(v, int) for v in xs):
        return I.call(I.fn("spec.nd", n), [xs], {})
      return old(I, a, k) if old else models.generic(I, "numpy." + n, a, k)
    return f

  def __exit__(self, *e):
    for n, f in self.saved.items():
      if f is None:
        models.MODELS.pop(n, None)
      else:
        models.MODELS[n] = f

  def nested(self, t):
    """Is this a tree of host arrays?"""
    ls = models.raw_leaves(self.h.I, t)
    return bool(ls) and all(self.h.is_nd(x) for x in ls)

  def has_nd(self, a):
    def go(x):
      if self.h.is_nd(x):
        return True
      if isinstance(x, tuple):
        return any(go(v) for v in x)
      if isinstance(x, I_.Ref) and x.kind == "list":
        return any(go(v) for v in self.h.I.heap[x.id])
      return False
    return any(go(x) for x in a)

  def bounds(self, a, k):
    d = dict(zip(["lb", "ub", "keep_feasible"], a))
    d.update(k)
    return ("Bounds", d.get("lb"), d.get("ub"))

  def jacobian(self, I, a, k):
    """Blocks of partial derivatives of every output leaf by every leaf of the first argument."""
    f = a[0]
    aux = k.get("has_aux", False) or False

    def jac(I, xs, kw):
      out = I.call(f, list(xs), dict(kw))
      rest = None
      if aux:
        out, rest = I.unpack_values(out, 2)
      r = self.over(out, lambda o: self.over(xs[0], lambda x: self.block(o, x)))
      return (r, rest) if aux else r
    return PyFn("jac", jac)

  def over(self, tree, f):
    I = self.h.I
    if isinstance(tree, tuple):
      return tuple(self.over(v, f) for v in tree)
    if isinstance(tree, I_.Ref) and tree.kind == "list":
      return I.newlist([self.over(v, f) for v in I.heap[tree.id]])
    if isinstance(tree, I_.Ref) and tree.kind == "dict":
      return I.newdict({k: self.over(v, f) for k, v in I.heap[tree.id].items()})
    if not self.h.is_nd(tree):
      raise Decode(f"derivative of {tree}")
    return f(tree)

  def block(self, o, x):
    fo, so, dt = self.h.parts(o)
    fx, sx, _ = self.h.parts(x)
    return self.h.nd([mk("partial", p, q) for p in fo for q in fx], so + sx, dt)


def tree_entries(h, x):
  """All entries of a tree of host arrays, in leaf order."""
  I = h.I
  if h.is_nd(x):
    return h.parts(x)[0]
  if isinstance(x, tuple):
    return [e for v in x for e in tree_entries(h, v)]
  if isinstance(x, I_.Ref) and x.kind == "dict":
    p = I.heap[x.id]
    return [e for k in sorted(p) for e in tree_entries(h, p[k])]
  if isinstance(x, I_.Ref) and x.kind == "list":
    return [e for v in I.heap[x.id] for e in tree_entries(h, v)]
  raise Decode(f"not a tree of arrays: {str(x)[:60]}")


def user(h, name, out, aux=False, grad=False):
  """The user's function: unknown entries that depend on every argument."""
  def f(I, a, k):
    xs = tree_entries(h, a[0])
    rest = [I.lift(v) for v in a[1:]] + [mk("kw", n, I.lift(v)) for n, v in sorted(k.items())]
    app = lambda n, i: mk("app", fnsym(n), tm.num(i), *xs, *rest)
    if grad:
      g = h.make(out, lambda leaf, i: mk("app", fnsym(name + "'" + leaf), tm.num(i), *xs, *rest))
      v = app(name, 0)
      return ((v, app(name + "_aux", 0)) if aux else v, g)
    r = h.make(out, lambda leaf, i: mk("app", fnsym(name + "." + leaf), tm.num(i), *xs, *rest), F64)
    return (r, app(name + "_aux", 0)) if aux else r
  return PyFn(name, f)


def entry(name, leaf, k, xs, rest, g=True):
  return mk("app", fnsym(name + ("'" if g else ".") + leaf), tm.num(k), *xs, *rest)


def run(c):
  c.rule("flatten", "the vector given to SciPy holds every leaf's entries row by row in leaf order, with the configured dtype")
  c.rule("rebuild", "the vector coming back becomes the tree of the initial parameters: structure, shapes, dtypes, entries")
  c.rule("value", "SciPy is given the user's function at the rebuilt point with the caller's arguments")
  c.rule("derivative", "SciPy is given that function's derivative, laid out like the vectors")
  c.rule("options", "method, tolerance, bounds, callback and options are the user's")
  c.rule("info", "the reported information is SciPy's result")
  c.rule("loss", "the robust losses are SciPy's, applied to the residuals")
  I = S.solver_interp()
  h = Host(I)
  with Overrides(h) as ov:
    for lab, t in TREES:
      minimize(c, I, h, ov, lab, t)
      root(c, I, h, ov, lab, t)
      least_squares(c, I, h, ov, lab, t)
  losses(c, S.solver_interp())
  c.absorb(I)


def result(I, h, n, fields, cls="OptimizeResult"):
  r = I.instantiate(I.cls("spec.nd", cls), [], {})
  I.setattr(r, "x", h.fresh("R", n))
  for f, v in fields.items():
    I.setattr(r, f, v)
  return r


def attempt(c, rule, con, f, where=None):
  try:
    return f(), True
  except AbsRaise as e:
    if model_limit(e) or "spec/" in str(e.where) and not str(e.exc).startswith("ValueError"):
      c.unknown(rule, con, e)
    else:
      c.bad(rule, con, f"raises {e.exc}", e.where or where)
  except AnalysisBroken:
    raise
  except Exception as e:
    c.unknown(rule, con, f"not interpreted: {type(e).__name__} {e}")
  return None, False


def recorder(ov, name, res, box):
  def f(I, a, k):
    d = dict(zip(SIGNATURE[name], a))
    d.update(k)
    box.append(d)
    return res
  ov.set("scipy.optimize." + name, f)


def bridge(I, call, n, h):
  """(value, derivative) SciPy obtains at a fresh vector X."""
  X = h.fresh("X", n)
  extra = call.get("args", ())
  extra = tuple(extra) if isinstance(extra, tuple) else ()
  jac = call.get("jac")
  out = I.call(call["fun"], [X] + list(extra), {})
  if jac is True or jac is tm.TRUE:
    v, g = I.unpack_values(out, 2)
    return v, g
  return out, (I.call(jac, [X] + list(extra), {}) if jac not in (None, False) else None)


def xs_of(t):
  n = itertools.count()
  m = {(name, k): next(n) for name, shape in leaves(t) for k in range(size(shape))}
  return lambda pre: (lambda name, k: sc(pre, m[name, k])), len(m)


def minimize(c, I, h, ov, lab, t):
  names, n = xs_of(t)
  X = [sc("X", k) for k in range(n)]
  rest = [arr("X_data"), mk("kw", "l2", opt("l2"))]
  for cls, aux, jit, dtype in (("ScipyMinimize", False, False, F64), ("ScipyMinimize", True, True, F32),
                               ("ScipyBoundedMinimize", False, True, F64), ("ScipyBoundedMinimize", True, False, F32)):
    con = f"{cls}[{lab},aux={aux},jit={jit}]"
    seen = []
    cb = PyFn("callback", lambda I, a, k: seen.append(a) or opt("cbresult"))
    o = dict(fun=user(h, "fun", t, aux, grad=True), value_and_grad=True, has_aux=aux, jit=jit, dtype=dtype,
             method=mk("sym", "static", "method"), tol=opt("tol"), maxiter=opt("maxiter"), callback=cb,
             options=I.newdict({"gtol": opt("gtol"), "disp": opt("disp")}))
    s, ok = attempt(c, "options", con, lambda: I.instantiate(S.public(I, cls), [], o))
    if not ok:
      continue
    where = where_of(I.getattr(s, "_run"))
    init = h.make(t, sc)
    lo, hi = h.make(t, lambda a, k: sc("lo." + a, k)), h.make(t, lambda a, k: sc("hi." + a, k))
    variants = {"plain": {}, "ndarray": {"hess_inv": h.fresh("H", 4)},
                "lbfgs": {"hess_inv": I.instantiate(I.cls("spec.nd", "LbfgsInvHessProduct"),
                                                    [ranked("sk", 2), ranked("yk", 2)], {})}}
    for v, more in variants.items():
      info = {f: mk("sym", "sc", "res_" + f) for f in ("fun", "success", "status", "nit", "nfev", "njev")}
      if v == "plain":
        info["nhev"] = mk("sym", "sc", "res_nhev")
      res = result(I, h, n, {**info, **more})
      box = []
      recorder(ov, "minimize", res, box)
      args = [init] + ([(lo, hi)] if cls == "ScipyBoundedMinimize" else []) + [arr("X_data")]
      out, ok = attempt(c, "rebuild", f"{con} {v}", lambda: I.call(I.getattr(s, "run"), args, {"l2": opt("l2")}), where)
      if not ok or len(box) != 1:
        continue
      params, inf = I.unpack_values(out, 2)
      want = {"fun_val": info["fun"], "success": info["success"], "status": info["status"], "iter_num": info["nit"],
              "num_fun_eval": info["nfev"], "num_jac_eval": info["njev"], "num_hess_eval": info.get("nhev", tm.ZERO)}
      infos(c, I, f"{con} {v}", inf, want, where)
      hess(c, I, h, f"{con} {v}", inf, v, where)
      if v != "plain":
        continue
      d = box[0]
      same_tree(c, "rebuild", con + " params", h, params, t, names("R"), where)
      same_array(c, "flatten", con + " x0", h, d.get("x0"), flat_entries(t, sc), (n,), where, dtype)
      for k, w in (("method", o["method"]), ("tol", o["tol"])):
        c.same("options", f"{con} {k}", I.lift(d.get(k)), w, where=where)
      opts = d.get("options")
      given = I.heap[opts.id] if isinstance(opts, I_.Ref) and opts.kind == "dict" else None
      if given is not None:
        for k, w in (("gtol", opt("gtol")), ("disp", opt("disp")), ("maxiter", opt("maxiter"))):
          c.same("options", f"{con} options.{k}", I.lift(given.get(k)), w, where=where)
      b = d.get("bounds")
      if cls == "ScipyMinimize":
        c.same("options", f"{con} bounds", I.lift(b), I_.NONE_T, where=where)
      elif isinstance(b, tuple) and len(b) == 3 and b[0] == "Bounds":
        for side, x, pre in (("lower", b[1], "lo."), ("upper", b[2], "hi.")):
          same_array(c, "options", f"{con} {side} bound", h, x, flat_entries(t, lambda a, k: sc(pre + a, k)), (n,), where, dtype)
      vg, ok = attempt(c, "value", con, lambda: bridge(I, d, n, h), where)
      if ok:
        c.same("value", f"{con} fun", I.lift(vg[0]), mk("app", fnsym("fun"), tm.ZERO, *X, *rest), where=where)
        if vg[1] is not None:
          same_array(c, "derivative", f"{con} grad", h, vg[1], flat_entries(t, lambda a, k: entry("fun", a, k, X, rest)), (n,),
                     where, dtype)
      if d.get("callback") is not None:
        r, ok = attempt(c, "options", con + " callback", lambda: I.call(d["callback"], [h.fresh("X", n)], {}), where)
        if ok and seen:
          same_tree(c, "options", con + " callback", h, seen[-1][0], t, names("X"), where)
          c.same("options", con + " callback result", I.lift(r), opt("cbresult"), where=where)
      else:
        c.bad("options", con + " callback", "the callback is not passed on", where)


def infos(c, I, con, inf, want, where):
  for f, w in want.items():
    if isinstance(inf, Rec) and f in inf.vals:
      x = I.lift(inf.vals[f])
      # everything SciPy's result has is there to be read
      x = tm.subst_bool(x, {t: False for t in tm.deps(x) if t.op == "raised"})
      c.same("info", f"{con} {f}", x, w, where=where)
    else:
      c.unknown("info", f"{con} {f}", "no such entry")


def hess(c, I, h, con, inf, variant, where):
  x = inf.vals.get("hess_inv") if isinstance(inf, Rec) else None
  if variant == "plain":
    c.same("info", con + " hess_inv", I.lift(x), I_.NONE_T, where=where)
  elif variant == "ndarray":
    same_array(c, "info", con + " hess_inv", h, x, [sc("H", k) for k in range(4)], (4,), where, None)
  elif isinstance(x, I_.Ref) and x.kind == "obj":
    p = I.heap[x.id]
    for f in ("sk", "yk"):
      c.same("info", f"{con} hess_inv.{f}", I.lift(p.get(f)), ranked(f, 2), where=where)


def root(c, I, h, ov, lab, t):
  names, n = xs_of(t)
  X = [sc("X", k) for k in range(n)]
  rest = [arr("X_data"), mk("kw", "l2", opt("l2"))]
  for aux, jit, rev, kind in ((False, False, True, "result"), (True, True, False, "result"), (False, True, False, "scalar")):
    con = f"ScipyRootFinding[{lab},aux={aux},jacrev={rev},{kind}]"
    o = dict(optimality_fun=user(h, "F", t, aux), has_aux=aux, jit=jit, dtype=F64, use_jacrev=rev,
             method=mk("sym", "static", "method"), tol=opt("tol"), options=I.newdict({"xtol": opt("xtol")}))
    s, ok = attempt(c, "options", con, lambda: I.instantiate(S.public(I, "ScipyRootFinding"), [], o))
    if not ok:
      continue
    where = "jaxopt/_src/scipy_wrappers.py:ScipyRootFinding"
    init = h.make(t, sc)
    keys = ("fun", "success", "status", "nit", "nfev") if kind == "result" else ("fun", "success", "status", "iterations", "function_calls")
    info = {f: mk("sym", "sc", "res_" + f) for f in keys}
    res = result(I, h, n, info, "OptimizeResult" if kind == "result" else "RootResults")
    box = []
    recorder(ov, "root", res, box)
    out, ok = attempt(c, "rebuild", con, lambda: I.call(I.getattr(s, "run"), [init, arr("X_data")], {"l2": opt("l2")}), where)
    if not ok or len(box) != 1:
      continue
    d = box[0]
    params, inf = I.unpack_values(out, 2)
    infos(c, I, con, inf, dict(zip(("fun_val", "success", "status", "iter_num", "num_fun_eval"), (info[k] for k in keys))), where)
    same_tree(c, "rebuild", con + " params", h, params, t, names("R"), where)
    same_array(c, "flatten", con + " x0", h, d.get("x0"), flat_entries(t, sc), (n,), where)
    for k, w in (("method", o["method"]), ("tol", o["tol"])):
      c.same("options", f"{con} {k}", I.lift(d.get(k)), w, where=where)
    opts = d.get("options")
    if isinstance(opts, I_.Ref) and opts.kind == "dict":
      c.same("options", f"{con} options.xtol", I.lift(I.heap[opts.id].get("xtol")), opt("xtol"), where=where)
    vg, ok = attempt(c, "value", con, lambda: bridge(I, d, n, h), where)
    if ok:
      ys = flat_entries(t, lambda a, k: entry("F", a, k, X, rest, False))
      same_array(c, "value", con + " fun", h, vg[0], ys, (n,), where)
      if vg[1] is not None:
        same_array(c, "derivative", con + " jac", h, vg[1], [mk("partial", y, x) for y in ys for x in X], (n, n), where)


OUTPUTS = [("r", (4,)), (("r", (2,)), ("q", (2, 2)))]


def least_squares(c, I, h, ov, lab, t):
  names, n = xs_of(t)
  X = [sc("X", k) for k in range(n)]
  rest = [arr("X_data"), mk("kw", "l2", opt("l2"))]
  for cls, aux, rev, loss, dtype in (("ScipyLeastSquares", False, True, "linear", F64), ("ScipyLeastSquares", True, False, "huber", F32),
                                     ("ScipyBoundedLeastSquares", False, False, "cauchy", F32),
                                     ("ScipyBoundedLeastSquares", True, True, "soft_l1", F64)):
    for ot in OUTPUTS:
      con = f"{cls}[{lab},aux={aux},jacrev={rev},{loss},outputs={len(leaves(ot))}]"
      o = dict(fun=user(h, "res", ot, aux), has_aux=aux, jit=rev, dtype=dtype, use_jacrev=rev, loss=loss,
               method=mk("sym", "static", "method"), options=I.newdict({"ftol": opt("ftol"), "verbose": opt("verb")}))
      s, ok = attempt(c, "options", con, lambda: I.instantiate(S.public(I, cls), [], o))
      if not ok:
        continue
      where = where_of(I.getattr(s, "optimality_fun"))
      init = h.make(t, sc)
      lo, hi = h.make(t, lambda a, k: sc("lo." + a, k)), h.make(t, lambda a, k: sc("hi." + a, k))
      info = {f: mk("sym", "sc", "res_" + f) for f in ("cost", "fun", "success", "status", "nfev", "njev", "optimality")}
      res = result(I, h, n, info)
      box = []
      recorder(ov, "least_squares", res, box)
      args = [init] + ([(lo, hi)] if cls == "ScipyBoundedLeastSquares" else []) + [arr("X_data")]
      out, ok = attempt(c, "rebuild", con, lambda: I.call(I.getattr(s, "run"), args, {"l2": opt("l2")}), where)
      if not ok or len(box) != 1:
        continue
      d = box[0]
      params, inf = I.unpack_values(out, 2)
      infos(c, I, con, inf, {"cost_val": info["cost"], "fun_val": info["fun"], "success": info["success"],
                             "status": info["status"], "num_fun_eval": info["nfev"], "num_jac_eval": info["njev"],
                             "error": info["optimality"]}, where)
      same_tree(c, "rebuild", con + " params", h, params, t, names("R"), where)
      same_array(c, "flatten", con + " x0", h, d.get("x0"), flat_entries(t, sc), (n,), where, dtype)
      c.same("options", con + " method", I.lift(d.get("method")), o["method"], where=where)
      c.same("options", con + " loss", I.lift(d.get("loss")), mk("str", loss), where=where)
      for k, w in {**DEFAULT_LS, "ftol": opt("ftol"), "verbose": opt("verb")}.items():
        c.same("options", f"{con} {k}", I.lift(d.get(k)), I.lift(w), where=where)
      b = d.get("bounds")
      if isinstance(b, tuple) and len(b) == 2:
        if cls == "ScipyLeastSquares":
          c.same("options", con + " bounds", I.lift(b), mk("tuple", tm.neg(tm.INF), tm.INF), where=where)
        else:
          for side, x, pre in (("lower", b[0], "lo."), ("upper", b[1], "hi.")):
            same_array(c, "options", f"{con} {side} bound", h, x, flat_entries(t, lambda a, k: sc(pre + a, k)), (n,), where, dtype)
      vg, ok = attempt(c, "value", con, lambda: bridge(I, d, n, h), where)
      if ok:
        ys = flat_entries(ot, lambda a, k: entry("res", a, k, X, rest, False))
        same_array(c, "value", con + " fun", h, vg[0], ys, (len(ys),), where, dtype)
        if vg[1] is not None:
          same_array(c, "derivative", con + " jac", h, vg[1], [mk("partial", y, x) for y in ys for x in X], (len(ys), n), where, dtype)


def losses(c, I):
  """The gradient of the documented robust cost."""
  from . import p08
  ref = I.module("spec.optimality")
  for cls, fn in (("ScipyLeastSquares", "robust"), ("ScipyBoundedLeastSquares", "robust_box")):
    for loss in ("linear", "soft_l1", "huber", "cauchy", "arctan"):
      con = f"{cls}[{loss}]"
      o = {"fun": S.U("res"), "has_aux": False, "loss": loss, "options": I.newdict({"f_scale": 0.5})}
      s, ok = attempt(c, "loss", con, lambda: I.instantiate(S.public(I, cls), [], dict(o, jit=False)))
      if not ok:
        continue
      where = where_of(I.getattr(s, "optimality_fun"))
      extra = [(arr("lb"), arr("ub"))] if fn == "robust_box" else []
      args = [ranked("w", 1)] + extra + [arr("X")]
      got, ok = attempt(c, "loss", con, lambda: I.call(I.getattr(s, "optimality_fun"), args, {"l2": opt("l2")}), where)
      if ok:
        F = I.call(ref.frame.vars[fn], [I.newdict(dict(fun=S.U("res"), has_aux=False, loss=loss, f_scale=0.5))], {})
        want = I.call(F, args, {"l2": opt("l2")})
        p08.signed(c, I, "loss", con, got, want, where, True)
