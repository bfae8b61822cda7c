"""Equality of value-flow terms.

Two terms are equal when their normal forms coincide, or when they agree under
random interpretations (Gulwani & Necula's random interpretation, an abstract
interpretation for global value numbering): symbols get random elements of
K^2, elementwise operators act componentwise, reductions are random linear
functionals, matrix products random bilinear maps, unknown operators random
functions.  A pair is reported as different only if some interpretation
separates it and every operator involved is modelled.
"""
import cmath
import hashlib
import math
from fractions import Fraction

from . import terms as tm
from .terms import T, mk

LOOSE = {"lam", "vmap"}
COMPLEX_OPS = {"conj", "real", "imag"}


def h(*xs):
  d = hashlib.md5("\x01".join(str(x) for x in xs).encode()).digest()
  return int.from_bytes(d[:8], "big") / 2.0 ** 64


def rnd(v):
  """Rounded key of a value."""
  out = []
  for c in v:
    c = complex(c)
    out.append(_r(c.real) + "," + _r(c.imag))
  return "|".join(out)


def _r(x):
  if x != x:
    return "nan"
  if x in (float("inf"), float("-inf")):
    return str(x)
  if abs(x) < 1e-9:
    return "0"
  return f"{x:.6e}"


CAP = 9
BINDERS = {"bv": 0, "vel": 0, "lv": 0, "idx": 0, "elem": 1}
_LEVELS = {}


class Capped(Exception):
  pass


def levels(t):
  """Levels of the bound variables occurring in a term."""
  r = _LEVELS.get(t)
  if r is None:
    r = frozenset()
    for x in tm.children(t):
      r |= levels(x)
    if t.op in BINDERS:
      r |= {t.args[BINDERS[t.op]]}
    _LEVELS[t] = r
  return r


def boundaries(t):
  """Differences whose sign a term tests, up to scaling (none for integer counters)."""
  out = set()
  for x in tm.deps(t) | {t}:
    if isinstance(x, T) and x.op in ("pos", "nonneg", "eq") and x.args and isinstance(x.args[0], T):
      d = x.args[0]
      if d.op == "poly" and d.args[0]:
        ms = sorted(d.args[0], key=lambda mc: repr([(tm.skey(y), str(e)) for y, e in mc[0]]))
        c0 = ms[0][1]
        out.add(tuple((m, c / c0) for m, c in ms))
      else:
        out.add(((((d, 1),), 1),))
  return out


def thresholds(a, b):
  """{symbol: constants} one of the terms compares a symbol with and the other does not."""
  out = {}
  for d in boundaries(a) ^ boundaries(b):
    if len(d) == 2:
      cs = [c for m, c in d if m == ()]
      ms = [(m, c) for m, c in d if m != ()]
      if len(cs) == 1 and len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
        v = ms[0][0][0][0]
        if isinstance(v, T) and v.op == "sym":
          out.setdefault(tm.skey(v), []).append(float(-cs[0] / ms[0][1]))
        elif isinstance(v, T) and v.op == "exp" and isinstance(v.args[0], T) and v.args[0].op == "sym" and -cs[0] / ms[0][1] > 0:
          out.setdefault(tm.skey(v.args[0]), []).append(("log", float(-cs[0] / ms[0][1])))
  return out


class Eval:
  def __init__(self, seed, cplx=False, posit=False, facts=None):
    self.seed, self.cplx, self.posit = seed, cplx, posit
    self.noties = False
    self.exact = False
    self.mixed = seed >= 20    # magnitudes that differ from symbol to symbol
    self.crit = {}
    self.memo = {}
    self.scale = [1.0, 0.3, 3.0, 0.05, 10.0][seed % 5]
    self.facts = facts or {}
    self.env = {}
    self.envmemo = {}
    self.depth = 0

  def under(self, binding, f):
    """Evaluate f with more variables bound."""
    env, memo, depth = self.env, self.envmemo, self.depth
    self.env, self.envmemo, self.depth = {**env, **binding}, {}, depth + 1
    try:
      return f()
    finally:
      self.env, self.envmemo, self.depth = env, memo, depth

  def own_level(self, ts):
    """Level bound by a binder over these bodies."""
    ls = [l for t in ts for l in levels(t) if l not in self.env]
    return min(ls) if ls else None

  def const(self, c):
    return (c, c)

  def var(self, key, scalar=False, real=True):
    def one(i):
      x = 2 * h(self.seed, "v", key, i) - 1
      if self.posit:
        x = abs(x) + 0.05
      sc = self.scale
      if self.mixed:
        sc = (0.03, 0.15, 0.6, 1.0, 4.0, 25.0)[int(6 * h(self.seed, "sc", key))]
        if scalar and key in self.crit and h(self.seed, "cr", key) < 0.7:
          cs = self.crit[key]
          c = cs[int(len(cs) * h(self.seed, "cw", key))]
          f = (0.3, 0.6, 0.9, 0.999, 1.001, 1.1, 1.7, 3.0)[int(8 * h(self.seed, "cf", key))]
          return math.log(c[1] * f) if isinstance(c, tuple) else c * f
        if self.crit and h(self.seed, "ca", key) < 0.5:   # near a tested constant
          cs = sorted(c[1] if isinstance(c, tuple) else abs(c) for l in self.crit.values() for c in l)
          sc = (0.4, 0.7, 1.0, 1.6)[int(4 * h(self.seed, "cb", key))] * cs[int(len(cs) * h(self.seed, "cd", key))] or sc
      x *= sc
      if self.cplx and not real:
        return complex(x, 2 * h(self.seed, "im", key, i) - 1)
      return x
    if scalar:
      return self.const(one(0))
    return (one(0), one(1))

  def un(self, f, a):
    out = []
    for x in a:
      try:
        out.append(f(x))
      except (ValueError, OverflowError, ZeroDivisionError):
        out.append(float("nan"))
    return tuple(out)

  def ev(self, t):
    memo = self.envmemo if self.env and levels(t) else self.memo
    r = memo.get(t)
    if r is None:
      r = self.facts.get(t)
      if r is None:
        r = self._ev(t)
      else:
        r = self.const(1.0 if r else 0.0)
      memo[t] = r
    return r

  # --- binders ------------------------------------------------------------
  def bound(self, t):
    op, a = t.op, t.args
    b = self.env.get(a[1] if op == "elem" else a[0])
    if op in ("bv", "vel"):
      if b is not None and b[0] == "lam":
        return self.var(repr((op, b[1], a[1])), tm.is_global(t), False)
    elif b is not None and b[0] == "loop":
      if op == "idx":
        return self.const(float(b[2]))
      if op == "elem":
        return self.element(a[0], b[2])
      if op == "lv":
        v = b[1].get(a[1])
        if v is not None:
          return v
    if op == "elem":
      return self.hashv("elem", self.key(a[0]), a[1])
    return self.var(repr(tm.skey(t) if op not in ("bv", "vel") else (op,) + a[:2]), tm.is_global(t), False)

  def element(self, xs, k):
    if xs.op == "arange":
      lo = 0.0 if len(xs.args) == 1 else _re(self.ev(xs.args[0])[0])
      return self.const(lo + k)
    if xs.op in ("stack", "arr", "tuple") and k < len(xs.args):
      return self.ev(xs.args[k])
    return self.itemv(self.ev(xs), self.key(tm.num(k)))

  def itemv(self, x, i):
    j = int(h(self.seed, "item", repr(i)) * 4)
    return [(x[0], x[0]), (x[1], x[1]), x, (x[1], x[0])][j]

  def loop(self, t):
    """Final values of the carried leaves (and the values stacked by a scan)."""
    key = ("loop", t)
    memo = self.envmemo if self.env and levels(t) else self.memo
    if key in memo:
      return memo[key]
    op, a = t.op, t.args
    cond, bodies, inits, names = a[0], a[1], a[2], a[-1].args[1:]
    extra = a[3:-1]
    lvl = a[-1].args[0]
    vals = {n: self.ev(i) for n, i in zip(names, inits)}
    if op == "while":
      n = _re(self.ev(extra[0])[0]) if extra else None
      steps = range(CAP + 1) if n is None or n > CAP else range(max(0, math.ceil(n)))
    elif op == "fori":
      lo, hi = _re(self.ev(extra[0])[0]), _re(self.ev(extra[1])[0])
      steps = range(int(lo), min(math.ceil(hi), int(lo) + CAP + 1))
    else:
      n = self.length(extra[0], extra[1])
      steps = range(min(n, CAP + 1))
      if isinstance(extra[2], T) and extra[2] is tm.TRUE:
        steps = reversed(steps)
    ys = []
    for cnt, k in enumerate(steps):
      if cnt >= CAP:
        raise Capped()
      b = {lvl: ("loop", vals, k)}
      if op == "while" and not self.under(b, lambda: self.truth(self.ev(cond))[0]):
        break
      new = self.under(b, lambda: [self.ev(x) for x in bodies])
      ys.append((b, k))
      vals = dict(zip(names, new))
    r = ([vals[n] for n in names], ys)
    memo[key] = r
    return r

  def length(self, xs, n):
    if n.op != "none":
      return max(0, int(_re(self.ev(n)[0])))
    if xs.op == "arange":
      c = [_re(self.ev(x)[0]) for x in xs.args]
      return max(0, math.ceil(c[0] if len(c) == 1 else c[1] - c[0]))
    if xs.op in ("stack", "tuple"):
      return len(xs.args)
    return 2 + int(2 * h(self.seed, "len", repr(self.key(xs))))

  def zero(self, v):
    """Is this difference deemed exactly zero in this interpretation?"""
    if self.noties:
      return False
    # the decision is invariant under positive rescaling of the difference
    m = max(abs(v[0]), abs(v[1]))
    if not (0 < m < 1e200) or abs(v[0] - v[1]) <= 1e-9 * m:
      return self.seed % 5 == 4
    key = rnd((abs(v[0]) / m, abs(v[1]) / m))
    return h(self.seed, "zero", key) < 0.2

  def _ev(self, t):
    op, a = t.op, t.args
    if op == "poly":
      res = (0.0, 0.0)
      for m, c in a[0]:
        term = self.const(float(c))
        for x, e in m:
          xv = self.ev(x)
          ef = int(e) if e.denominator == 1 else float(e)
          pv = self.un(lambda y: _pow(y, ef), xv)
          term = (_m(term[0], pv[0]), _m(term[1], pv[1]))
        res = (res[0] + term[0], res[1] + term[1])
      return res
    if op == "const":
      return self.const({"inf": float("inf"), "nan": float("nan"), "pi": math.pi}.get(a[0], 0.5))
    if op == "bool":
      return self.const(1.0 if a[0] else 0.0)
    if op == "sym":
      real = a[0] not in ("arr",) or a[0] == "real"
      if a[0] == "boolopt":
        return self.hashb("sym", tm.skey(t))
      scalar = a[0] in ("opt", "cnt", "sc")
      if a[0] == "cnt":
        return self.const(float(int(h(self.seed, "cnt", tm.skey(t)) * 8)))
      return self.var(tm.skey(t), scalar, real)
    if op in ("st", "lv", "lsf", "out") and isinstance(a[-1], str) and counter(a[-1]) and not (op == "lv" and a[0] in self.env):
      return self.const(float(int(h(self.seed, "cnt", repr([self.key(x) for x in a])) * 8)))
    if op in ("bv", "vel", "elem", "lv", "idx"):
      return self.bound(t)
    if op in ("dim", "size"):
      return self.const(float(2 + int(3 * h(self.seed, op, repr([self.key(x) for x in a])))))
    if op in ("lam", "vmap"):
      bodies = [x for x in a[:2] if isinstance(x, T)][:1]
      lvl = self.own_level(bodies)
      b = {lvl: ("lam", self.depth)} if lvl is not None else {}
      v = self.under(b, lambda: rnd(self.ev(bodies[0])))
      rest = [self.key(x) for x in (a[1:] if op == "vmap" else a[:1])]
      return self.hashv(op, v, *rest)
    if op in ("while", "fori", "scan"):
      return self.hashv("tuple", *[rnd(v) for v in self.loop(t)[0]])
    if op == "scanys":
      loops = [a[1]] if a[1].op == "scan" else [x for x in tm.deps(a[1]) if x.op == "scan"]
      w = [x for x in loops if x.args[3:-1] == a[2:]]
      if len(w) == 1:
        ys = [self.under(b, lambda: rnd(self.ev(a[0]))) for b, _ in self.loop(w[0])[1]]
        return self.hashv("stack", *ys)
    if op == "names":
      return self.const(0.0)
    if op in ("not", "and", "or"):
      vs = [self.truth(self.ev(x)) for x in a]
      if op == "not":
        return self.b2(tuple(not x for x in vs[0]))
      f = all if op == "and" else any
      return self.b2((f(v[0] for v in vs), f(v[1] for v in vs)))
    if op in ("pos", "nonneg", "eq"):
      v = self.ev(a[0])
      if all(_isint(x) for x in v):
        v = tuple(float(round(_re(x))) for x in v)
      elif self.zero(v):
        return self.const(0.0 if op == "pos" else 1.0)
      elif self.exact:
        v = tuple(0.0 if not isinstance(x, complex) and abs(x) < 1e-9 else x for x in v)
      if op == "eq":
        return self.b2(tuple(abs(x) < 1e-12 for x in v))
      return self.b2(tuple(_re(x) > 0 if op == "pos" else _re(x) >= 0 for x in v))
    if op == "eqv":
      x, y = self.ev(a[0]), self.ev(a[1])
      if tm.is_boolish(a[0]) and tm.is_boolish(a[1]):
        return self.b2(tuple(p == q for p, q in zip(self.truth(x), self.truth(y))))
      return self.hashb(op, x, y) if rnd(x) != rnd(y) else self.const(1.0)
    if op == "ite":
      c = self.truth(self.ev(a[0]))
      if c[0] and c[1]:
        return self.ev(a[1])
      if not c[0] and not c[1]:
        return self.ev(a[2])
      x, y = self.ev(a[1]), self.ev(a[2])
      return (x[0] if c[0] else y[0], x[1] if c[1] else y[1])
    if op == "truthy":
      if a[0].op in ("poly", "max", "min", "ite", "abs", "softmax"):
        return self.b2(tuple(abs(x) > 1e-12 for x in self.ev(a[0])))
      v = self.ev(a[0])
      if all(x == 0 or x == 1 for x in v) or a[0].op == "lv" and a[0].args[0] in self.env:
        return self.b2(tuple(abs(x) > 1e-12 for x in v))
      return self.const(1.0 if h(self.seed, op, repr(self.key(a[0]))) < 0.5 else 0.0)
    if op in ("allr", "anyr") and len(a) == 1:
      v = self.truth(self.ev(a[0]))
      return self.const(1.0 if (all(v) if op == "allr" else any(v)) else 0.0)
    if op in ("max", "min"):
      vs = [self.ev(x) for x in a]
      f = max if op == "max" else min
      return tuple(f((v[i] for v in vs), key=_re) for i in (0, 1))
    if op == "abs":
      return self.un(abs, self.ev(a[0]))
    if op == "sign":
      return self.un(lambda x: (x > 0) - (x < 0) if not isinstance(x, complex) else (x / abs(x) if x else 0), self.ev(a[0]))
    if op == "conj":
      return self.un(lambda x: x.conjugate(), self.ev(a[0]))
    if op == "real":
      return self.un(_re, self.ev(a[0]))
    if op == "imag":
      return self.un(lambda x: x.imag if isinstance(x, complex) else 0.0, self.ev(a[0]))
    if op == "exp":
      return self.un(lambda x: cmath.exp(x) if isinstance(x, complex) else math.exp(x), self.ev(a[0]))
    if op == "log":
      return self.un(lambda x: cmath.log(x) if isinstance(x, complex) or x < 0 else math.log(x), self.ev(a[0]))
    if op == "log1p":
      return self.un(lambda x: cmath.log(1 + x) if isinstance(x, complex) or x <= -1 else math.log(1 + x), self.ev(a[0]))
    if op == "expm1":
      return self.un(lambda x: cmath.exp(x) - 1, self.ev(a[0]))
    if op == "sigmoid":
      return self.un(lambda x: 1 / (1 + cmath.exp(-x)) if isinstance(x, complex) else 1 / (1 + math.exp(-x)), self.ev(a[0]))
    if op == "tanh":
      return self.un(lambda x: cmath.tanh(x) if isinstance(x, complex) else math.tanh(x), self.ev(a[0]))
    if op == "logaddexp":
      x, y = self.ev(a[0]), self.ev(a[1])
      return tuple(_logc(_exp(p) + _exp(q)) for p, q in zip(x, y))
    if op in UNARY and len(a) == 1:
      return self.un(UNARY[op], self.ev(a[0]))
    if op in ("mod", "floordiv") and len(a) == 2:
      x, y = self.ev(a[0]), self.ev(a[1])
      if all(_isint(v) for v in x + y) and all(abs(v) > 0.5 for v in y):
        f = (lambda p, q: float(round(_re(p)) % round(_re(q)))) if op == "mod" else (lambda p, q: float(round(_re(p)) // round(_re(q))))
        return tuple(f(p, q) for p, q in zip(x, y))
    if op == "logsumexp":
      e = self.un(_exp, self.ev(a[0]))
      return self.un(_logc, self.reduce(t, "sum", e, a[1:]))
    if op == "softmax":
      e = self.un(_exp, self.ev(a[0]))
      k = repr([] if rank1(a[0]) else [self.key(o) for o in a[1:]])
      w = [0.3 + h(self.seed, "sum", k, i) for i in (0, 1)]
      z = _m(w[0], e[0]) + _m(w[1], e[1])
      return self.un(lambda v: v / z if z else float("inf"), e)
    if op == "arange" and len(a) in (1, 2):
      lo = 0.0 if len(a) == 1 else _re(self.ev(a[0])[0])
      return (lo, lo + 1.0)
    if op == "sort" and len(a) == 1 and rank1(a[0]):
      return tuple(sorted(self.ev(a[0]), key=_re))
    if op == "item" and isinstance(a[1], T) and a[1].op == "slice" and rank1(a[0]) and a[1].args[0].op == "none" and a[1].args[1].op == "none" \
        and tm.const_of(a[1].args[2]) == -1:
      x = self.ev(a[0])
      return (x[1], x[0])
    if op == "onehot":
      j, w = self.pick(a[0]), [0.3 + h(self.seed, "sum", repr([]), i) for i in (0, 1)]
      return (1 / w[0], 0.0) if j == 0 else (0.0, 1 / w[1])
    if op == "cumsum":
      x = self.ev(a[0])
      w = [0.3 + h(self.seed, "sum", repr([]), i) for i in (0, 1)]
      return (_m(w[0], x[0]), _m(w[0], x[0]) + _m(w[1], x[1]))
    if op == "at_set" and len(a) == 3 and rank1(a[0]) and scalar_index(a[1]):
      x, j, v = self.ev(a[0]), self.pick(a[1]), self.ev(a[2])
      return (v[0], x[1]) if j == 0 else (x[0], v[0])
    if op == "eps":
      return self.const(1e-13)
    if op == "pow":
      x, y = self.ev(a[0]), self.ev(a[1])
      return tuple(_pow(p, q) for p, q in zip(x, y))
    if op in ("sum", "treesum", "mean", "pysum"):
      return self.reduce(t, op, self.ev(a[0]), a[1:])
    if op in ("maxr", "minr") and len(a) == 1:
      x = self.ev(a[0])
      f = max if op == "maxr" else min
      return self.const(f(x, key=_re))
    if op in ("matmul", "outer"):
      x, y = self.ev(a[0]), self.ev(a[1])
      p, q = self.lin(op + "l", x), self.lin(op + "r", y)
      return (_m(p[0], q[0]), _m(p[1], q[1]))
    if op == "transpose":
      x = self.ev(a[0])
      return (x[1], x[0])
    if op == "item" and isinstance(a[1], T):
      if a[0].op in ("while", "fori", "scan"):
        c = tm.const_of(a[1])
        if c is not None and c < len(a[0].args[1]):
          return self.loop(a[0])[0][int(c)]
      x = self.ev(a[0])
      i = self.key(a[1])
      if rank1(a[0]) and scalar_index(a[1]):
        return self.const(x[self.pick(a[1])])
      if a[0].op in ("app", "tuple", "next"):
        v = self.hashv("item", x, i)
        return self.const(v[0]) if a[0].op != "tuple" and tm.is_global(t) else v
      return self.itemv(x, i)
    if op in ("jvp",):
      # linear in the tangent
      base = repr([self.key(x) for x in a[:2]])
      r = (0.0, 0.0)
      for i, tg in enumerate(a[2]):
        p = self.linstruct("jvp" + base + str(i), tg)
        r = (r[0] + p[0], r[1] + p[1])
      return r
    if op == "vjp":
      base = repr([self.key(x) for x in (a[0], a[1], a[3])])
      return self.linstruct("vjp" + base, a[2])
    if op == "lintrans":
      return self.linstruct("lt" + repr(self.key(a[0])) + str(a[2]), a[1])
    if op in ("ravel", "reshape", "squeeze", "expand_dims") and False:
      return self.ev(a[0])
    if tm.is_boolish(t) or bool_value(t):
      return self.hashb(op, *[self.key(x) for x in a])
    r = self.hashv(op, *[self.key(x) for x in a])
    if op not in ("tuple", "kv", "kw") and tm.is_global(t):
      return self.const(r[0])
    if self.cplx and op in ("grad", "gradi", "app"):
      k = repr([self.key(x) for x in a])
      return tuple(complex(x, 2 * h(self.seed, "im", op, k, i) - 1) for i, x in enumerate(r))
    return r

  def reduce(self, t, op, x, opts):
    k = repr([self.key(o) for o in opts])
    w = [0.3 + h(self.seed, op, k, i) for i in (0, 1)]
    r = _m(w[0], x[0]) + _m(w[1], x[1])
    if len(opts) > 0 and tm.is_global(t) is False:
      r2 = _m(w[1] + 0.1, x[0]) + _m(w[0], x[1])
      return (r, r2)
    return self.const(r)

  def pick(self, i):
    """Component selected by a scalar index into a vector."""
    return int(h(self.seed, "pick", repr(self.key(i))) * 2)

  def lin(self, name, v):
    m = [h(self.seed, name, i) + 0.2 for i in range(4)]
    return (_m(m[0], v[0]) + _m(m[1], v[1]), _m(m[2], v[0]) + _m(m[3], v[1]))

  def linstruct(self, name, t):
    """Linear map of a possibly nested tangent."""
    if t.op in ("tuple", "dict", "rec", "kv"):
      r = (0.0, 0.0)
      for i, x in enumerate(y for y in t.args if isinstance(y, T)):
        if t.op == "dict":
          i, x = str(x.args[0]), x.args[1]
        p = self.linstruct(name + "/" + str(i), x)
        r = (r[0] + p[0], r[1] + p[1])
      return r
    if t.op == "none":
      return (0.0, 0.0)
    return self.lin(name, self.ev(t))

  def key(self, x):
    if isinstance(x, T):
      if x.op in ("str", "ext", "cls", "none", "fun", "obj"):
        return (x.op,) + tuple(map(str, x.args))
      return rnd(self.ev(x))
    if isinstance(x, tuple):
      return tuple(self.key(y) for y in x)
    return repr(x)

  def hashv(self, op, *ks):
    k = repr(ks)
    return tuple((2 * h(self.seed, op, k, i) - 1) * self.scale for i in (0, 1))

  def hashb(self, op, *ks):
    return self.const(1.0 if h(self.seed, op, repr(ks)) < 0.5 else 0.0)

  def truth(self, v):
    return tuple(bool(abs(x) > 0.5) if x == x else False for x in v)

  def b2(self, bs):
    return tuple(1.0 if b else 0.0 for b in bs)


def _isint(x):
  return not isinstance(x, complex) and x == x and abs(x) < 1e6 and abs(x - round(x)) < 1e-9


def rank1(t):
  from . import models
  return models.rank(t) == 1


def scalar_index(t):
  from . import models
  return isinstance(t, T) and t.op not in ("tuple", "slice") and models.rank(t) == 0


def counter(path):
  f = path.split(".")[-1]
  return f == "iter_num" or f.startswith("num_")


UNARY = {"sin": lambda x: cmath.sin(x) if isinstance(x, complex) else math.sin(x),
         "cos": lambda x: cmath.cos(x) if isinstance(x, complex) else math.cos(x),
         "sinh": lambda x: cmath.sinh(x), "cosh": lambda x: cmath.cosh(x),
         "arctan": lambda x: cmath.atan(x) if isinstance(x, complex) else math.atan(x),
         "log2": lambda x: _logc(x) / math.log(2), "floor": lambda x: float(math.floor(_re(x))),
         "ceil": lambda x: float(math.ceil(_re(x)))}


def bool_value(t):
  from .interp import is_bool_value
  return is_bool_value(t)


def _re(x):
  x = x.real if isinstance(x, complex) else x
  return x if x == x else -1e300


def _m(a, b):
  if a == 0 or b == 0:
    return 0.0
  try:
    return a * b
  except OverflowError:
    return float("inf")


def _exp(x):
  try:
    return cmath.exp(x) if isinstance(x, complex) else math.exp(min(x, 600))
  except OverflowError:
    return float("inf")


def _logc(x):
  if x == 0:
    return float("-inf")
  if isinstance(x, complex) or x < 0:
    return cmath.log(x)
  return math.log(x)


def _pow(y, e):
  try:
    if isinstance(y, (int, float)) and y < 0 and (isinstance(e, complex) or e != int(e)):
      return complex(y) ** e
    return y ** e
  except (ZeroDivisionError, OverflowError, ValueError):
    return float("inf")


def close(x, y):
  for p, q in zip(x, y):
    if _bad(p) or _bad(q):
      if _bad(p) and _bad(q):
        continue
      return False
    if abs(p - q) > 1e-6 * (1e-3 + max(abs(p), abs(q))):
      return False
  return True


def _bad(p):
  p = complex(p)
  return p.real != p.real or p.imag != p.imag or abs(p) == float("inf") or abs(p) > 1e200


OPAQUE = ("rec_call", "approx", "opaque", "fun", "meth", "sort", "argsort", "argmax", "argmin", "concatenate",
          "reshape", "squeeze", "expand_dims", "einsum", "tensordot", "transposeax", "norm", "prod", "std", "var",
          "roll", "flip", "ravel", "searchsorted", "median", "take", "stack", "prodr", "cumprod", "attr", "next",
          "vmap", "lam", "dictget", "method")
_UNM = {}


def _is_unm(x):
  if x.op in ("at_set", "at_add") and not scalar_index(x.args[1]):
    return True
  return x.op.startswith("ext:") or x.op in OPAQUE


def unmodelled(t):
  """(unmodelled operators outside line-search summaries, summaries, operators inside them)."""
  r = _UNM.get(t)
  if r is None:
    out, runs, seen, stack = set(), set(), set(), [t]
    while stack:
      x = stack.pop()
      if x in seen:
        continue
      seen.add(x)
      if x.op == "lsrun":
        runs.add(x)
        continue
      if _is_unm(x):
        out.add(x.op if x.op not in ("fun", "meth") else x.op + str(x.args))
      stack.extend(tm.children(x))
    r = _UNM[t] = (frozenset(out), frozenset(runs))
  return r


def incomparable(a, b):
  """The two terms involve different unmodelled operators, so a difference proves nothing."""
  (ua, ra), (ub, rb) = unmodelled(a), unmodelled(b)
  if ua != ub:
    return True
  da, db = ra - rb, rb - ra
  if da and db:
    f = lambda rs: {x.op + (str(x.args) if x.op in ("fun", "meth") else "") for r in rs for x in tm.deps(r) if _is_unm(x)}
    return f(da) != f(db)
  return False


SHAPE_ONLY = ("shape", "dim", "ndim", "size", "dtype", "eps", "struct", "treedef", "isinstance", "len", "meth")
_FREE = {}


def free_syms(t, shallow=False):
  """Symbols occurring in a term; with `shallow`, not counting those whose shape alone is used."""
  r = _FREE.get((t, shallow))
  if r is None:
    out, seen, stack = set(), set(), [t]
    while stack:
      x = stack.pop()
      if x in seen or shallow and x.op in SHAPE_ONLY:
        continue
      seen.add(x)
      if x.op == "sym" and x.args[0] in ("fn", "arr", "opt"):
        out.add(x)
      stack.extend(tm.children(x))
    r = _FREE[(t, shallow)] = frozenset(out)
  return r


def depends_alone(a, b, facts, reference=False):
  """Does a's value depend on a symbol that does not occur in b at all?  Then they differ whatever b's operators mean.

  An operator without a model may swallow the dependence, except in a reference, which is written without
  such dependences: there it counts when b is modelled entirely.
  """
  extra = [x for x in free_syms(a, True) - free_syms(b) if x.args[0] == "fn"]
  if not extra or not (reference and unmodelled(b) == (frozenset(), frozenset())) and any(x.op.startswith("ext:") or x.op in ("opaque", "approx", "rec_call", "attr") for x in tm.deps(a)):
    return False
  for x in extra:
    for s in range(6):
      try:
        E, F = Eval(s, False, False, facts), Eval(s, False, False, facts)
        F.memo[x] = F.var("other" + repr(tm.skey(x)))
        if not close(E.ev(a), F.ev(a)):
          return True
      except (RecursionError, Capped):
        return False
  return False


def uses_complex(t):
  return any(x.op in COMPLEX_OPS for x in tm.deps(t))


def nonfinite(v):
  return any(_bad(p) for p in v)


def equal(a, b, facts=None, trials=20, positive=False, consistent=(), real=False):
  """'eq', 'diff' or 'undecided'."""
  st = equal_(a, b, facts, trials, positive, real)
  if st == "diff" and equal_(a, b, facts, trials, positive, real, True) == "eq":
    # they differ only where a tested difference vanishes
    if boundaries(a) != boundaries(b):
      return "undecided"
    if not tie_differs(a, b, facts, positive, real):
      return "undecided"
  return st


def tie_differs(a, b, facts, positive, real):
  """Do the terms differ where one tested difference is exactly zero, everything else being consistent?"""
  if facts:
    a, b = tm.subst_bool(a, facts), tm.subst_bool(b, facts)
  cplx = not real and (uses_complex(a) or uses_complex(b))
  for d in sorted(boundaries(a), key=lambda d: sorted(repr([(tm.skey(y), str(e)) for y, e in m] + [str(c)]) for m, c in d)):
    cands = [(m[0][0], c) for m, c in d if len(m) == 1 and m[0][1] == 1 and not levels(m[0][0])
             and not any(m[0][0] is y or m[0][0] in tm.deps(y) for m2, _ in d if m2 is not m for y, _ in m2)]
    cands.sort(key=lambda vc: (len(tm.deps(vc[0])), tm.skey(vc[0])))
    if not cands:
      return True
    v, c = cands[0]
    rest = tm.ZERO
    for m, k in d:
      if not (len(m) == 1 and m[0][0] is v):
        rest = tm.add(rest, mono(m, k))
    for s in range(8):
      E = Eval(s, cplx, positive or s % 3 == 2, facts)
      E.noties = E.exact = True
      try:
        r = E.ev(rest)
        if nonfinite(r):
          continue
        E = Eval(s, cplx, positive or s % 3 == 2, facts)
        E.noties = E.exact = True
        E.memo[v] = tuple(-x / float(c) for x in r)
        x, y = E.ev(a), E.ev(b)
      except (RecursionError, Capped):
        continue
      if nonfinite(x) and nonfinite(y):
        continue
      if not close(x, y):
        return True
  return False


def mono(m, k):
  t = tm.num(k)
  for y, e in m:
    t = tm.mul(t, tm.power(y, e))
  return t


ROW, COL = mk("sym", "cnt", "row"), mk("sym", "cnt", "column")


def generic_entry(a, b):
  """Matrices written by rows and columns are compared at a generic entry."""
  if (a.op == "at_set" or b.op == "at_set") and not (tm.rank_of(a) == 1 or tm.rank_of(b) == 1):
    if any(x.op == "at_set" and isinstance(x.args[1], T) and x.args[1].op == "tuple" for t in (a, b) for x in chain(t)):
      x, y = tm.matrix_entry(a, ROW, COL), tm.matrix_entry(b, ROW, COL)
      if x is not None and y is not None:
        return x, y
  return a, b


def chain(t):
  while t.op == "at_set":
    yield t
    t = t.args[0]


def equal_(a, b, facts=None, trials=20, positive=False, real=False, noties=False):
  if a is b:
    return "eq"
  a, b = generic_entry(a, b)
  if a is b:
    return "eq"
  if facts:
    a, b = tm.subst_bool(a, facts), tm.subst_bool(b, facts)
    if a is b:
      return "eq"
  cplx = not real and (uses_complex(a) or uses_complex(b))
  useful = 0
  crit = thresholds(a, b)
  for s in range(trials + 8 + (64 if crit else 0)):
    E = Eval(s, cplx, positive or s % 3 == 2, facts)
    E.noties = noties
    E.crit = crit
    try:
      x, y = E.ev(a), E.ev(b)
    except RecursionError:
      return "undecided"
    except Capped:
      continue
    if nonfinite(x) and nonfinite(y):
      continue
    useful += 1
    if not close(x, y):
      if incomparable(a, b):
        return "diff" if depends_alone(a, b, facts) or depends_alone(b, a, facts, True) else "undecided"
      return "diff"
  if useful == 0:
    return "undecided"
  return "eq"


def first_difference(a, b, depth=40):
  """Smallest pair of differing corresponding subterms (for the report)."""
  while depth > 0:
    depth -= 1
    if a.op != b.op or len(a.args) != len(b.args) or a.op == "poly":
      return a, b
    nxt = None
    for x, y in zip(_flat(a), _flat(b)):
      if isinstance(x, T) and isinstance(y, T) and x is not y:
        if nxt is not None:
          return a, b
        nxt = (x, y)
      elif not (isinstance(x, T) and isinstance(y, T)) and x != y:
        return a, b
    if nxt is None:
      return a, b
    a, b = nxt
  return a, b


def _flat(t):
  out = []

  def go(x):
    if isinstance(x, tuple):
      out.append(("n", len(x)))
      for y in x:
        go(y)
    else:
      out.append(x)
  for x in t.args:
    go(x)
  return out
