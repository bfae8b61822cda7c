"""Hash-consed value-flow terms with an algebraic normal form.

Two program fragments that compute the same value along any path get the same
term (global value numbering): sums, products and rational powers are kept as
polynomials with exact rational coefficients, comparisons as signs of a
difference, booleans in negation normal form, conditionals over merged
conditions.  Terms are never evaluated.
"""
from fractions import Fraction
import math

_TABLE = {}


class T:
  __slots__ = ("op", "args", "id", "_d", "__weakref__")

  def __repr__(self):
    return show(self)


def mk(op, *args):
  key = (op, args)
  t = _TABLE.get(key)
  if t is None:
    t = T()
    t.op = op
    t.args = args
    t.id = len(_TABLE)
    t._d = None
    _TABLE[key] = t
  return t


def sym(kind, name):
  return mk("sym", kind, name)


def is_sym(t, kind=None):
  return isinstance(t, T) and t.op == "sym" and (kind is None or t.args[0] == kind)


# --- stable structural order (independent of interning order) -------------
_KEY = {}


def skey(t):
  k = _KEY.get(t)
  if k is None:
    import hashlib
    parts = [t.op]
    for a in t.args:
      parts.append(_argkey(a))
    k = hashlib.sha1("\x00".join(parts).encode()).hexdigest()
    _KEY[t] = k
  return k


def _argkey(a):
  if isinstance(a, T):
    return "T" + skey(a)
  if isinstance(a, tuple):
    return "(" + ",".join(_argkey(x) for x in a) + ")"
  return type(a).__name__ + repr(a)


# --- numbers and polynomials ----------------------------------------------
INF = mk("const", "inf")
NAN = mk("const", "nan")
PI = mk("const", "pi")


def num(c):
  """Number term for a python number."""
  if isinstance(c, bool):
    return TRUE if c else FALSE
  if isinstance(c, float):
    if math.isinf(c):
      return INF if c > 0 else neg(INF)
    if math.isnan(c):
      return NAN
    return _poly({(): Fraction(c)})
  if isinstance(c, complex):
    return mk("complexconst", repr(c))
  return _poly({(): Fraction(c)})


TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolt(b):
  return TRUE if b else FALSE


def as_poly(t):
  """dict monomial -> coefficient; monomial = tuple of (atom, exponent)."""
  if t.op == "poly":
    return dict(t.args[0])
  if t is TRUE:
    return {(): Fraction(1)}
  if t is FALSE:
    return {}
  return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
  return tuple((skey(a), e) for a, e in m)


def _poly(d):
  d = {m: c for m, c in d.items() if c != 0}
  if len(d) == 1:
    (m, c), = d.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
  return mk("poly", items)


ZERO = _poly({})
ONE = _poly({(): Fraction(1)})


def const_of(t):
  """Fraction if t is a numeric constant else None."""
  if t.op == "poly":
    if not t.args[0]:
      return Fraction(0)
    if len(t.args[0]) == 1 and t.args[0][0][0] == ():
      return t.args[0][0][1]
  if t is TRUE:
    return Fraction(1)
  if t is FALSE:
    return Fraction(0)
  return None


def add(a, b):
  pa, pb = as_poly(a), as_poly(b)
  r = dict(pa)
  for m, c in pb.items():
    r[m] = r.get(m, 0) + c
  return _poly(r)


def neg(a):
  return _poly({m: -c for m, c in as_poly(a).items()})


def sub(a, b):
  return add(a, neg(b))


def _mono_mul(m1, m2):
  d = {}
  for a, e in m1 + m2:
    d[a] = d.get(a, 0) + e
  return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                      key=lambda ae: (skey(ae[0]), ae[1])))


def mul(a, b):
  if a.op == "eyeM" and b.op != "eyeM":
    a, b = b, a
  pa, pb = as_poly(a), as_poly(b)
  if len(pa) * len(pb) > 80:
    # too large to expand: keep factors
    if len(pa) > 1:
      pa = {((a, Fraction(1)),): Fraction(1)}
    if len(pb) > 1 and len(pa) * len(pb) > 80:
      pb = {((b, Fraction(1)),): Fraction(1)}
  r = {}
  for m1, c1 in pa.items():
    for m2, c2 in pb.items():
      m = _mono_mul(m1, m2)
      if any(isinstance(x, T) and x.op == "poly" for x, _ in m):
        # an integer power of a kept factor may have become expandable
        pass
      r[m] = r.get(m, 0) + c1 * c2
  return _poly(r)


def power(a, e):
  """a ** e for a rational exponent e."""
  e = Fraction(e)
  if e == 0:
    return ONE
  if e == 1:
    return a
  p = as_poly(a)
  if len(p) == 0:
    return ZERO if e > 0 else mk("const", "inf")
  if len(p) == 1:
    (m, c), = p.items()
    if e.denominator == 1:
      return _poly({tuple((x, xe * e) for x, xe in m): c ** int(e)
                    if (c != 0) else c})
    # fractional power of a monomial: coefficient pulled out only if a square
    root = _exact_root(c, e)
    if root is not None and len(m) <= 1 and all(
        (xe == 1) for _, xe in m):
      return _poly({tuple((x, xe * e) for x, xe in m): root})
    return _poly({((a, e),): Fraction(1)})
  if e.denominator == 1 and 0 < e <= 3 and len(p) <= 6:
    r = a
    for _ in range(int(e) - 1):
      r = mul(r, a)
    return r
  # normalise the leading coefficient of a sum under an integer power
  if e.denominator == 1:
    lead = a.args[0][0][1] if a.op == "poly" else Fraction(1)
    if lead != 1:
      base = _poly({m: c / lead for m, c in p.items()})
      return _poly({((base, e),): lead ** int(e)})
  return _poly({((a, e),): Fraction(1)})


def _exact_root(c, e):
  if c == 1:
    return Fraction(1)
  if c <= 0 or e.denominator != 2:
    return None
  n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
  if n * n == c.numerator and d * d == c.denominator:
    return Fraction(n, d) ** e.numerator
  return None


def div(a, b):
  return mul(a, power(b, -1))


def pull(a):
  """(numeric coefficient, rest) of a single-monomial term."""
  p = as_poly(a)
  if len(p) == 1:
    (m, c), = p.items()
    if m == ():
      return c, ONE
    return c, _poly({m: Fraction(1)})
  if len(p) > 1:
    lead = a.args[0][0][1]
    if lead not in (1,):
      return lead, _poly({m: c / lead for m, c in p.items()})
  return Fraction(1), a


def scale(c, a):
  return mul(_poly({(): Fraction(c)}), a)


# --- booleans ---------------------------------------------------------------
def not_(a):
  if a is TRUE:
    return FALSE
  if a is FALSE:
    return TRUE
  if a.op == "not":
    return a.args[0]
  if a.op == "and":
    return or_(*[not_(x) for x in a.args])
  if a.op == "or":
    return and_(*[not_(x) for x in a.args])
  if a.op == "ite" and (is_boolish(a.args[1]) and is_boolish(a.args[2])):
    return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
  return mk("not", a)


def _flat(op, xs):
  out = []
  for x in xs:
    if x.op == op:
      out.extend(x.args)
    else:
      out.append(x)
  return out


def and_(*xs):
  out = []
  for x in _flat("and", xs):
    if x is TRUE:
      continue
    if x is FALSE:
      return FALSE
    if x not in out:
      out.append(x)
  for x in out:
    if not_(x) in out:
      return FALSE
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  # absorption a & (a | b) = a
  s = set(out)
  out = [x for x in out if not (x.op == "or" and any(y in s for y in x.args))]
  if len(out) == 1:
    return out[0]
  return mk("and", *sorted(out, key=skey))


def or_(*xs):
  out = []
  for x in _flat("or", xs):
    if x is FALSE:
      continue
    if x is TRUE:
      return TRUE
    if x not in out:
      out.append(x)
  for x in out:
    if not_(x) in out:
      return TRUE
  if not out:
    return FALSE
  if len(out) == 1:
    return out[0]
  s = set(out)
  out = [x for x in out if not (x.op == "and" and any(y in s for y in x.args))]
  if len(out) == 1:
    return out[0]
  return mk("or", *sorted(out, key=skey))


BOOL_OPS = {"bool", "not", "and", "or", "pos", "nonneg", "eq", "eqv", "isnan",
            "isinf", "isfinite", "isinstance", "isnone", "all", "any",
            "callable", "in", "hasattr", "raised", "isneginf"}


def is_boolish(t):
  if t.op in BOOL_OPS:
    return True
  if t.op == "ite":
    return is_boolish(t.args[1]) and is_boolish(t.args[2])
  return False


def _normdiff(d):
  """Scale a difference so that its leading coefficient is +-1."""
  p = as_poly(d)
  if not p:
    return d
  items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
  lead = next((c for m, c in items if m != ()), items[0][1])
  return _poly({m: c / abs(lead) for m, c in p.items()})


def lt(a, b):
  d = sub(b, a)
  c = const_of(d)
  if c is not None:
    return boolt(c > 0)
  return mk("pos", _normdiff(d))


def le(a, b):
  d = sub(b, a)
  c = const_of(d)
  if c is not None:
    return boolt(c >= 0)
  return mk("nonneg", _normdiff(d))


def eq(a, b):
  if is_boolish(a) and is_boolish(b):
    if a is b:
      return TRUE
    if b is TRUE: return a
    if a is TRUE: return b
    if b is FALSE: return not_(a)
    if a is FALSE: return not_(b)
    return mk("eqv", *sorted((a, b), key=skey))
  d = sub(a, b)
  c = const_of(d)
  if c is not None:
    return boolt(c == 0)
  d = _normdiff(d)
  p = as_poly(d)
  items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
  lead = next((c for m, c in items if m != ()), items[0][1])
  if lead < 0:
    d = neg(d)
  return mk("eq", d)


# --- conditionals ------------------------------------------------------------
def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.op == "not":
    return ite(c.args[0], b, a)
  if a is TRUE and b is FALSE and is_boolish(c):
    return c
  if a is FALSE and b is TRUE and is_boolish(c):
    return not_(c)
  if is_boolish(c) and (is_boolish(a) or is_boolish(b)):
    if a is TRUE: return or_(c, b)
    if b is FALSE: return and_(c, a)
    if a is FALSE: return and_(not_(c), b)
    if b is TRUE: return or_(not_(c), a)
  a = assume(a, c, True)
  b = assume(b, c, False)
  if a is b:
    return a
  if c.op == "or" and a.op == "ite" and False:
    pass
  # where(x>0, x, 0) and friends
  if c.op in ("pos", "nonneg"):
    d = c.args[0]
    # c: d > 0 ; a-b == k*d, k>0  => max(a,b)
    diff = sub(a, b)
    if diff is not ZERO and const_of(d) is None:
      k = _ratio(diff, d)
      if k is not None:
        return maximum(a, b) if k > 0 else minimum(a, b)
  return mk("ite", c, a, b)


def _ratio(x, y):
  px, py = as_poly(x), as_poly(y)
  if set(px) != set(py) or not px:
    return None
  ks = {px[m] / py[m] for m in px}
  return ks.pop() if len(ks) == 1 else None


_ASSUME = {}


def assume(t, c, val, depth=12):
  """Simplify t knowing condition c has truth value val."""
  facts = {}
  _facts(c, val, facts)
  return subst_bool(t, facts, depth)


def _facts(c, val, facts):
  if c.op == "not":
    _facts(c.args[0], not val, facts)
    return
  facts[c] = val
  if c.op == "and" and val:
    for x in c.args:
      _facts(x, True, facts)
  if c.op == "or" and not val:
    for x in c.args:
      _facts(x, False, facts)


def subst_bool(t, facts, depth=12):
  if not facts:
    return t
  memo = {}
  fs = set(facts)

  def go(t, d):
    if t in facts:
      return boolt(facts[t])
    if t in memo:
      return memo[t]
    if d <= 0 or not (deps(t) & fs):
      return t
    r = t
    if t.op == "ite":
      c = go(t.args[0], d - 1)
      if c is TRUE:
        r = go(t.args[1], d - 1)
      elif c is FALSE:
        r = go(t.args[2], d - 1)
      else:
        r = ite(c, go(t.args[1], d - 1), go(t.args[2], d - 1))
    elif t.op == "not":
      r = not_(go(t.args[0], d - 1))
    elif t.op == "and":
      r = and_(*[go(x, d - 1) for x in t.args])
    elif t.op == "or":
      r = or_(*[go(x, d - 1) for x in t.args])
    elif t.op == "poly":
      r = map_poly(t, lambda x: go(x, d - 1))
    elif t.op in ("lam",):
      r = t
    else:
      na = tuple(_goarg(a, d) for a in t.args)
      if na != t.args:
        r = rebuild(t.op, na)
    memo[t] = r
    return r

  def _goarg(a, d):
    if isinstance(a, T):
      return go(a, d - 1)
    if isinstance(a, tuple):
      return tuple(_goarg(x, d) for x in a)
    return a

  return go(t, depth)


def map_poly(t, f):
  res = ZERO
  for m, c in t.args[0]:
    x = _poly({(): c})
    for a, e in m:
      x = mul(x, power(f(a), e))
    res = add(res, x)
  return res


def rebuild(op, args):
  f = BUILD.get(op)
  if f is not None:
    return f(*args)
  return mk(op, *args)


# --- subterm sets --------------------------------------------------------------
def deps(t):
  """All subterms of t (frozenset), memoised."""
  if t._d is not None:
    return t._d
  # iterative post-order
  stack = [t]
  while stack:
    x = stack[-1]
    if x._d is not None:
      stack.pop()
      continue
    kids = list(children(x))
    todo = [k for k in kids if k._d is None]
    if todo:
      stack.extend(todo)
      continue
    s = {x}
    for k in kids:
      s |= k._d
    x._d = frozenset(s)
    stack.pop()
  return t._d


def children(t):
  for a in t.args:
    yield from _ch(a)


def _ch(a):
  if isinstance(a, T):
    yield a
  elif isinstance(a, tuple):
    for x in a:
      yield from _ch(x)


def substitute(t, mapping):
  """Replace subterms by mapping (dict T->T), rebuilding normal forms."""
  memo = {}
  keys = set(mapping)

  def go(t):
    if t in mapping:
      return mapping[t]
    if t in memo:
      return memo[t]
    if not (deps(t) & keys):
      return t
    if t.op == "poly":
      r = map_poly(t, go)
    else:
      r = rebuild(t.op, tuple(goarg(a) for a in t.args))
    memo[t] = r
    return r

  def goarg(a):
    if isinstance(a, T):
      return go(a)
    if isinstance(a, tuple):
      return tuple(goarg(x) for x in a)
    return a

  return go(t)


# --- structured operators --------------------------------------------------------
def maximum(a, b):
  xs = _flat("max", [a, b])
  xs = sorted(set(xs), key=skey)
  cs = [const_of(x) for x in xs]
  nums = [c for c in cs if c is not None]
  if len(nums) > 1:
    keep = num(max(nums))
    xs = sorted(set([x for x, c in zip(xs, cs) if c is None] + [keep]), key=skey)
  if len(xs) == 1:
    return xs[0]
  # max(x, -x) = |x|
  if len(xs) == 2 and xs[0] is neg(xs[1]):
    return absolute(xs[0])
  return mk("max", *xs)


def minimum(a, b):
  # min(a,b) kept as its own n-ary operator
  xs = _flat("min", [a, b])
  xs = sorted(set(xs), key=skey)
  cs = [const_of(x) for x in xs]
  nums = [c for c in cs if c is not None]
  if len(nums) > 1:
    keep = num(min(nums))
    xs = sorted(set([x for x, c in zip(xs, cs) if c is None] + [keep]), key=skey)
  if len(xs) == 1:
    return xs[0]
  return mk("min", *xs)


REAL_OPS = {"size", "dim", "ndim", "nleaves", "count", "maxr", "minr", "isinf", "isfinite", "eq", "eqv", "abs", "pos", "nonneg", "not", "and", "or", "bool", "max", "min",
            "norm", "real", "imag", "sqsum", "isnan", "sign", "count_nonzero"}


def is_real(t):
  if t.op == "poly":
    return all(is_real(a) for m, _ in t.args[0] for a, _ in m)
  if t.op == "sym":
    return t.args[0] in ("opt", "cnt", "ls", "sc", "real", "boolopt")
  if t.op == "const":
    return True
  if t.op == "ite":
    return is_real(t.args[1]) and is_real(t.args[2])
  if t.op == "treesum" or t.op == "sum":
    if is_real(t.args[0]):
      return True
    # sum(conj(x) x)
    x = t.args[0]
    while x.op in ("sum", "treesum"):
      x = x.args[0]
    return conj(x) is x
  if t.op in ("st", "lv", "lsf") and is_global(t):
    return True
  return t.op in REAL_OPS


def conj(t):
  if is_real(t):
    return t
  if t.op == "poly":
    return map_poly(t, conj)
  if t.op == "conj":
    return t.args[0]
  if t.op == "ite":
    return ite(t.args[0], conj(t.args[1]), conj(t.args[2]))
  if t.op in ("zeros_like",):
    return t
  return mk("conj", t)


def real(t):
  if is_real(t):
    return t
  c, r = pull(t)
  if c != 1:
    return scale(c, real(r))
  p = as_poly(t)
  if len(p) > 1 and all(any(a.op in ("sum", "treesum", "matmul") for a, _ in m) for m in p):
    res = ZERO
    for m, c in p.items():
      res = add(res, scale(c, real(_poly({m: Fraction(1)}))))
    return res
  # pull out real factors
  if len(p) == 1:
    (m, c), = p.items()
    rf = tuple((a, e) for a, e in m if is_real(a))
    nf = tuple((a, e) for a, e in m if not is_real(a))
    if rf and nf:
      return mul(_poly({rf: c}), real(_poly({nf: Fraction(1)})))
  if t.op == "treesum":
    return treesum(real(t.args[0]))
  k = conj(t)
  u = t if skey(t) <= skey(k) else k
  return mk("real", u)


def imag(t):
  if is_real(t):
    return ZERO
  c, r = pull(t)
  if c != 1:
    return scale(c, imag(r))
  return mk("imag", t)


def absolute(t):
  c, r = pull(t)
  if r is ONE:
    return num(abs(c)) if isinstance(c, (int, float)) else _poly({(): abs(c)})
  if t is ZERO:
    return ZERO
  if c != 1 and c != 0:
    return scale(abs(c), absolute(r))
  if t.op == "abs":
    return t
  if t.op in ("norm",):
    return t
  if t.op in ("concatenate", "stack") and isinstance(t.args[0], T) and t.args[0].op in ("leaves", "tuple"):
    return mk(t.op, mk(t.args[0].op, *[absolute(x) for x in t.args[0].args]), *t.args[1:])
  if t.op == "ravel" and len(t.args) == 1:
    return mk("ravel", absolute(t.args[0]))
  return mk("abs", t)


def sign(t):
  c, r = pull(t)
  if c not in (0, 1):
    s = mk("sign", r)
    return s if c > 0 else neg(s)
  return mk("sign", t)


def inner(a, b):
  return asum(mul(a, b))


def is_rank1(t):    # replaced by models
  return False


def is_global(t):   # replaced by models
  return False


def _split_factor(m, keep):
  """Monomial -> (global factor, rest)."""
  g = tuple((a, e) for a, e in m if is_global(a))
  r = tuple((a, e) for a, e in m if not is_global(a))
  return g, r


def _linear(op, a, opts):
  """Distribute a linear reduction over a polynomial."""
  p = _sq_modulus(as_poly(a))
  res = ZERO
  for m, c in p.items():
    g, r = _split_factor(m, opts)
    if op in ("sum", "mean") and not opts:
      g2 = tuple((x, e) for x, e in r if is_leafscalar(x))
      if g2:
        g = tuple(sorted(g + g2, key=lambda ae: (skey(ae[0]), ae[1])))
        r = tuple((x, e) for x, e in r if not is_leafscalar(x))
    rt = _poly({r: Fraction(1)})
    if op == "treesum" and rt is ONE:
      body = mk("nleaves_like", ONE)
    elif op == "mean" and rt is ONE and not opts:
      body = ONE
    else:
      body = mk(op, rt, *opts)
    res = add(res, mul(_poly({g: c}), body))
  return res


def _sq_modulus(p):
  """real(x)^2 + imag(x)^2 -> conj(x) x."""
  out = dict(p)
  for m, c in list(p.items()):
    for a, e in m:
      if a.op == "real" and e == 2:
        x = a.args[0]
        im = imag(x)
        m2 = tuple(sorted([(b, f) for b, f in m if b is not a] + [(im, Fraction(2))],
                          key=lambda ae: (skey(ae[0]), ae[1])))
        if m in out and out.get(m2) == c and m2 != m:
          del out[m], out[m2]
          rest = tuple((b, f) for b, f in m if b is not a)
          t = mul(mul(x, conj(x)), _poly({rest: c}))
          for mm, cc in as_poly(t).items():
            out[mm] = out.get(mm, 0) + cc
  return out


def conj_inner(a, b):
  return inner(conj(a), b)


def treesum(a):
  return _linear("treesum", a, ())


def is_leafscalar(t):   # replaced by models
  return False


def asum(a, *opts):
  if not opts and a.op != "poly" and is_leafscalar(a):
    return a
  return _linear("sum", a, opts)


def amean(a, *opts):
  if not opts and a.op != "poly" and is_leafscalar(a):
    return a
  return _linear("mean", a, opts)


def _bilinear(op, a, b):
  pa, pb = as_poly(a), as_poly(b)
  if len(pa) * len(pb) > 40:
    return mk(op, a, b)
  res = ZERO
  for m1, c1 in pa.items():
    g1, r1 = _split_factor(m1, ())
    for m2, c2 in pb.items():
      g2, r2 = _split_factor(m2, ())
      x, y = _poly({r1: Fraction(1)}), _poly({r2: Fraction(1)})
      res = add(res, mul(mul(_poly({g1: c1}), _poly({g2: c2})), _bil1(op, x, y)))
  return res


def _bil1(op, x, y):
  if op == "matmul":
    if x.op == "eye":
      return y
    if y.op == "eye":
      return x
    # right-associated products: (A B) v = A (B v), and x A = A^T x for a vector x
    if (is_rank1(x) or x.op == "matmul" and is_rank1(x.args[1])) and not is_rank1(y):
      z = transpose(y)
      return matmul(z, x) if z is not y else mk(op, x, y)
    if x.op == "matmul" and not is_rank1(x.args[1]):
      return matmul(x.args[0], matmul(x.args[1], y)) 
  return mk(op, x, y)


def outer(a, b):
  return _bilinear("outer", a, b)


def matmul(a, b):
  return _bilinear("matmul", a, b)


def transpose(a):
  if a.op == "transpose":
    return a.args[0]
  if a.op == "eyeM":
    return a
  p = as_poly(a)
  if len(p) > 1:
    res = ZERO
    for m, c in p.items():
      res = add(res, scale(c, transpose(_poly({m: Fraction(1)}))))
    return res
  c, r = pull(a)
  if c != 1:
    return scale(c, transpose(r))
  if a.op == "poly":
    (m, c), = p.items()
    g, r = _split_factor(m, ())
    if g:
      return mul(_poly({g: c}), transpose(_poly({r: Fraction(1)})))
  if a.op == "eye":
    return a
  if a.op == "matmul":
    return matmul(transpose(a.args[1]), transpose(a.args[0]))
  if a.op == "outer":
    return mk("outer", a.args[1], a.args[0])
  if is_rank1(a):
    return a
  return mk("transpose", a)


def mod(x, y):
  """Remainder, reduced when the divisor is a positive integer constant."""
  m = const_of(y)
  if m is None or m.denominator != 1 or m <= 0:
    return mk("mod", x, y)
  m = int(m)
  c = const_of(x)
  if c is not None and c.denominator == 1:
    return num(int(c) % m)
  if m == 1 and x.op != "poly":
    return mk("mod", x, y)
  out = ZERO
  for mono, c in as_poly(x).items():
    c = Fraction(c)
    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "mod" and mono[0][0].args[1] is y and c.denominator == 1:
      out = add(out, mul(num(c), mono[0][0].args[0]))
    elif mono == () and c.denominator == 1:
      out = add(out, num(int(c) % m))
    else:
      out = add(out, _poly({mono: c}))
  return mk("mod", out, y) if const_of(out) is None else mod(out, y)


def scalar_index(i):   # replaced by models
  return False


def plain_index(i):
  """Index without trailing ellipsis or full slices."""
  if isinstance(i, T) and i.op == "tuple":
    xs = list(i.args)
    if any(x.op == "none" for x in xs):
      return i
    while len(xs) > 1 and (xs[-1].op == "str" and xs[-1].args[0] == "..." or
                           xs[-1].op == "slice" and all(isinstance(y, T) and y.op == "none" for y in xs[-1].args)):
      xs.pop()
    return xs[0] if len(xs) == 1 else mk("tuple", *xs)
  return i


def full_slice(x):
  return x.op == "slice" and all(isinstance(y, T) and y.op == "none" for y in x.args)


def at_set(x, i, v):
  """x.at[i].set(v); writing one vector to a row and to the same column commutes, the row goes first."""
  i = plain_index(i)
  if x.op == "at_set" and x.args[2] is v and isinstance(i, T) and scalar_index(i):
    j = x.args[1]
    if isinstance(j, T) and j.op == "tuple" and len(j.args) == 2 and full_slice(j.args[0]) and j.args[1] is i:
      return mk("at_set", at_set(x.args[0], i, v), j, v)
  return mk("at_set", x, i, v)


def matrix_entry(t, p, q):
  """Entry (p, q) of a matrix written by rows, columns and entries; None when an index has another form."""
  if t.op != "at_set":
    return item(item(t, p), q)
  x, i, v = t.args
  if not isinstance(i, T):
    return None
  ij = list(i.args) if i.op == "tuple" else [i]
  if len(ij) > 2 or not all(isinstance(k, T) and (scalar_index(k) or full_slice(k)) for k in ij):
    return None
  ij += [None] * (2 - len(ij))
  hit, free = TRUE, []
  for k, at in zip(ij, (p, q)):
    if k is None or full_slice(k):
      free.append(at)
    else:
      hit = and_(hit, eq(k, at))
  if len(free) == 2:
    return None
  rest = matrix_entry(x, p, q)
  if rest is None:
    return None
  return ite(hit, item(v, free[0]) if free and rank_of(v) != 0 else v, rest)


def rank_of(t):   # replaced by models
  return None


def item(t, i):
  """Indexing."""
  i = plain_index(i)
  if t.op == "at_set" and isinstance(i, T) and i.op == "tuple" and len(i.args) == 2 and all(isinstance(k, T) and scalar_index(k) for k in i.args):
    r = matrix_entry(t, *i.args)
    if r is not None:
      return r
  if t.op == "tuple" and isinstance(i, T) and const_of(i) is not None:
    k = int(const_of(i))
    if -len(t.args) <= k < len(t.args):
      return t.args[k]
  if t.op == "ite" and not (isinstance(i, T) and i.op in ("argsort", "argmax", "argmin") and rank_of(t.args[0]) != 0):
    # (a gather permutes the entries of an elementwise condition)
    return ite(t.args[0], item(t.args[1], i), item(t.args[2], i))
  if t.op == "at_set":
    if t.args[1] is i:
      return t.args[2]
    if scalar_index(t.args[1]) and scalar_index(i):
      return ite(eq(t.args[1], i), t.args[2], item(t.args[0], i))
  return mk("item", t, i)


def isnan(t):
  if const_of(t) is not None:
    return FALSE
  return mk("isnan", t)


def _rb_poly(items):
  return mk("poly", items)


BUILD = {
    "not": not_, "and": and_, "or": or_, "ite": ite, "max": lambda *a: _nary(maximum, a),
    "min": lambda *a: _nary(minimum, a), "conj": conj, "real": real, "abs": absolute,
    "sign": sign, "imag": lambda x: imag(x), "treesum": treesum, "matmul": matmul, "outer": lambda a, b: outer(a, b),
    "mean": lambda *a: amean(*a),
    "transpose": transpose, "item": item, "isnan": isnan, "sum": asum,
    "pos": lambda d: lt(ZERO, d), "nonneg": lambda d: le(ZERO, d),
    "eq": lambda d: eq(d, ZERO), "mod": mod,
}


def _nary(f, a):
  r = a[0]
  for x in a[1:]:
    r = f(r, x)
  return r


# --- display -----------------------------------------------------------------------
def show(t, depth=7):
  if not isinstance(t, T):
    if isinstance(t, tuple):
      return "(" + ", ".join(show(x, depth) for x in t) + ")"
    return repr(t)
  if depth <= 0:
    return "…"
  d = depth - 1
  op, a = t.op, t.args
  if op == "sym":
    return f"{a[0]}.{a[1]}"
  if op == "const":
    return str(a[0])
  if op == "bool":
    return str(a[0])
  if op == "poly":
    if not a[0]:
      return "0"
    out = []
    for m, c in a[0]:
      s = "*".join(show(x, d) + (f"^{e}" if e != 1 else "") for x, e in m)
      cf = float(c)
      cs = str(int(cf)) if cf == int(cf) else f"{cf:g}"
      if not m:
        out.append(cs)
      elif c == 1:
        out.append(s)
      elif c == -1:
        out.append("-" + s)
      else:
        out.append(cs + "*" + s)
    return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
  if op == "pos":
    return f"[{show(a[0], d)} > 0]"
  if op == "nonneg":
    return f"[{show(a[0], d)} >= 0]"
  if op == "ite":
    return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
  if op == "item":
    return f"{show(a[0], d)}[{show(a[1], d)}]"
  if op == "app":
    return f"{show(a[0], d)}({', '.join(show(x, d) for x in a[1:])})"
  return f"{op}({', '.join(show(x, d) for x in a)})"
