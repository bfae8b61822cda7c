"""First-order optimality conditions F(x, *theta) = 0 of the problems the solvers address.

Each function takes the options the solver was built with and returns F.
"""
import jax
import jax.numpy as jnp

from jaxopt._src import base
from spec import mocks
from spec import tree_util as tu


def _grad(o, key="fun"):
  vg = mocks.value_and_grad_of(o[key], o.get("value_and_grad", False), o.get("has_aux", False))
  return lambda *a, **k: vg(*a, **k)[1]


def _first(fun, has_aux):
  if has_aux:
    return lambda *a, **k: fun(*a, **k)[0]
  return fun


def gradient(o):
  return _grad(o)


def prox_residual(o):
  g, prox = _grad(o), o["prox"]

  def F(x, hyper, *args, **kw):
    return tu.tree_sub(prox(tu.tree_sub(x, g(x, *args, **kw)), hyper, 1.0), x)
  return F


def projection_residual(o):
  g, proj = _grad(o), o["projection"]

  def F(x, hyper, *args, **kw):
    return tu.tree_sub(proj(tu.tree_sub(x, g(x, *args, **kw)), hyper), x)
  return F


def mirror_residual(o):
  g, pg = _grad(o), o["projection_grad"]

  def F(x, hyper, *args, **kw):
    return tu.tree_sub(pg(x, g(x, *args, **kw), 1.0, hyper), x)
  return F


def block_residual(o):
  fun, bp = o["fun"], o["block_prox"]

  def F(x, hyper, *args, **kw):
    y = x - jax.grad(fun)(x, *args, **kw)
    return jax.vmap(lambda row: bp(row, hyper, 1.0))(y) - x
  return F


def clip_tree(y, bounds):
  lo, hi = bounds
  return jax.tree_util.tree_map(lambda v, a, b: jnp.clip(v, a, b), y, lo, hi)


def box_residual(o):
  g = _grad(o)

  def F(x, bounds, *args, **kw):
    if bounds is None:
      return g(x, *args, **kw)
    return tu.tree_sub(clip_tree(tu.tree_sub(x, g(x, *args, **kw)), bounds), x)
  return F


def fixed_point(o):
  T = _first(o["fixed_point_fun"], o.get("has_aux", False))

  def F(x, *args, **kw):
    return tu.tree_sub(T(x, *args, **kw), x)
  return F


def root(o):
  return _first(o["fun"] if "fun" in o else o["optimality_fun"], o.get("has_aux", False))


def least_squares(o):
  r = _first(o["residual_fun"], o.get("has_aux", False))

  def F(x, *args, **kw):
    f = lambda p: r(p, *args, **kw)
    value, pull = jax.vjp(f, x)
    return pull(value)[0]
  return F


def linear_system(o):
  mv = o.get("matvec_A")

  def F(x, A, b, A_bar=None):
    if mv is None:
      return b - jnp.dot(A, x)
    return b - mv(A, x)
  return F


def box_qp(o):
  def F(x, params_obj, params_ineq):
    Q, c = params_obj
    l, u = params_ineq
    return jnp.clip(x - (jnp.dot(Q, x) + c), l, u) - x
  return F


def quad(o, mvq, leaf=False):
  fun = o.get("fun")
  if fun is not None:
    return fun

  vdot = jnp.vdot if leaf else tu.tree_vdot

  def obj(x, params_obj):
    Q, c = params_obj
    return 0.5 * vdot(x, mvq(Q, x)) + vdot(c, x)
  return obj


def _mv(f):
  return f if f is not None else (lambda M, x: jnp.dot(M, x))


def eq_qp(o):
  mvq, mva = _mv(o.get("matvec_Q")), _mv(o.get("matvec_A"))
  obj = quad(o, mvq)

  def F(params, params_obj, params_eq):
    x, y, _ = params
    A, b = params_eq
    g = jax.grad(obj)(x, params_obj)
    g = g + jax.vjp(lambda z: mva(A, z) - b, x)[1](y)[0]
    return base.KKTSolution(g, mva(A, x) - b, None)
  return F


def full_qp(o):
  obj = quad(o, _mv(None), leaf=True)   # plain arrays only

  def F(params, params_obj, params_eq, params_ineq):
    x, y, z = params
    g = jax.grad(obj)(x, params_obj)
    feas = None
    slack = None
    if params_eq is not None:
      A, b = params_eq
      feas = jnp.dot(A, x) - b
      g = g + jax.vjp(lambda v: jnp.dot(A, v) - b, x)[1](y)[0]
    if params_ineq is not None:
      G, h = params_ineq
      slack = (jnp.dot(G, x) - h) * z
      g = g + jax.vjp(lambda v: jnp.dot(G, v) - h, x)[1](z)[0]
    return base.KKTSolution(g, feas, slack)
  return F


def box_osqp(o):
  """min f(x) s.t. Ax = z, l <= z <= u; infinite bounds are never active."""
  mvq, mva = _mv(o.get("matvec_Q")), _mv(o.get("matvec_A"))
  obj = quad(o, mvq)

  def F(params, params_obj, params_eq, params_ineq):
    (x, z), y, (mu, phi) = params
    l, u = params_ineq
    lag = lambda p: obj(p[0], params_obj)
    eq = lambda p: mva(params_eq, p[0]) - p[1]
    up = lambda p: (jnp.where(u != jnp.inf, p[1] - u, 0), jnp.where(l != -jnp.inf, l - p[1], 0))
    g = jax.grad(lag)((x, z))
    g1 = jax.vjp(eq, (x, z))[1](y)[0]
    g2 = jax.vjp(up, (x, z))[1]((mu, phi))[0]
    g = tu.tree_add(tu.tree_add(g, g1), g2)
    upper, lower = up((x, z))
    return base.KKTSolution(g, eq((x, z)), (upper * mu, lower * phi))
  return F


RHO = {
    # losses as functions of the scaled residual
    "linear": lambda r: r ** 2,
    "soft_l1": lambda r: 2.0 * (jnp.sqrt(1 + r ** 2) - 1),
    "huber": lambda r: jnp.where(jnp.abs(r) <= 1, r ** 2, 2.0 * jnp.abs(r) - 1),
    "cauchy": lambda r: jnp.log1p(r ** 2),
    "arctan": lambda r: jnp.arctan(r ** 2),
}


def _robust_cost(o):
  r = _first(o["fun"], o.get("has_aux", False))
  rho = RHO[o.get("loss", "linear")]
  fs = o["f_scale"]

  def cost(x, *args, **kw):
    return 0.5 * fs ** 2 * jnp.mean(rho(r(x, *args, **kw) / fs))
  return cost


def robust(o):
  return jax.grad(_robust_cost(o))


def robust_box(o):
  g = jax.grad(_robust_cost(o))

  def F(x, bounds, *args, **kw):
    return tu.tree_sub(clip_tree(tu.tree_sub(x, g(x, *args, **kw)), bounds), x)
  return F
