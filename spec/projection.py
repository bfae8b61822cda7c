"""Documented projections."""
import jax
import jax.numpy as jnp

from spec import tree_util as tu

tree_map = jax.tree_util.tree_map


def non_negative(x, hyperparams=None):
  return tree_map(lambda v: jnp.maximum(v, 0), x)


def box(x, hyperparams):
  lo, hi = hyperparams
  return tree_map(lambda v, a, b: jnp.minimum(jnp.maximum(v, a), b), x, lo, hi)


def box_scalar(x, hyperparams):
  lo, hi = hyperparams
  return tree_map(lambda v: jnp.minimum(jnp.maximum(v, lo), hi), x)


def hypercube(x, unit=1.0):
  return box_scalar(x, (0.0, unit))


def linf_ball(x, max_value=1.0):
  return box_scalar(x, (-max_value, max_value))


def _unit_simplex(x):
  n = x.shape[0]
  u = jnp.sort(x)[::-1]
  css = jnp.cumsum(u)
  k = jnp.arange(n) + 1
  rho = jnp.count_nonzero(1.0 / k + (u - css / k) > 0)
  return jnp.maximum(1.0 / rho + (x - css[rho - 1] / rho), 0)


def simplex(x, value=1.0):
  v = 1.0 if value is None else value
  return v * _unit_simplex(x / v)


def _unit_sparse(x, max_nz, approx):
  vals, inds = jax.lax.approx_max_k(x, max_nz) if approx else jax.lax.top_k(x, max_nz)
  css = jnp.cumsum(vals)
  k = jnp.arange(max_nz) + 1
  rho = jnp.count_nonzero(1.0 / k + (vals - css / k) > 0)
  p = jnp.maximum(1.0 / rho + (vals - css[rho - 1] / rho), 0)
  return jnp.sum(p[:, jnp.newaxis] * jax.nn.one_hot(inds, len(x), dtype=x.dtype), axis=0)


def sparse_simplex(x, max_nz, use_approx_max_nz=False, value=1.0):
  v = 1.0 if value is None else value
  return v * _unit_sparse(x / v, max_nz, use_approx_max_nz)


def l1_sphere(x, value=1.0):
  return jnp.sign(x) * simplex(jnp.abs(x), value)


def l1_ball(x, max_value=1.0):
  return jnp.where(jnp.sum(jnp.abs(x)) <= max_value, x, l1_sphere(x, max_value))


def l2_sphere(x, value=1.0):
  n = tu.tree_l2_norm(x)
  return tree_map(lambda v: v * value / n, x)


def l2_ball(x, max_value=1.0):
  n = tu.tree_l2_norm(x)
  return tree_map(lambda v: jnp.where(n <= max_value, v, v * max_value / n), x)


def hyperplane(x, hyperparams):
  a, b = hyperparams
  r = (tu.tree_vdot(a, x) - b) / tu.tree_vdot(a, a)
  return tree_map(lambda v, w: v - r * w, x, a)


def halfspace(x, hyperparams):
  a, b = hyperparams
  r = jnp.maximum(tu.tree_vdot(a, x) - b, 0) / tu.tree_vdot(a, a)
  return tree_map(lambda v, w: v - r * w, x, a)


# box section: p = clip(w tau + x), where tau is the root of w.p - c
def section_point(tau, x, hyperparams):
  alpha, beta, w, c = hyperparams
  return jnp.minimum(jnp.maximum(w * tau + x, alpha), beta)


def section_residual(tau, x, hyperparams):
  alpha, beta, w, c = hyperparams
  return jnp.dot(w, section_point(tau, x, hyperparams)) - c


def section_lower(x, hyperparams):
  alpha, beta, w, c = hyperparams
  return jnp.min((alpha - x) / w)


def section_upper(x, hyperparams):
  alpha, beta, w, c = hyperparams
  return jnp.max((beta - x) / w)


# transport, regularisation strength 1
def _col_l2(z, b):
  p = jax.lax.stop_gradient(simplex(z / b))
  return jnp.dot(z, p) - 0.5 * b * jnp.dot(p, p)


def _col_ent(z, b):
  return jax.scipy.special.logsumexp(z) - jnp.log(b)


def _delta_l2(z):
  r = jnp.maximum(z, 0)
  return 0.5 * jnp.dot(r, r)


def _delta_ent(z):
  return jnp.sum(jnp.exp(z - 1))


def semi_dual(kl):
  f = _col_ent if kl else _col_l2

  def fun(alpha, cost_matrix, marginals_a, marginals_b):
    Z = alpha[:, jnp.newaxis] - cost_matrix
    cols = jax.vmap(f, in_axes=(1, 0))(Z, marginals_b)
    return jnp.dot(marginals_b, cols) - jnp.dot(alpha, marginals_a)

  def plan(alpha, cost_matrix, marginals_a, marginals_b):
    Z = alpha[:, jnp.newaxis] - cost_matrix
    return jax.vmap(jax.grad(f), in_axes=(1, 0))(Z, marginals_b).T * marginals_b
  return fun, plan


def dual(kl):
  f = _delta_ent if kl else _delta_l2

  def fun(ab, cost_matrix, marginals_a, marginals_b):
    a, b = ab
    Z = a[:, jnp.newaxis] + b[jnp.newaxis, :] - cost_matrix
    return jnp.sum(jax.vmap(f, in_axes=(1,))(Z)) - jnp.dot(a, marginals_a) - jnp.dot(b, marginals_b)

  def plan(ab, cost_matrix, marginals_a, marginals_b):
    a, b = ab
    Z = a[:, jnp.newaxis] + b[jnp.newaxis, :] - cost_matrix
    return jax.vmap(jax.grad(f), in_axes=(1,))(Z).T
  return fun, plan
