"""Derivative rules of the operators that carry one."""
import jax
import jax.numpy as jnp


def simplex(p, t):
  """Jacobian of the simplex projection: restrict to the support and centre."""
  s = p > 0
  return s * t - (jnp.dot(s, t) / jnp.count_nonzero(s)) * s


def simplex_where(p, t):
  s = p > 0
  return jnp.where(s, t - jnp.sum(jnp.where(s, t, 0)) / jnp.sum(s), 0)


def isotonic(sol, t):
  """Average of the tangent over each block of equal solution values."""
  mask = jnp.pad(jnp.absolute(jnp.diff(sol)) <= 1e-8, (1, 0))
  ar = jnp.arange(sol.size)
  start = jnp.where(mask == 0, ar, +jnp.inf).sort()
  A = jnp.cumsum(jax.nn.one_hot(start, len(t)), axis=-1)
  A = jnp.append(jnp.diff(A[::-1], axis=0)[::-1], A[-1].reshape(1, -1), axis=0)
  return (((A.T * (A @ t)).T) / (A.sum(1, keepdims=True) + 1e-8)).sum(0)


def isotonic_public(core, sign, y, lo, hi):
  return jnp.clip(sign * core(sign * y), lo, hi)
