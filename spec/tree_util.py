"""Reference tree arithmetic (interpreted, never run)."""
import jax
import jax.numpy as jnp
from jax import tree_util as tu


def tree_add(a, b):
  return tu.tree_map(lambda x, y: x + y, a, b)


def tree_sub(a, b):
  return tu.tree_map(lambda x, y: x - y, a, b)


def tree_mul(a, b):
  return tu.tree_map(lambda x, y: x * y, a, b)


def tree_div(a, b):
  return tu.tree_map(lambda x, y: x / y, a, b)


def tree_scalar_mul(scalar, a):
  return tu.tree_map(lambda x: x * scalar, a)


def tree_add_scalar_mul(a, scalar, b):
  return tu.tree_map(lambda x, y: x + y * scalar, a, b)


def _sum(t):
  return sum(tu.tree_leaves(t))


def tree_vdot(a, b):
  return _sum(tu.tree_map(lambda x, y: jnp.sum(jnp.conj(x) * y), a, b))


def tree_vdot_real(a, b):
  return _sum(tu.tree_map(lambda x, y: jnp.real(jnp.sum(jnp.conj(x) * y)), a, b))


def tree_dot(a, b):
  return tu.tree_map(lambda x, y: jnp.dot(x, y), a, b)


def tree_sum(a):
  return _sum(tu.tree_map(lambda x: jnp.sum(x), a))


def tree_l2_norm(a, squared=False):
  sq = _sum(tu.tree_map(lambda x: jnp.sum(jnp.conj(x) * x), a))
  if squared:
    return sq
  return jnp.sqrt(sq)


def tree_zeros_like(a):
  return tu.tree_map(lambda x: x * 0, a)


def tree_ones_like(a):
  return tu.tree_map(lambda x: jnp.ones_like(x), a)


def tree_average(trees, weights):
  return tu.tree_map(lambda x: jnp.tensordot(weights, x, axes=1), trees)


def tree_gram(a):
  return jax.vmap(jax.vmap(tree_vdot, in_axes=(0, None)), in_axes=(None, 0))(a, a)


def tree_where(cond, a, b):
  return tu.tree_map(lambda c, x, y: jnp.where(c, x, y), cond, a, b)


def tree_where_scalar(cond, a, b):
  return tu.tree_map(lambda x, y: jnp.where(cond, x, y), a, b)


def tree_negative(a):
  return tu.tree_map(lambda x: -x, a)


def tree_reciproqual(a):
  return tu.tree_map(lambda x: 1 / x, a)


def tree_mean(a):
  m = tu.tree_map(lambda x: jnp.mean(x), a)
  return _sum(m) / len(tu.tree_leaves(m))


def tree_conj(a):
  return tu.tree_map(lambda x: jnp.conj(x), a)


def tree_real(a):
  return tu.tree_map(lambda x: jnp.real(x), a)


def tree_imag(a):
  return tu.tree_map(lambda x: jnp.imag(x), a)


def tree_inf_norm(a):
  leaves = tu.tree_leaves(tu.tree_map(lambda x: jnp.ravel(x), a))
  return jnp.max(jnp.abs(jnp.concatenate(leaves)))
