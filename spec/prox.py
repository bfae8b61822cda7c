"""Reference proximal operators: argmin_y 0.5 ||x - y||^2 + scaling * g(y)."""
import jax
import jax.numpy as jnp
from spec import tree_util as tu


def none(x, hyperparams=None, scaling=1.0):
  return x


def _soft(u, t):
  return jnp.sign(u) * jnp.maximum(jnp.abs(u) - t, 0.0)


def lasso(x, l1reg=1.0, scaling=1.0):
  if l1reg is None:
    l1reg = 1.0
  return jax.tree_util.tree_map(lambda u: _soft(u, scaling * l1reg), x)


def lasso_tree(x, l1reg, scaling=1.0):
  return jax.tree_util.tree_map(lambda u, l: _soft(u, scaling * l), x, l1reg)


def non_negative_lasso(x, l1reg=1.0, scaling=1.0):
  if l1reg is None:
    l1reg = 1.0
  return jax.tree_util.tree_map(lambda u: jnp.maximum(u - scaling * l1reg, 0.0), x)


def elastic_net(x, hyperparams=None, scaling=1.0):
  if hyperparams is None:
    hyperparams = (1.0, 1.0)
  lam, gam = hyperparams
  return jax.tree_util.tree_map(lambda u: _soft(u, scaling * lam) / (1 + scaling * lam * gam), x)


def elastic_net_tree(x, hyperparams, scaling=1.0):
  lam, gam = hyperparams
  return jax.tree_util.tree_map(lambda u, l, g: _soft(u, scaling * l) / (1 + scaling * l * g), x, lam, gam)


def group_lasso(x, l2reg=1.0, scaling=1.0):
  if l2reg is None:
    l2reg = 1.0
  n = tu.tree_l2_norm(x)
  f = jnp.maximum(1 - scaling * l2reg / n, 0.0)
  return jax.tree_util.tree_map(lambda u: f * u, x)


def ridge(x, l2reg=1.0, scaling=1.0):
  if l2reg is None:
    l2reg = 1.0
  return jax.tree_util.tree_map(lambda u: u / (1 + scaling * l2reg), x)


def non_negative_ridge(x, l2reg=1.0, scaling=1.0):
  if l2reg is None:
    l2reg = 1.0
  return jax.tree_util.tree_map(lambda u: jnp.maximum(u / (1 + scaling * l2reg), 0.0), x)


def from_projection(projection):
  return lambda x, hyperparams=None, scaling=1.0: projection(x, hyperparams)
