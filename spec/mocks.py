"""Stand-ins for user-supplied objects; their methods are unknown functions."""
import dataclasses
from typing import NamedTuple, Any

import jax.numpy as jnp

from jaxopt._src import base
from spec import tree_util as tu
from jaxopt._src import objective


class OptState(NamedTuple):
  count: Any
  mu: Any


class MockOpt:
  """An arbitrary gradient transformation (optax interface)."""

  def __init__(self, init_fn, update_fn):
    self.init_fn = init_fn
    self.update_fn = update_fn

  def init(self, params):
    return OptState(*self.init_fn(params))

  def update(self, grad, state, params=None):
    delta, st = self.update_fn(grad, state, params)
    return delta, OptState(*st)


class MockComposite(objective.CompositeLinearFunction):
  """An arbitrary composite objective subfun(A x) + <b, x>."""

  def __init__(self, subfun_fn, linop_fn, lip_fn, b_fn):
    self.subfun_fn = subfun_fn
    self.linop_fn = linop_fn
    self.lip_fn = lip_fn
    self.b_fn = b_fn

  def subfun(self, predictions, *args, **kwargs):
    return self.subfun_fn(predictions, *args, **kwargs)

  def make_linop(self, *args, **kwargs):
    return base.LinearOperator(self.linop_fn(*args, **kwargs))

  def columnwise_lipschitz_const(self, *args, **kwargs):
    return self.lip_fn(*args, **kwargs)

  def b(self, *args, **kwargs):
    return self.b_fn(*args, **kwargs) if self.b_fn is not None else None


class NamedComposite(MockComposite):
  """The same with named arguments."""

  def subfun(self, predictions, X, l2):
    return self.subfun_fn(predictions, X, l2)


def value_and_grad_of(fun, value_and_grad, has_aux):
  """Canonical ((value, aux), grad) of a documented objective form."""
  import jax
  if value_and_grad is True:
    def f(*a, **k):
      out = fun(*a, **k)
      if has_aux:
        return out
      return (out[0], None), out[1]
  elif value_and_grad:
    def f(*a, **k):
      out = value_and_grad(*a, **k)
      if has_aux:
        return out
      return (out[0], None), out[1]
  else:
    def f(*a, **k):
      if has_aux:
        return jax.value_and_grad(fun, has_aux=True)(*a, **k)
      v, g = jax.value_and_grad(fun)(*a, **k)
      return (v, None), g
  return f


class MockState(NamedTuple):
  iter_num: Any
  error: Any
  aux: Any


@dataclasses.dataclass(eq=False)
class MockSolver(base.IterativeSolver):
  """A solver whose initialisation and update are unknown functions."""
  init_fn: Any
  update_fn: Any
  opt_fn: Any
  maxiter: int = 5
  tol: float = 1e-3
  implicit_diff: bool = True
  implicit_diff_solve: Any = None
  jit: bool = True
  unroll: Any = "auto"

  def init_state(self, init_params, *args, **kwargs):
    return MockState(*self.init_fn(init_params, *args, **kwargs), aux=None)

  def update(self, params, state, *args, **kwargs):
    p, st = self.update_fn(params, state, *args, **kwargs)
    return base.OptStep(params=p, state=MockState(*st, aux=None))

  def optimality_fun(self, params, *args, **kwargs):
    return self.opt_fn(params, *args, **kwargs)

  def __post_init__(self):
    super().__post_init__()
    self.reference_signature = self.opt_fn


@dataclasses.dataclass(eq=False)
class MockStochastic(base.StochasticSolver):
  init_fn: Any
  update_fn: Any
  opt_fn: Any
  maxiter: int = 5
  tol: float = 1e-3
  implicit_diff: bool = True
  implicit_diff_solve: Any = None
  jit: bool = True
  unroll: Any = "auto"

  def init_state(self, init_params, *args, **kwargs):
    return MockState(*self.init_fn(init_params, *args, **kwargs), aux=None)

  def update(self, params, state, *args, **kwargs):
    p, st = self.update_fn(params, state, *args, **kwargs)
    return base.OptStep(params=p, state=MockState(*st, aux=None))

  def optimality_fun(self, params, *args, **kwargs):
    return self.opt_fn(params, *args, **kwargs)


def run_ref(init, update, cond, maxiter, step, init_params, args, kwargs):
  """At most max(1, maxiter) updates, each after the first only if the test says continue."""
  state = init(init_params, *args, **kwargs)
  out = step(init_params, state)
  if maxiter == 0:
    return out
  out = update(init_params, state, *args, **kwargs)
  for _ in range(maxiter - 1):
    if not cond(((out[0], out.state), (args, kwargs))):
      break
    out = update(out[0], out.state, *args, **kwargs)
  return out


def run_iterator_ref(init, update, maxiter, step, init_params, batches, args, kwargs):
  """One batch for initialisation, then one update per following batch, at most maxiter."""
  state = init(init_params, *args, **kwargs, data=batches[0])
  params = init_params
  for data in batches[1:maxiter + 1]:
    params, state = update(params, state, *args, **kwargs, data=data)
  return step(params, state)


def madsen_nielsen(state, params, gtol, xtol):
  """Continue while neither the gradient nor the relative step is small."""
  norm = tu.tree_l2_norm
  return (tu.tree_inf_norm(state.gradient) > gtol) & (norm(state.delta) > xtol * (norm(params) + xtol))


class RunOnly(NamedTuple):
  """An object with a run method."""
  run: Any


class NoiseLike(NamedTuple):
  """A distribution: only its sampler and log-density are known."""
  sample: Any
  log_prob: Any
