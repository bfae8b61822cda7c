"""Implicit-function-theorem derivatives of a root F(x, theta) = 0 and of a fixed point T(x) = x."""
import jax

from spec import tree_util as tu


def root_vjp_a(F, sol, args, cotangent, solve):
  pull_x = jax.vjp(lambda x: F(x, *args), sol)[1]
  u = solve(lambda w: pull_x(w)[0], tu.tree_negative(cotangent))
  return jax.vjp(lambda *theta: F(sol, *theta), *args)[1](u)


def root_vjp_b(F, sol, args, cotangent, solve):
  pull_x = jax.vjp(lambda x: F(x, *args), sol)[1]
  u = solve(lambda w: pull_x(w)[0], cotangent)
  out = jax.vjp(lambda *theta: F(sol, *theta), *args)[1](u)
  return tuple(tu.tree_negative(o) for o in out)


def root_vjp_c(F, sol, args, cotangent, solve):
  pull_x = jax.vjp(lambda x: F(x, *args), sol)[1]
  u = solve(lambda w: tu.tree_negative(pull_x(w)[0]), cotangent)
  return jax.vjp(lambda *theta: F(sol, *theta), *args)[1](u)


def root_jvp_a(F, sol, args, tangents, solve):
  push = lambda u: jax.jvp(lambda x: F(x, *args), (sol,), (u,))[1]
  b = jax.jvp(lambda *theta: F(sol, *theta), args, tangents)[1]
  return solve(push, tu.tree_negative(b))


def root_jvp_b(F, sol, args, tangents, solve):
  push = lambda u: jax.jvp(lambda x: F(x, *args), (sol,), (u,))[1]
  b = jax.jvp(lambda *theta: F(sol, *theta), args, tangents)[1]
  return tu.tree_negative(solve(push, b))


def root_jvp_c(F, sol, args, tangents, solve):
  push = lambda u: tu.tree_negative(jax.jvp(lambda x: F(x, *args), (sol,), (u,))[1])
  b = jax.jvp(lambda *theta: F(sol, *theta), args, tangents)[1]
  return solve(push, b)


def fixed_point_residual(T):
  return lambda x, *args: tu.tree_sub(T(x, *args), x)


def kkt(obj, eq, ineq):
  """Stationarity, primal feasibility and complementary slackness of min obj s.t. eq = 0, ineq <= 0."""
  def F(params, params_obj, params_eq, params_ineq):
    x, nu, lam = params
    g = jax.grad(obj)(x, params_obj)
    feas = None
    slack = None
    if nu is not None:
      g = tu.tree_add(g, jax.vjp(lambda z: eq(z, params_eq), x)[1](nu)[0])
      feas = eq(x, params_eq)
    if lam is not None:
      g = tu.tree_add(g, jax.vjp(lambda z: ineq(z, params_ineq), x)[1](lam)[0])
      slack = tu.tree_mul(ineq(x, params_ineq), lam)
    return g, feas, slack
  return F
