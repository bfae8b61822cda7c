"""Reference quadratic-program solvers (interpreted, never run).

min 0.5 x'Qx + c'x  s.t.  Ax = z, l <= z <= u    (multipliers y of Ax = z, mu of z <= u, phi of l <= z)
"""
import jax
import jax.numpy as jnp
import jax.scipy as jsp

from spec import tree_util as tu


def operators(o, x, params_obj):
  """Products with Q and c of the objective as the user supplied it."""
  fun = o.get("fun")
  if fun is not None:
    g = jax.grad(fun)
    c = g(tu.tree_zeros_like(x), params_obj)
    return (lambda v: g(v, params_obj) - c), c
  pQ, c = params_obj
  mv = o.get("matvec_Q")
  if mv is None:
    return (lambda v: jnp.dot(pQ, v)), c
  return (lambda v: mv(pQ, v)), c


def constraints(o, pA):
  """Products with A and its transpose."""
  mv = o.get("matvec_A")
  if mv is None:
    return (lambda v: jnp.dot(pA, v)), (lambda v, y: jnp.dot(pA.T, y))
  f = lambda v: mv(pA, v)
  return f, (lambda v, y: jax.vjp(f, v)[1](y)[0])


def inf_norm(v):
  return jnp.max(jnp.abs(v))


def residuals(Q, c, A, AT, x, z, y):
  return A(x) - z, Q(x) + c + AT(x, y)


def box_init(s, o, params, params_obj, params_eq, params_ineq):
  x, z = params.primal
  Q, c = operators(o, x, params_obj)
  A, AT = constraints(o, params_eq)
  p, d = residuals(Q, c, A, AT, x, z, params.dual_eq)
  return dict(error=jnp.inf, status=0, primal_residuals=p, dual_residuals=d, rho_bar=s.rho_start)


def box_step(s, o, params, rho, params_obj, params_eq, params_ineq):
  """One relaxed ADMM iteration with penalty rho."""
  x, z = params.primal
  y = params.dual_eq
  l, u = params_ineq
  Q, c = operators(o, x, params_obj)
  A, AT = constraints(o, params_eq)
  # argmin 0.5 v'Qv + c'v + sigma/2 |v - x|^2 + rho/2 |Av - z + y/rho|^2
  system = lambda v: Q(v) + s.sigma * v + rho * AT(v, A(v))
  rhs = s.sigma * x - c + AT(x, rho * z - y)
  xt = jsp.sparse.linalg.cg(system, rhs)[0]
  zt = A(xt)
  m = s.momentum
  xn = m * xt + (1 - m) * x
  zm = m * zt + (1 - m) * z
  zn = jnp.clip(zm + y / rho, l, u)
  yn = y + rho * (zm - zn)
  return xn, zn, yn


def box_update(s, o, params, state, params_obj, params_eq, params_ineq):
  x, z = params.primal
  y = params.dual_eq
  rho = state.rho_bar
  xn, zn, yn = box_step(s, o, params, rho, params_obj, params_eq, params_ineq)
  Q, c = operators(o, x, params_obj)
  A, AT = constraints(o, params_eq)
  p, d = residuals(Q, c, A, AT, xn, zn, yn)

  # penalty
  scale_p = inf_norm(A(xn))
  scale_d = jnp.maximum(inf_norm(Q(xn)), jnp.maximum(inf_norm(AT(xn, yn)), inf_norm(c)))
  rel_d = inf_norm(d) / scale_d
  ratio = jnp.sqrt((inf_norm(p) / scale_p) / (rel_d + jnp.finfo(rel_d.dtype).eps))
  new_rho = jnp.clip(rho * ratio, s.rho_min, s.rho_max)
  rho_next = jnp.where(jnp.mod(state.iter_num, s.stepsize_updates_frequency) == 0, new_rho, rho)

  error, status = verdict(s, Q, c, A, AT, params_ineq, p, d, xn - x, yn - y)
  tested = jnp.mod(state.iter_num, s.termination_check_frequency) == 0
  mu = jnp.maximum(yn, 0)
  phi = jnp.maximum(-yn, 0)
  return dict(x=xn, z=zn, y=yn, mu=mu, phi=phi, primal_residuals=p, dual_residuals=d, rho_bar=rho_next,
              error=jnp.where(tested, error, state.error), status=jnp.where(tested, status, state.status))


def verdict(s, Q, c, A, AT, box, p, d, dx, dy):
  error = jnp.maximum(inf_norm(p), inf_norm(d))
  status = jnp.where(error <= s.tol, 1, 0)
  if s.check_primal_dual_infeasability:
    dual = unbounded_direction(s, Q, c, A, box, dx)
    primal = separating_direction(s, AT, box, dx, dy)
    status = jnp.where(primal, 3, jnp.where(dual, 2, status))
    error = jnp.where(primal, 0., jnp.where(dual, 0., error))
  return error, status


def unbounded_direction(s, Q, c, A, box, dx):
  """dx != 0, Q dx ~ 0, c'dx <= 0 (up to tolerance), A dx in the recession cone of [l, u]."""
  l, u = box
  eps = s.dual_infeasible_tol * inf_norm(dx)
  Adx = A(dx)
  low = jnp.all(Adx >= jnp.where(l == -jnp.inf, -jnp.inf, -eps))
  high = jnp.all(Adx <= jnp.where(u == jnp.inf, jnp.inf, eps))
  ok = jnp.logical_and(jnp.logical_and(inf_norm(Q(dx)) <= eps, jnp.vdot(c, dx) <= eps), jnp.logical_and(low, high))
  return jnp.logical_and(ok, eps > 0)


def separating_direction(s, AT, box, dx, dy):
  """dy != 0, A'dy ~ 0 and the support function of [l, u] at dy <= 0 (up to tolerance)."""
  l, u = box
  eps = s.primal_infeasible_tol * inf_norm(dy)
  up, down = jnp.maximum(dy, 0), jnp.minimum(dy, 0)
  lf = jnp.where(l == -jnp.inf, 0., l)
  uf = jnp.where(u == jnp.inf, 0., u)
  finite = jnp.vdot(lf, down) + jnp.vdot(uf, up)
  far = jnp.all(jnp.logical_and(jnp.logical_or(l != -jnp.inf, dy >= -eps), jnp.logical_or(u != jnp.inf, dy <= eps)))
  ok = jnp.logical_and(inf_norm(AT(dx, dy)) <= eps, finite <= eps)
  return jnp.logical_and(jnp.logical_and(ok, far), eps > 0)


def box_start(o, x, params_eq, params_ineq):
  """Starting point of a run that is given x only."""
  A, _ = constraints(o, params_eq)
  l, u = params_ineq
  z = jnp.clip(A(x), l, u)
  return x, z, tu.tree_zeros_like(z)


def kkt_system(o, x, params_obj, params_eq):
  """The linear system of an equality-constrained program: matrix-vector product and right-hand side."""
  pA, b = params_eq
  Q, c = operators(o, x, params_obj)
  A, AT = constraints(o, pA)
  return (lambda u, v: (Q(u) + AT(u, v), A(u))), (-c, b)


def jacobi(Q, A, sigma, rho, v):
  """v divided by the diagonal of Q + sigma I + rho A'A."""
  return v / (jnp.diag(Q) + sigma + rho * jnp.sum(A ** 2, axis=0))
