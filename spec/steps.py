"""Reference initialisation and update of every iterative solver (interpreted, never run).

Each reference reads the public options of the solver object `s` and returns the
new parameters with a dictionary of state entries.  Entries that are left out are
not constrained.
"""
import jax
import jax.numpy as jnp
import jax.scipy as jsp

import jaxopt
from jaxopt._src import base
from spec import tree_util as tu
from spec import mocks


USER = {}    # options given to the solver's constructor


def vg_of(s):
  return mocks.value_and_grad_of(s.fun, s.value_and_grad, s.has_aux)


def fun_aux(fun, has_aux):
  if has_aux:
    return fun
  return lambda *a, **k: (fun(*a, **k), None)


# ------------------------------------------------------- proximal gradient ---
def prox_grad_init(s, prox, params, hyper, args, kwargs):
  out = dict(iter_num=0, t=1.0, stepsize=1.0, error=jnp.inf, aux=None, velocity=None)
  if s.has_aux:
    out["aux"] = vg_of(s)(params, *args, **kwargs)[0][1]
  if s.acceleration:
    out["velocity"] = params
  return out


def prox_grad_update(s, prox, params, state, hyper, args, kwargs):
  vg = vg_of(s)
  x = state.velocity if s.acceleration else params
  (value, aux), grad = vg(x, *args, **kwargs)

  def candidate(step):
    return prox(tu.tree_add_scalar_mul(x, -step, grad), hyper, step)

  def too_long(new, step):
    d = tu.tree_sub(new, x)
    f = vg(new, *args, **kwargs)[0][0]
    lhs = step * (f - value)
    return lhs > step * tu.tree_vdot(d, grad) + 0.5 * tu.tree_l2_norm(d, squared=True) + jnp.finfo(value.dtype).eps

  if callable(s.stepsize):
    step = s.stepsize(state.iter_num)
    new = candidate(step)
    reported = step
  elif s.stepsize > 0:
    step = s.stepsize
    new = candidate(step)
    reported = step
  else:
    step = state.stepsize
    new = candidate(step)
    going = True
    for _ in range(s.maxls):
      going = jnp.logical_and(going, too_long(new, step))
      shorter = step * s.decrease_factor
      new = tu.tree_where_scalar(going, candidate(shorter), new)
      step = jnp.where(going, shorter, step)
    reported = jnp.where(step <= 1e-6, 1.0, step / s.decrease_factor)
  diff = tu.tree_sub(new, params)
  out = dict(iter_num=state.iter_num + 1, stepsize=reported, aux=aux, error=tu.tree_l2_norm(diff) / reported)
  if s.acceleration:
    t = 0.5 * (1 + jnp.sqrt(1 + 4 * state.t ** 2))
    out["t"] = t
    out["velocity"] = tu.tree_add_scalar_mul(new, (state.t - 1) / t, diff)
  else:
    out["velocity"] = None
  return new, out


def ProximalGradient_init(s, params, args, kwargs):
  return prox_grad_init(s, s.prox, params, args[0], args[1:], kwargs)


def ProximalGradient_update(s, params, state, args, kwargs):
  return prox_grad_update(s, s.prox, params, state, args[0], args[1:], kwargs)


def ProjectedGradient_init(s, params, args, kwargs):
  return prox_grad_init(s, None, params, args[0], args[1:], kwargs)


def ProjectedGradient_update(s, params, state, args, kwargs):
  return prox_grad_update(s, lambda x, h, step: s.projection(x, h), params, state, args[0], args[1:], kwargs)


def GradientDescent_init(s, params, args, kwargs):
  return prox_grad_init(s, None, params, None, args, kwargs)


def GradientDescent_update(s, params, state, args, kwargs):
  return prox_grad_update(s, lambda x, h, step: x, params, state, None, args, kwargs)


# ------------------------------------------------------------------ mirror ---
def MirrorDescent_init(s, params, args, kwargs):
  if s.has_aux:
    return dict(iter_num=0, error=jnp.inf, aux=s.fun(params, *args[1:], **kwargs)[1], num_fun_eval=1,
                num_grad_eval=0, num_proj_eval=0)
  return dict(iter_num=0, error=jnp.inf, aux=None, num_fun_eval=0, num_grad_eval=0, num_proj_eval=0)


def MirrorDescent_update(s, params, state, args, kwargs):
  (_, aux), grad = mocks.value_and_grad_of(s.fun, False, s.has_aux)(params, *args[1:], **kwargs)
  step = s.stepsize(state.iter_num) if callable(s.stepsize) else s.stepsize
  new = s.projection_grad(params, grad, step, args[0])
  return new, dict(iter_num=state.iter_num + 1, error=tu.tree_l2_norm(tu.tree_sub(new, params)) / step, aux=aux,
                   num_fun_eval=state.num_fun_eval + 1, num_grad_eval=state.num_grad_eval + 1,
                   num_proj_eval=state.num_proj_eval + 1)


# ---------------------------------------------------------- block descent ----
def BlockCoordinateDescent_init(s, params, args, kwargs):
  data = args[1:]
  pred = s.fun.make_linop(*data, **kwargs).matvec(params)
  return dict(iter_num=0, error=jnp.inf, predictions=pred,
              subfun_g=jax.grad(s.fun.subfun)(pred, *data, **kwargs),
              num_fun_eval=1, num_grad_eval=1, num_prox_eval=0)


def BlockCoordinateDescent_update(s, params, state, args, kwargs):
  hyper, data = args[0], args[1:]
  linop = s.fun.make_linop(*data, **kwargs)
  step = 1.0 / s.fun.columnwise_lipschitz_const(*data, **kwargs)
  b = s.fun.b(*data, **kwargs)
  gradsub = jax.grad(s.fun.subfun)

  def one(i, carry):
    x, g, pred, sq = carry
    gi = linop.rmatvec_element(g, i)
    if b is not None:
      gi = gi + b[i]
    new = s.block_prox(x[i] - step[i] * gi, hyper, step[i])
    d = new - x[i]
    pred = linop.update_matvec(pred, d, i)
    return x.at[i].set(new), gradsub(pred, *data, **kwargs), pred, sq + jnp.sum(d ** 2)

  n = params.shape[0]
  x, g, pred, sq = jax.lax.fori_loop(0, n, one, (params, state.subfun_g, state.predictions, 0))
  return x, dict(iter_num=state.iter_num + 1, predictions=pred, subfun_g=g, error=jnp.sqrt(sq),
                 num_fun_eval=state.num_fun_eval + n, num_grad_eval=state.num_grad_eval + n,
                 num_prox_eval=state.num_prox_eval + n)


# --------------------------------------------------------------- stochastic --
def PolyakSGD_init(s, params, args, kwargs):
  (_, aux), _ = vg_of(s)(params, *args, **kwargs)
  return dict(iter_num=0, error=jnp.inf, value=jnp.inf, stepsize=1.0, aux=aux,
              velocity=None if s.momentum == 0 else tu.tree_zeros_like(params), num_fun_eval=1, num_grad_eval=0)


def PolyakSGD_update(s, params, state, args, kwargs):
  if s.pre_update:
    params, state = s.pre_update(params, state, *args, **kwargs)
  (value, aux), grad = vg_of(s)(params, *args, **kwargs)
  sq = tu.tree_l2_norm(grad, squared=True)
  if s.variant == "SPS_max":
    step = jnp.minimum((value - s.fun_min) / (sq + s.delta), s.max_stepsize)
  else:
    eps = jnp.finfo(value.dtype).eps
    step = jnp.where(sq <= eps, 0.0, jnp.maximum((value - s.fun_min) / sq, 0.0))
  move = tu.tree_scalar_mul(-step, grad)
  velocity = None
  if s.momentum != 0:
    velocity = tu.tree_add_scalar_mul(move, s.momentum, state.velocity)
    move = velocity
  return tu.tree_add(params, move), dict(
      iter_num=state.iter_num + 1, error=tu.tree_l2_norm(grad), value=value, stepsize=step, aux=aux,
      velocity=velocity, num_fun_eval=state.num_fun_eval + 1, num_grad_eval=state.num_grad_eval + 1)


def ArmijoSGD_init(s, params, args, kwargs):
  (_, aux), _ = vg_of(s)(params, *args, **kwargs)
  return dict(iter_num=0, error=jnp.inf, value=jnp.inf, aux=aux, stepsize=s.max_stepsize,
              velocity=None if s.momentum == 0 else tu.tree_zeros_like(params))


def ArmijoSGD_update(s, params, state, args, kwargs):
  if s.pre_update:
    params, state = s.pre_update(params, state, *args, **kwargs)
  vg = vg_of(s)
  (value, aux), grad = vg(params, *args, **kwargs)
  coef = 1 - s.aggressiveness
  sq = tu.tree_l2_norm(grad, squared=True)
  step = state.stepsize
  if s.reset_option == "increase":
    step = jnp.minimum(step * s.increase_factor, s.max_stepsize)

  def at(step):
    p = tu.tree_add_scalar_mul(params, -step, grad)
    return p, vg(p, *args, **kwargs)[0][0]

  new, f = at(step)
  going = True
  for _ in range(s.maxls):
    small = jnp.logical_and(going, step * coef * sq > value - f + jnp.finfo(f.dtype).eps)
    step1 = jnp.where(small, jnp.minimum(step * s.decrease_factor, s.max_stepsize), step)
    new1, f1 = at(step1)
    new, f, step = tu.tree_where_scalar(small, new1, new), jnp.where(small, f1, f), step1
    more = small
    if s.reset_option == "goldstein":
      large = jnp.logical_and(going, f < value - step * (1. - coef) * sq)
      step2 = jnp.where(large, jnp.minimum(step * s.increase_factor, s.max_stepsize), step)
      new2, f2 = at(step2)
      new, f, step = tu.tree_where_scalar(large, new2, new), jnp.where(large, f2, f), step2
      more = jnp.logical_or(small, large)
    going = more
  velocity = None
  if s.momentum != 0:
    new = tu.tree_add_scalar_mul(new, s.momentum, state.velocity)
    velocity = tu.tree_sub(new, params)
  return new, dict(iter_num=state.iter_num + 1, error=tu.tree_l2_norm(grad), value=f, aux=aux, stepsize=step,
                   velocity=velocity)


def OptaxSolver_init(s, params, args, kwargs):
  (_, aux), _ = vg_of(s)(params, *args, **kwargs)
  return dict(iter_num=0, error=jnp.inf, value=jnp.inf, aux=aux, internal_state=s.opt.init(params))


def OptaxSolver_update(s, params, state, args, kwargs):
  if s.pre_update:
    params, state = s.pre_update(params, state, *args, **kwargs)
  (value, aux), grad = vg_of(s)(params, *args, **kwargs)
  delta, inner = s.opt.update(grad, state.internal_state, params)
  return tu.tree_add(params, delta), dict(iter_num=state.iter_num + 1, error=tu.tree_l2_norm(grad), value=value,
                                          aux=aux, internal_state=inner)


# ------------------------------------------------------------ quasi-Newton ---
def make_ls(s, vg):
  f = lambda *a, **k: vg(*a, **k)[0]
  if s.linesearch == "backtracking":
    return jaxopt.BacktrackingLineSearch(fun=f, value_and_grad=vg, has_aux=True, maxiter=s.maxls,
                                         max_stepsize=s.max_stepsize)
  if s.linesearch == "zoom":
    return jaxopt.ZoomLineSearch(fun=f, value_and_grad=vg, has_aux=True, maxiter=s.maxls,
                                 max_stepsize=s.max_stepsize)
  return jaxopt.HagerZhangLineSearch(fun=f, value_and_grad=vg, has_aux=True, maxiter=s.maxls)


def first_step(s, stepsize):
  if s.linesearch_init == "max":
    return s.max_stepsize
  if s.linesearch_init == "current":
    return stepsize
  return jnp.where(stepsize <= s.min_stepsize, s.max_stepsize, stepsize * s.increase_factor)


def along(s, params, state, direction, args, kwargs, post=None):
  """Move along the direction: searched, fixed or scheduled step."""
  vg = vg_of(s)
  if not callable(s.stepsize) and s.stepsize <= 0:
    return searched(s, params, state, direction, args, kwargs)
  step = s.stepsize(state.iter_num) if callable(s.stepsize) else s.stepsize
  new = tu.tree_add_scalar_mul(params, step, direction)
  if post is not None:
    new = post(new)
  (value, aux), grad = vg(new, *args, **kwargs)
  return new, dict(iter_num=state.iter_num + 1, value=value, grad=grad, aux=aux, stepsize=step,
                   num_fun_eval=state.num_fun_eval + 1, num_grad_eval=state.num_grad_eval + 1,
                   num_linesearch_iter=state.num_linesearch_iter, failed_linesearch=False)


def searched(s, params, state, direction, args, kwargs):
  ls = make_ls(s, vg_of(s))
  step, r = ls.run(first_step(s, state.stepsize), params, state.value, state.grad, direction, args, kwargs)
  return r.params, dict(iter_num=state.iter_num + 1, value=r.value, grad=r.grad, aux=r.aux, stepsize=step,
                        num_fun_eval=state.num_fun_eval + r.num_fun_eval,
                        num_grad_eval=state.num_grad_eval + r.num_grad_eval,
                        num_linesearch_iter=state.num_linesearch_iter + r.iter_num, failed_linesearch=r.failed)


def first_eval(s, params, args, kwargs):
  (value, aux), grad = vg_of(s)(params, *args, **kwargs)
  return dict(iter_num=0, value=value, grad=grad, aux=aux, error=jnp.inf, stepsize=s.max_stepsize, num_fun_eval=1,
              num_grad_eval=1, num_linesearch_iter=0, failed_linesearch=False)


def BFGS_init(s, params, args, kwargs):
  out = first_eval(s, params, args, kwargs)
  out["H"] = jnp.eye(params.size)
  return out


def BFGS_update(s, params, state, args, kwargs):
  new, out = along(s, params, state, -jnp.dot(state.H, state.grad), args, kwargs)
  d, y = new - params, out["grad"] - state.grad
  rho = 1 / jnp.dot(y, d)
  w = jnp.eye(params.size) - rho * jnp.outer(d, y)
  H = jnp.matmul(jnp.matmul(w, state.H), w.T) + rho * jnp.outer(d, d)
  out["H"] = jnp.where(jnp.isfinite(rho), H, state.H)
  out["error"] = tu.tree_l2_norm(out["grad"])
  return new, out


def zeros_history(params, m):
  return jax.tree_util.tree_map(lambda x: jnp.zeros((m,) + x.shape), params)


def at(history, i):
  return jax.tree_util.tree_map(lambda h: h[i], history)


def put(history, i, v):
  return jax.tree_util.tree_map(lambda h, x: h.at[i].set(x), history, v)


def LBFGS_init(s, params, args, kwargs):
  if isinstance(params, base.OptStep):
    st = params.state
    out = first_eval(s, params.params, args, kwargs)
    out.update(s_history=st.s_history, y_history=st.y_history, rho_history=st.rho_history, gamma=st.gamma,
               iter_num=st.iter_num, stepsize=st.stepsize)
    return out
  out = first_eval(s, params, args, kwargs)
  h = zeros_history(params, s.history_size)
  out.update(s_history=h, y_history=h, rho_history=jnp.zeros(s.history_size), gamma=1.0)
  return out


def two_loop(v, sh, yh, rho, gamma, start, m):
  """Nocedal & Wright, algorithm 7.4: newest to oldest, then oldest to newest."""
  order = [(start + k) % m for k in range(m)]
  alpha = {}
  for k in reversed(range(m)):
    i = order[k]
    alpha[k] = rho[i] * tu.tree_vdot_real(at(sh, i), v)
    v = tu.tree_add_scalar_mul(v, -alpha[k], at(yh, i))
  v = tu.tree_scalar_mul(gamma, v)
  for k in range(m):
    i = order[k]
    beta = rho[i] * tu.tree_vdot_real(at(yh, i), v)
    v = tu.tree_add_scalar_mul(v, alpha[k] - beta, at(sh, i))
  return v


def LBFGS_update(s, params, state, args, kwargs):
  m = s.history_size
  i = state.iter_num % m
  d = tu.tree_scalar_mul(-1.0, tu.tree_conj(state.grad))
  d = two_loop(d, state.s_history, state.y_history, state.rho_history, state.gamma, i, m)
  new, out = along(s, params, state, d, args, kwargs)
  ds = tu.tree_sub(new, params)
  dy = tu.tree_conj(tu.tree_sub(out["grad"], state.grad))
  sy = tu.tree_vdot_real(ds, dy)
  rho = jnp.where(sy == 0, 0, 1. / sy)
  out["s_history"] = put(state.s_history, i, ds)
  out["y_history"] = put(state.y_history, i, dy)
  out["rho_history"] = state.rho_history.at[i].set(rho)
  yy = tu.tree_vdot_real(dy, dy)
  out["gamma"] = jnp.where(yy > 0, tu.tree_vdot_real(dy, ds) / yy, 1.0) if s.use_gamma else 1.0
  out["error"] = tu.tree_l2_norm(out["grad"])
  return new, out


def box_error(x, g, lower, upper):
  return tu.tree_inf_norm(jax.tree_util.tree_map(lambda a, b, l, u: jnp.clip(a - b, l, u) - a, x, g, lower, upper))


def LBFGSB_init(s, params, args, kwargs):
  warm = isinstance(params, base.OptStep)
  p = params.params if warm else params
  out = first_eval(s, p, args[1:], kwargs)
  out["error"] = box_error(p, out["grad"], args[0][0], args[0][1])
  if warm:
    st = params.state
    out.update(s_history=st.s_history, y_history=st.y_history, num_updates=st.num_updates, theta=st.theta,
               iter_num=st.iter_num, stepsize=st.stepsize)
  else:
    h = zeros_history(params, s.history_size)
    out.update(s_history=h, y_history=h, num_updates=0, theta=s.theta)
  return out


def cauchy_point(x, g, lower, upper, theta, w, m):
  """Algorithm CP: first minimiser of the model along the projected steepest-descent path."""
  eps = jnp.finfo(x.dtype).eps
  reach = jnp.where(g < 0, (x - upper) / g, (x - lower) / g)
  t = jnp.where(jnp.abs(g) < eps, jnp.inf, reach)
  d = jnp.where(t < eps, 0.0, -g)
  bound = jnp.where(d > 0, upper, jnp.where(d < 0, lower, x))
  order = jnp.argsort(t)
  ts = t[order]
  dt = jnp.diff(jnp.pad(ts, (1, 0), "constant"))
  free = ts > eps
  first = jnp.argmax(jnp.concatenate([free, jnp.ones([1]).astype(bool)]))
  p = jnp.dot(w.T, d)
  df = -jnp.dot(d, d)
  ddf = -theta * df - jnp.dot(m @ p, p)

  def go(st):
    i, df, ddf, free, c, p = st
    return jnp.logical_and(-df / ddf >= dt[i], i < x.size)

  def segment(st):
    i, df, ddf, free, c, p = st
    b = order[i]
    gb, wb = g[b], w[b]
    c1 = c + dt[i] * p
    z = bound[b] - x[b]
    df1 = df + dt[i] * ddf + gb * gb + theta * gb * z - gb * jnp.dot(wb, m @ c1)
    ddf1 = ddf - theta * gb * gb - 2 * gb * jnp.dot(wb, m @ p) - gb * gb * jnp.dot(wb, m @ wb)
    return i + 1, df1, jnp.maximum(ddf1, eps), free.at[i].set(False), c1, p + gb * wb

  i, df, ddf, free, c, p = jax.lax.while_loop(go, segment, (first, df, ddf, free, 0.0 * p, p))
  step = jnp.maximum(-df / ddf, 0.0)
  step = jnp.where(jnp.isnan(step), 0.0, step)
  total = step + jnp.where(i > 0, ts[i - 1], 0.0)
  free = free[jnp.argsort(order)]
  return jnp.where(free, x + total * d, bound), c + step * p, free


def minimise_free(x, g, lower, upper, xc, c, theta, w, m, free):
  """Direct primal subspace minimisation from the Cauchy point, truncated at the bounds."""
  wf = w * free[:, None]
  r = g + theta * (xc - x) - wf @ (m @ c)
  n = jnp.eye(m.shape[-1]) - m @ (wf.T @ wf / theta)
  v = jnp.linalg.solve(n, m @ (wf.T @ r))
  du = -r / theta - wf @ v / theta ** 2
  room = jnp.maximum((upper - xc) / du, (lower - xc) / du)
  room = jnp.where(jnp.logical_and(free, jnp.abs(du) > 0), room, 1.0)
  a = jnp.minimum(jnp.min(room), 1.0)
  return jnp.where(free, xc + a * du, xc)


def LBFGSB_update(s, params, state, args, kwargs):
  lower, upper = args[0]
  k = s.history_size
  S, Y, theta, n = state.s_history, state.y_history, state.theta, state.num_updates
  w = jnp.concatenate([Y, theta * S]).T
  SY, SS = S @ Y.T, S @ S.T
  unused = (jnp.arange(k) >= n).astype(params.dtype)
  last = n % k - 1
  fill = lambda M: unused * jnp.where(n > 0, M[last, last], 1.0)
  i, j = jnp.diag_indices(k)
  on_diag = lambda v: jnp.zeros_like(SY).at[i, j].set(v)
  L = jnp.tril(SY, -1)
  D = -jnp.diag(jnp.diag(SY)) + on_diag(fill(SY))
  top = jnp.concatenate([D, L.T], axis=1)
  bottom = jnp.concatenate([L, theta * SS + on_diag(fill(SS)) * theta], axis=1)
  m = jnp.linalg.inv(jnp.concatenate([top, bottom], axis=0))
  xc, c, free = cauchy_point(params, state.grad, lower, upper, theta, w, m)
  target = minimise_free(params, state.grad, lower, upper, xc, c, theta, w, m, free)
  new, out = along(s, params, state, target - params, args[1:], kwargs, lambda x: jnp.clip(x, lower, upper))
  ds, dy = new - params, out["grad"] - state.grad
  curvature = tu.tree_vdot(dy, ds)
  gamma = tu.tree_vdot(dy, dy) / curvature if s.use_gamma else 1.0
  good = curvature > 0
  h = n % k
  out.update(error=box_error(new, out["grad"], lower, upper), s_history=jnp.where(good, put(S, h, ds), S),
             y_history=jnp.where(good, put(Y, h, dy), Y), theta=jnp.where(good, gamma * s.theta, theta),
             num_updates=jnp.where(good, n + 1, n))
  return new, out


def NonlinearCG_init(s, params, args, kwargs):
  out = first_eval(s, params, args, kwargs)
  out["descent_direction"] = tu.tree_scalar_mul(-1, tu.tree_conj(out["grad"]))
  return out


def NonlinearCG_update(s, params, state, args, kwargs):
  d = state.descent_direction
  new, out = searched(s, params, state, None if s.linesearch == "backtracking" else d, args, kwargs)
  g0, g = state.grad, out["grad"]
  if s.method == "hestenes-stiefel":
    den = tu.tree_vdot_real(tu.tree_conj(tu.tree_sub(g, g0)), d)
  else:
    den = tu.tree_vdot_real(g0, g0)
  den = jnp.where(den >= 1e-6, den, 1e-6)
  if s.method == "fletcher-reeves":
    num = tu.tree_vdot_real(g, g)
  else:
    num = tu.tree_vdot_real(tu.tree_conj(tu.tree_sub(g, g0)), tu.tree_conj(g))
  beta = jnp.maximum(num / den, 0)
  out["descent_direction"] = tu.tree_add_scalar_mul(tu.tree_scalar_mul(-1, tu.tree_conj(g)), beta, d)
  return new, out


def Broyden_init(s, params, args, kwargs):
  warm = isinstance(params, base.OptStep)
  p = params.params if warm else params
  value, aux = fun_aux(s.fun, s.has_aux)(p, *args, **kwargs)
  out = dict(value=value, aux=aux, error=jnp.inf, num_fun_eval=1, num_linesearch_iter=0, failed_linesearch=False)
  if warm:
    st = params.state
    out.update(d_history=st.d_history, c_history=st.c_history, gamma=st.gamma, iter_num=st.iter_num,
               stepsize=st.stepsize)
  else:
    h = zeros_history(params, s.history_size)
    out.update(d_history=h, c_history=h, gamma=s.gamma, iter_num=0, stepsize=s.max_stepsize)
  return out


def low_rank(v, left, right, gamma, m, start):
  """gamma v + sum_k left_k <right_k, v>, leaf by leaf."""
  def leaf(x, l, r):
    out = gamma * x
    for k in range(m):
      j = (start + k) % m
      out = out + l[j] * jnp.sum(r[j] * x)
    return out
  return jax.tree_util.tree_map(leaf, v, left, right)


def Broyden_update(s, params, state, args, kwargs):
  m = s.history_size
  f = fun_aux(s.fun, s.has_aux)
  prod = lambda v: low_rank(v, state.c_history, state.d_history, state.gamma, m, state.iter_num % m)
  rprod = lambda v: low_rank(v, state.d_history, state.c_history, jnp.conj(state.gamma), m, state.iter_num % m)
  direction = tu.tree_scalar_mul(-1.0, prod(state.value))
  out = dict(iter_num=state.iter_num + 1, gamma=state.gamma)
  if not callable(s.stepsize) and s.stepsize <= 0:
    def sq(p, *a, **k):
      v, aux = f(p, *a, **k)
      return tu.tree_l2_norm(v, squared=True), (v, aux)
    ls = jaxopt.BacktrackingLineSearch(fun=jax.value_and_grad(sq, has_aux=True), value_and_grad=True, has_aux=True,
                                       maxiter=s.maxls, decrease_factor=s.decrease_factor,
                                       max_stepsize=s.max_stepsize, condition=s.condition, tol=1e-2)
    first = jnp.where(state.stepsize <= s.min_stepsize, s.max_stepsize, state.stepsize * s.increase_factor)
    step, r = ls.run(first, params, state.value, None, direction, args, kwargs)
    value, aux = r.aux
    new = r.params
    out.update(num_linesearch_iter=state.num_linesearch_iter + r.iter_num,
               num_fun_eval=state.num_fun_eval + r.num_fun_eval, failed_linesearch=r.failed)
  else:
    step = s.stepsize(state.iter_num) if callable(s.stepsize) else s.stepsize
    new = tu.tree_add_scalar_mul(params, step, direction)
    value, aux = f(new, *args, **kwargs)
    out.update(num_linesearch_iter=state.num_linesearch_iter, num_fun_eval=state.num_fun_eval + 1,
               failed_linesearch=False)
  dx, dg = tu.tree_sub(new, params), tu.tree_sub(value, state.value)
  v = rprod(dx)
  d = tu.tree_scalar_mul(1 / tu.tree_vdot(v, dg), v)
  c = tu.tree_sub(dx, prod(dg))
  i = state.iter_num % m
  out.update(value=value, aux=aux, stepsize=step, error=tu.tree_l2_norm(value),
             d_history=put(state.d_history, i, d), c_history=put(state.c_history, i, c))
  return new, out


# ------------------------------------------------------------ least squares --
def residual_parts(s, params, args, kwargs):
  r, aux = fun_aux(s.residual_fun, s.has_aux)(params, *args, **kwargs)
  f = lambda p: fun_aux(s.residual_fun, s.has_aux)(p, *args, **kwargs)[0]
  jt = lambda v: jax.vjp(f, params)[1](v)[0]
  jv = lambda v: jax.jvp(f, (params,), (v,))[1]
  return r, aux, f, jt, jv


def GaussNewton_init(s, params, args, kwargs):
  r, aux, f, jt, jv = residual_parts(s, params, args, kwargs)
  return dict(iter_num=0, error=jnp.inf, residual=r, value=0.5 * jnp.sum(r ** 2), gradient=jt(r), aux=aux)


def GaussNewton_update(s, params, state, args, kwargs):
  r, aux, f, jt, jv = residual_parts(s, params, args, kwargs)
  g = jt(r)
  delta = jaxopt.linear_solve.solve_cg(lambda v: jt(jv(v)), g)
  return params - delta, dict(iter_num=state.iter_num + 1, error=tu.tree_l2_norm(delta), residual=r,
                              value=0.5 * jnp.sum(r ** 2), delta=delta, gradient=g, aux=aux)


def lm_point(s, params, args, kwargs):
  """Quantities carried by the state, at one point."""
  r, aux, f, jt, jv = residual_parts(s, params, args, kwargs)
  out = dict(residual=r, aux=aux, value=0.5 * jnp.sum(r ** 2), jac=None, jt=None, jtj=None, hess_res=None)
  if s.materialize_jac:
    fr = lambda *a, **k: fun_aux(s.residual_fun, s.has_aux)(*a, **k)[0]
    jf = jax.jacfwd(fr) if s.jac_fun is None else s.jac_fun
    jac = jf(params, *args, **kwargs)
    out.update(jac=jac, jt=jac.T, jtj=jac.T @ jac, gradient=jac.T @ r)
    if s.geodesic:
      out["hess_res"] = jax.jacfwd(jf)(params, *args, **kwargs)
  else:
    out["gradient"] = jt(r)
  out["error"] = tu.tree_l2_norm(out["gradient"])
  return out


def LevenbergMarquardt_init(s, params, args, kwargs):
  out = lm_point(s, params, args, kwargs)
  out.update(iter_num=0, increase_factor=2.0, delta=params * 0)
  if s.materialize_jac:
    out["damping_factor"] = s.damping_parameter * jnp.max(jnp.diag(out["jtj"]))
  else:
    r, aux, f, jt, jv = residual_parts(s, params, args, kwargs)
    diag = jax.vmap(lambda v: jnp.dot(v, jt(jv(v))))(jnp.eye(len(params)))
    out["damping_factor"] = s.damping_parameter * jnp.max(diag)
  return out


def lm_solve(s, params, state, args, kwargs):
  mu = state.damping_factor
  n = params.size
  acc = None
  if s.materialize_jac:
    if s.solver == "qr":
      aug = jnp.vstack([state.jac, jnp.sqrt(mu) * jnp.identity(n)])
      q, r = jsp.linalg.qr(aug, mode="economic")
      vel = jsp.linalg.solve_triangular(r, q.T @ jnp.hstack([state.residual, jnp.zeros(n)]))
      if s.geodesic:
        rpp = (state.hess_res @ vel) @ vel
        acc = jsp.linalg.solve_triangular(r, q.T @ jnp.hstack([rpp, jnp.zeros(n)]))
      return vel, acc
    M = state.jtj + mu * jnp.identity(n)
    if s.solver == "lu":
      solve = lambda b: jnp.linalg.solve(M, b)
    elif s.solver == "inv":
      solve = lambda b: jnp.dot(jnp.linalg.inv(M), b)
    else:
      solve = lambda b: jsp.linalg.solve(M, b, assume_a="pos")
    vel = solve(state.gradient)
    if s.geodesic:
      acc = solve(state.jt) @ ((state.hess_res @ vel) @ vel)
    return vel, acc
  r, aux, f, jt, jv = residual_parts(s, params, args, kwargs)
  mv = lambda v: jt(jv(v))
  if callable(s.solver):
    vel = s.solver(mv, state.gradient, ridge=mu, init=state.delta)
    solve = s.solver
  else:
    solve = dict(cholesky=jaxopt.linear_solve.solve_cholesky, lu=jaxopt.linear_solve.solve_lu,
                 inv=jaxopt.linear_solve.solve_inv)[s.solver]
    vel = solve(mv, state.gradient, ridge=mu)
  if s.geodesic:
    g = lambda p: jax.jvp(f, (p,), (vel,))[1]
    acc = solve(mv, jt(jax.jvp(g, (params,), (vel,))[1]), ridge=mu)
  return vel, acc


def LevenbergMarquardt_update(s, params, state, args, kwargs):
  vel, acc = lm_solve(s, params, state, args, kwargs)
  delta = -vel
  ok = True
  if acc is not None:
    delta = -(vel + 0.5 * acc)
    ok = jnp.linalg.norm(acc) / jnp.linalg.norm(vel) - s.contribution_ratio_threshold <= 0.0
  trial = params + delta
  nxt = lm_point(s, trial, args, kwargs)
  model = 0.5 * jnp.dot(delta, state.damping_factor * delta - state.gradient)
  gain = (state.value - nxt["value"]) / model
  accept = jnp.logical_and(gain > 0.0, ok)
  pick = lambda a, b: None if a is None else jax.tree_util.tree_map(lambda x, y: jnp.where(accept, x, y), a, b)
  out = dict(iter_num=state.iter_num + 1, delta=delta)
  for k in ("residual", "jac", "jt", "jtj", "hess_res", "gradient", "aux"):
    out[k] = pick(nxt[k], getattr(state, k))
  out["value"] = 0.5 * jnp.sum(out["residual"] ** 2)
  out["error"] = tu.tree_l2_norm(out["gradient"])
  out["damping_factor"] = jnp.where(accept, state.damping_factor * jnp.maximum(1 / 3, 1 - (2 * gain - 1) ** 3),
                                    jnp.minimum(state.damping_factor * state.increase_factor, 2 ** 32))
  out["increase_factor"] = jnp.where(accept, 2.0, jnp.minimum(2 * state.increase_factor, 2 ** 32))
  return jnp.where(accept, trial, params), out


# -------------------------------------------------------------- fixed point --
def FixedPointIteration_init(s, params, args, kwargs):
  return dict(iter_num=0, error=jnp.inf, num_fun_eval=0)


def FixedPointIteration_update(s, params, state, args, kwargs):
  new, aux = fun_aux(s.fixed_point_fun, s.has_aux)(params, *args, **kwargs)
  return new, dict(iter_num=state.iter_num + 1, error=tu.tree_l2_norm(tu.tree_sub(new, params)), aux=aux,
                   num_fun_eval=state.num_fun_eval + 1)


def anderson_init(params, m):
  hist = jax.tree_util.tree_map(lambda x: jnp.stack([x] * m), params)
  return dict(params_history=hist, residuals_history=zeros_history(params, m), residual_gram=jnp.zeros((m, m)))


def AndersonAcceleration_init(s, params, args, kwargs):
  out = anderson_init(params, s.history_size)
  _, aux = fun_aux(s.fixed_point_fun, s.has_aux)(params, *args, **kwargs)
  out.update(iter_num=0, error=jnp.inf, aux=aux, num_fun_eval=1)
  return out


def mixed(s, state):
  m = s.history_size
  G = state.residual_gram + s.ridge * jnp.eye(m)
  H = jnp.block([[jnp.zeros((1, 1)), jnp.ones((1, m))], [jnp.ones((m, 1)), G]])
  alphas = jnp.linalg.solve(H, jnp.zeros(m + 1).at[0].set(1))[1:]
  pa = tu.tree_average(state.params_history, alphas)
  ra = tu.tree_average(state.residuals_history, alphas)
  return tu.tree_add_scalar_mul(pa, s.beta, ra)


def mixes(s, state, freq):
  return jnp.logical_and(state.iter_num % freq == 0, state.iter_num >= s.history_size)


def remember(s, state, x, new):
  i = state.iter_num % s.history_size
  r = tu.tree_sub(new, x)
  rh = put(state.residuals_history, i, r)
  row = jax.vmap(tu.tree_vdot, in_axes=(0, None))(rh, r)
  gram = state.residual_gram.at[i, :].set(row).at[:, i].set(row)
  return dict(params_history=put(state.params_history, i, x), residuals_history=rh, residual_gram=gram), gram[i, i]


def AndersonAcceleration_update(s, params, state, args, kwargs):
  x = jax.lax.cond(mixes(s, state, s.mixing_frequency), lambda: mixed(s, state), lambda: params)
  new, aux = fun_aux(s.fixed_point_fun, s.has_aux)(x, *args, **kwargs)
  out, sq = remember(s, state, x, new)
  out.update(iter_num=state.iter_num + 1, error=jnp.sqrt(sq), aux=aux, num_fun_eval=state.num_fun_eval + 1)
  return new, out


def AndersonWrapper_init(s, params, args, kwargs):
  inner = s.solver.init_state(params, *args, **kwargs)
  out = anderson_init(params, s.history_size)
  out.update(iter_num=0, solver_state=inner, error=inner.error)
  return out


def AndersonWrapper_update(s, params, state, args, kwargs):
  freq = s.history_size if s.mixing_frequency is None else s.mixing_frequency

  def fresh():
    x = mixed(s, state)
    return x, s.solver.init_state(x, *args, **kwargs)

  x, inner = jax.lax.cond(mixes(s, state, freq), fresh, lambda: (params, state.solver_state))
  new, inner = s.solver.update(x, inner, *args, **kwargs)
  out, _ = remember(s, state, x, new)
  out.update(iter_num=state.iter_num + 1, solver_state=inner, error=inner.error)
  return new, out


def Bisection_update(s, params, state, args, kwargs):
  x = 0.5 * (state.high + state.low)
  value, aux = USER["optimality_fun"](x, *args, **kwargs) if s.has_aux else (s.optimality_fun(x, *args, **kwargs), None)
  high_side = state.sign * value > 0
  return x, dict(iter_num=state.iter_num + 1, value=value, error=jnp.abs(value), aux=aux, sign=state.sign,
                 high=jnp.where(high_side, x, state.high), low=jnp.where(high_side, state.low, x),
                 num_fun_eval=state.num_fun_eval + 1)


def Bisection_init(s, params, args, kwargs):
  lo, hi = s.optimality_fun(s.lower, *args, **kwargs), s.optimality_fun(s.upper, *args, **kwargs)
  sign = jnp.where(jnp.logical_and(lo < 0, hi >= 0), 1, jnp.where(jnp.logical_and(lo > 0, hi <= 0), -1, 0))
  return dict(iter_num=0, value=jnp.inf, error=jnp.inf, low=s.lower, high=s.upper, sign=sign, num_fun_eval=2)


def refinement_operator(f):
  if f is None:
    return lambda A: (lambda x: tu.tree_dot(A, x))
  return lambda A: (lambda x: f(A, x))


def IterativeRefinement_init(s, params, args, kwargs):
  A, b = args
  r = tu.tree_sub(b, s.matvec_A(A)(params))
  return dict(iter_num=0, error=jnp.inf, target_residuals=r, init=params, num_matvec_eval=1, num_matvec_bar_eval=0,
              num_solve_eval=0)


def IterativeRefinement_update(s, params, state, args, kwargs):
  A, b = args
  same = s.matvec_A_bar is s.matvec_A or "A_bar" not in kwargs
  bar = A if same else kwargs["A_bar"]
  x = tu.tree_add(params, s.solve(s.matvec_A_bar(bar), state.target_residuals, init=state.init))
  r = tu.tree_sub(b, s.matvec_A(A)(x))
  return x, dict(iter_num=state.iter_num + 1, error=tu.tree_l2_norm(r), target_residuals=r,
                 init=tu.tree_zeros_like(b), num_matvec_eval=state.num_matvec_eval + 1,
                 num_matvec_bar_eval=state.num_matvec_bar_eval + 1, num_solve_eval=state.num_solve_eval + 1)


def BoxCDQP_init(s, params, args, kwargs):
  return dict(iter_num=0, error=jnp.inf)


def BoxCDQP_update(s, params, state, args, kwargs):
  (Q, c), (l, u) = args

  def one(i, carry):
    x, err = carry
    g = jnp.dot(Q[i], x) + c[i]
    new = jnp.clip(x[i] - jnp.where(Q[i, i] == 0, 0, g / Q[i, i]), l[i], u[i])
    return x.at[i].set(new), err + jnp.abs(x[i] - new)

  x, err = jax.lax.fori_loop(0, params.shape[0], one, (params, 0))
  return x, dict(iter_num=state.iter_num + 1, error=err)
