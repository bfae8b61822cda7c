"""Reference line searches (interpreted, never run).

init(s, start, d0) and update(s, stepsize, state, start) describe one iteration;
`start` is (params, value, grad, direction, args, kwargs) with None for what the
caller left out.
"""
import jax
import jax.numpy as jnp

from spec import tree_util as tu
from spec import mocks


USER = {}


def vg_of(s):
  return mocks.value_and_grad_of(s.fun, s.value_and_grad, s.has_aux)


def fun_of(s):
  vg = vg_of(s)
  return lambda *a, **k: vg(*a, **k)[0]


def point(params, step, direction):
  return tu.tree_add_scalar_mul(params, step, direction)


def slope_of(grad, direction):
  return tu.tree_vdot_real(tu.tree_conj(grad), direction)


def steepest(grad):
  return tu.tree_scalar_mul(-1, tu.tree_conj(grad))


def violation(diff):
  """How far `diff <= 0` is from holding; an undefined difference never holds."""
  return jnp.maximum(jnp.where(jnp.isnan(diff), jnp.inf, diff), 0.0)


def first(s, params, value, grad, args, kwargs):
  """(value, grad, aux, evaluations) at the start."""
  if value is None or grad is None:
    (value, aux), grad = vg_of(s)(params, *args, **kwargs)
    return value, grad, aux, 1
  return value, grad, None, 0


# ------------------------------------------------------------ backtracking ---
def BacktrackingLineSearch_init(s, stepsize, params, value, grad, direction, args, kwargs):
  value, grad, _, n = first(s, params, value, grad, args, kwargs)
  return dict(iter_num=0, params=params, value=value, grad=grad, value_init=value, grad_init=grad, aux=None,
              error=jnp.inf, done=False, failed=False, num_fun_eval=n, num_grad_eval=n)


def BacktrackingLineSearch_update(s, stepsize, state, params, value, grad, direction, args, kwargs):
  t = jnp.minimum(s.max_stepsize, stepsize)
  v0, g0 = state.value_init, state.grad_init
  d = steepest(g0) if direction is None else direction
  m = slope_of(g0, d)
  x = point(params, t, d)
  (v, aux), g = vg_of(s)(x, *args, **kwargs)
  mt = slope_of(g, d)
  error = violation(v - v0 - s.c1 * t * m)
  if s.condition == "strong-wolfe":
    error = jnp.maximum(error, violation(jnp.abs(mt) - s.c2 * jnp.abs(m)))
  if s.condition == "wolfe":
    error = jnp.maximum(error, violation(s.c2 * m - mt))
  if s.condition == "goldstein":
    error = jnp.maximum(error, violation(v0 + (1 - s.c1) * t * m - v))
  done = state.done | (error <= s.tol)
  failed = state.failed | ((state.iter_num + 1 == s.maxiter) & ~done)
  stop = done | failed
  out = dict(iter_num=state.iter_num + 1, params=x, value=v, aux=aux, value_init=v0, grad_init=g0, error=error, done=done,
             failed=failed)
  if s.condition in ("armijo", "goldstein"):
    # these conditions need no gradient until the search ends
    out["grad"] = jax.tree_util.tree_map(lambda a, b: jnp.where(stop, a, b), g, g0)
    out["num_fun_eval"] = state.num_fun_eval + 1 + stop
    out["num_grad_eval"] = state.num_grad_eval + stop
  else:
    out["grad"] = g
    out["num_fun_eval"] = state.num_fun_eval + 1
    out["num_grad_eval"] = state.num_grad_eval + 1
  return jnp.where(stop, t, s.decrease_factor * t), out


# -------------------------------------------------------------------- zoom ---
def ZoomLineSearch_init(s, stepsize, params, value, grad, direction, args, kwargs):
  value, grad, aux, n = first(s, params, value, grad, args, kwargs)
  k = 0
  if s.has_aux and n == 0:
    aux = fun_of(s)(params, *args, **kwargs)[1]
    k = 1
  d = steepest(grad) if direction is None else direction
  m = slope_of(grad, d)
  out = dict(iter_num=0, params=params, value=value, grad=grad, aux=aux, value_init=value, slope_init=m,
             descent_direction=d, decrease_error=jnp.inf, curvature_error=jnp.inf, error=jnp.inf, done=False, failed=False,
             interval_found=False, safe_stepsize=0.0, num_fun_eval=n + k, num_grad_eval=n)
  for k in ("prev_stepsize", "low", "high", "cubic_ref"):
    out[k] = 0.0
  for k in ("prev_value_step", "value_low", "value_high", "value_cubic_ref"):
    out[k] = value
  for k in ("prev_slope_step", "slope_low", "slope_high"):
    out[k] = m
  return out


def zoom_max(s):
  m = USER.get("max_stepsize")
  return 2.0 ** s.maxiter if m is None else m


def pick(c, xs, ys):
  return tuple(jnp.where(c, x, y) for x, y in zip(xs, ys))


def pick_tree(c, x, y):
  return jax.tree_util.tree_map(lambda a, b: jnp.where(c, a, b), x, y)


def zoom_probe(s, t, state, args, kwargs):
  """Evaluation at step t and how far the two conditions are from holding there."""
  x = point(state.params, t, state.descent_direction)
  (v, aux), g = vg_of(s)(x, *args, **kwargs)
  m = slope_of(g, state.descent_direction)
  v0, m0 = state.value_init, state.slope_init
  armijo = v - v0 - s.c1 * t * m0
  approx = jnp.maximum(m - (2 * s.c1 - 1) * m0, v - v0 - s.c3 * jnp.abs(v0))
  decrease = violation_inside(jnp.minimum(approx, armijo))
  curvature = violation_inside(jnp.abs(m) - s.c2 * jnp.abs(m0))
  return x, v, aux, g, m, decrease, curvature, jnp.maximum(decrease, curvature)


def violation_inside(diff):
  d = jnp.maximum(diff, 0.0)
  return jnp.where(jnp.isnan(d), jnp.inf, d)


def zoom_result(state, done, probe):
  x, v, aux, g, _, decrease, curvature, error = probe
  return dict(iter_num=state.iter_num + 1, params=pick_tree(done, x, state.params), value=jnp.where(done, v, state.value_init),
              grad=pick_tree(done, g, state.grad), aux=pick_tree(done, aux, state.aux) if aux is not None else None,
              decrease_error=decrease, curvature_error=curvature, error=error, done=done, value_init=state.value_init,
              slope_init=state.slope_init, descent_direction=state.descent_direction)


def zoom_search(s, stepsize, state, args, kwargs):
  """Algorithm 3.5: enlarge the step until an interval with a good point is found."""
  top = zoom_max(s)
  t = jnp.minimum(jnp.where(state.iter_num == 0, stepsize, s.increase_factor * state.prev_stepsize), top)
  probe = zoom_probe(s, t, state, args, kwargs)
  x, v, aux, g, m, decrease, curvature, error = probe
  good = error <= s.tol
  high_new = (decrease > 0) | ((v >= state.prev_value_step) & (state.iter_num > 0))
  low_new = (m >= 0) & ~high_new
  found = high_new | low_new | good
  done = good | ((t >= top) & ~found)
  old = (state.prev_stepsize, state.prev_value_step, state.prev_slope_step)
  low = pick(low_new, (t, v, m), old)
  high = pick(low_new, old, (t, v, m))
  out = zoom_result(state, done, probe)
  out.update(failed=(state.iter_num + 1 >= s.maxiter) & ~done, interval_found=found, prev_stepsize=t, prev_value_step=v,
             prev_slope_step=m, low=low[0], value_low=low[1], slope_low=low[2], high=high[0], value_high=high[1],
             slope_high=high[2], cubic_ref=low[0], value_cubic_ref=low[1],
             safe_stepsize=jnp.where(decrease <= s.tol, t, state.safe_stepsize))
  return t, out


def cubic(a, fa, ga, b, fb, c, fc):
  """Critical point of the cubic through (a, fa) with slope ga, (b, fb) and (c, fc)."""
  p, q = b - a, c - a
  u, v = fb - fa - ga * p, fc - fa - ga * q
  den = (p * q) ** 2 * (p - q)
  A = (q ** 2 * u - p ** 2 * v) / den
  B = (p ** 3 * v - q ** 3 * u) / den
  return a + (jnp.sqrt(B * B - 3.0 * A * ga) - B) / (3.0 * A)


def quadratic(a, fa, ga, b, fb):
  """Critical point of the parabola through (a, fa) with slope ga and (b, fb)."""
  B = (fb - fa - ga * (b - a)) / (b - a) ** 2
  return a - ga / (2.0 * B)


def zoom_zoom(s, state, args, kwargs):
  """Algorithm 3.6: shrink the interval by interpolation."""
  lo, hi = state.low, state.high
  size = jnp.abs(hi - lo)
  left, right = jnp.minimum(hi, lo), jnp.maximum(hi, lo)
  c = cubic(lo, state.value_low, state.slope_low, hi, state.value_high, state.cubic_ref, state.value_cubic_ref)
  q = quadratic(lo, state.value_low, state.slope_low, hi, state.value_high)
  c_ok = (c > left + s.rel_tol_cubic * size) & (c < right - s.rel_tol_cubic * size)
  q_ok = (q > left + s.rel_tol_quad * size) & (q < right - s.rel_tol_quad * size)
  t = jnp.where(c_ok, c, jnp.where(q_ok, q, (lo + hi) / 2.0))
  probe = zoom_probe(s, t, state, args, kwargs)
  x, v, aux, g, m, decrease, curvature, error = probe
  done = error <= s.tol
  safe = jnp.maximum(jnp.where(decrease <= s.tol, t, state.safe_stepsize), state.safe_stepsize)
  high_mid = (decrease > 0) | (v >= state.value_low)
  high_low = (m * (hi - lo) >= 0) & ~high_mid
  mid = (t, v, m)
  low = (lo, state.value_low, state.slope_low)
  high = (hi, state.value_high, state.slope_high)
  new_high = pick(high_mid, mid, pick(high_low, low, high))
  new_low = pick(high_mid, low, mid)
  ref = pick(high_mid | high_low, (hi, state.value_high), (lo, state.value_low))
  out = zoom_result(state, done, probe)
  out.update(failed=((state.iter_num + 1 >= s.maxiter) | ((size <= s.interval_threshold) & (safe > 0))) & ~done,
             interval_found=state.interval_found, prev_stepsize=state.prev_stepsize,
             prev_value_step=state.prev_value_step, prev_slope_step=state.prev_slope_step, low=new_low[0],
             value_low=new_low[1], slope_low=new_low[2], high=new_high[0], value_high=new_high[1], slope_high=new_high[2],
             cubic_ref=ref[0], value_cubic_ref=ref[1], safe_stepsize=safe)
  return t, out


def ZoomLineSearch_update(s, stepsize, state, params, value, grad, direction, args, kwargs):
  t1, zoomed = zoom_zoom(s, state, args, kwargs)
  t2, searched = zoom_search(s, stepsize, state, args, kwargs)
  inside = state.interval_found
  out = {k: pick_tree(inside, zoomed[k], searched[k]) if zoomed[k] is not None else None for k in zoomed}
  t = jnp.where(inside, t1, t2)
  # a failed search falls back on the best step with sufficient decrease, if any
  safe, failed = out["safe_stepsize"], out["failed"]
  last = jnp.where((safe > 0) | jnp.isinf(out["decrease_error"]), safe, t)
  x = point(out["params"], last, state.descent_direction)
  (v, aux), g = vg_of(s)(x, *args, **kwargs)
  out["params"] = pick_tree(failed, x, out["params"])
  out["value"] = jnp.where(failed, v, out["value"])
  out["grad"] = pick_tree(failed, g, out["grad"])
  out["aux"] = pick_tree(failed, aux, out["aux"]) if aux is not None else None
  out["num_fun_eval"] = state.num_fun_eval + 1 + failed
  out["num_grad_eval"] = state.num_grad_eval + 1 + failed
  return jnp.where(failed, last, t), out


# ------------------------------------------------------------- hager-zhang ---
def hz_probe(s, env, t):
  x, d, args, kwargs = env[:4]
  (v, _), g = vg_of(s)(point(x, t, d), *args, **kwargs)
  return v, slope_of(g, d)


def hz_undefined(v, m):
  return jnp.isnan(v) | jnp.isnan(m)


def hz_error(s, t, v, m, v0, m0, thr):
  """Distance to the Wolfe or, close to the initial value, the approximate Wolfe conditions."""
  curvature = s.c2 * m0 - m
  wolfe = jnp.maximum(jnp.maximum(v - v0 - s.c1 * t * m0, 0.0), curvature)
  approx = jnp.maximum(jnp.maximum(jnp.maximum(m - (2 * s.c1 - 1.0) * m0, 0.0), curvature), v - thr)
  return jnp.minimum(wolfe, approx)


def hz_narrow(s, env, lo, hi, t):
  """Narrows [lo, hi] with the trial t; (failed, lo, hi, evaluations)."""
  thr = env[4]
  v, m = hz_probe(s, env, t)

  def cond(c):
    stop, failed, lo, t, hi, v, m, n = c
    return (lo < t) & (t < hi) & ~stop & ~failed

  def body(c):
    stop, failed, lo, t, hi, v, m, n = c
    right = m >= 0
    left = ~right & (v <= thr)
    stop = right | left | jnp.isneginf(v)
    t2 = jnp.where(stop, t, (lo + hi) / 2.0)
    v2, m2 = hz_probe(s, env, t2)
    v2, m2 = jnp.where(stop, v, v2), jnp.where(stop, m, m2)
    return (stop, failed | hz_undefined(v2, m2), jnp.where(left, t, lo), t2, jnp.where(left, hi, t), v2, m2, n + 1)
  c = jax.lax.while_loop(cond, body, ((t <= lo) | (t >= hi), hz_undefined(v, m), lo, t, hi, v, m, 0))
  return c[1], c[2], c[4], c[7] + 1


def hz_secant(s, env, a, b):
  ma, mb = hz_probe(s, env, a)[1], hz_probe(s, env, b)[1]
  return (a * mb - b * ma) / (mb - ma)


def choose(c, xs, ys):
  return tuple(jnp.where(c, x, y) for x, y in zip(xs, ys))


def hz_secant2(s, env, lo, hi):
  """Double secant step; (failed, lo, hi, evaluations)."""
  t = hz_secant(s, env, lo, hi)
  failed, a, b, n = hz_narrow(s, env, lo, hi, t)
  at_a, at_b = t == a, t == b
  t = jnp.where(at_a, hz_secant(s, env, lo, a), jnp.where(at_b, hz_secant(s, env, hi, b), t))
  again = hz_narrow(s, env, a, b, t)
  hit = at_a | at_b
  failed, a, b = choose(hit, again[:3], (failed, a, b))
  return failed, a, b, 6 + n + jnp.where(hit, again[3], 0)


def hz_bracket(s, env, t):
  """First interval, growing the trial t; (failed, lo, hi, evaluations)."""
  thr = env[4]
  v, m = hz_probe(s, env, t)

  def cond(c):
    return ~c[0] & ~c[1]

  def body(c):
    done, failed, lo, t, hi, v, m, best, n = c
    right = m >= 0
    back = ~right & (v > thr)
    f, a, b, k = hz_narrow(s, env, 0, t, t / 2.0)
    lo, hi = jnp.where(right, best, jnp.where(back, a, lo)), jnp.where(right, t, jnp.where(back, b, hi))
    done = right | back
    best = jnp.where(~done & (v <= thr), t, best)
    t = jnp.where(done, t, s.expansion_factor * t)
    v, m = hz_probe(s, env, t)
    return done, (back & f) | hz_undefined(v, m), lo, t, hi, v, m, best, n + jnp.where(back, k, 0) + 1
  c = jax.lax.while_loop(cond, body, (jnp.isneginf(v), hz_undefined(v, m), jnp.array(0.0), t, t, v, m, jnp.array(0.0), 0))
  return c[1], c[2], c[4], c[8] + 1


def hz_start(s, params, value, grad, direction, args, kwargs):
  value, grad, _, n = first(s, params, value, grad, args, kwargs)
  d = steepest(grad) if direction is None else direction
  thr = value + s.approximate_wolfe_threshold * jnp.abs(value)
  return value, grad, d, (params, d, args, kwargs, thr), n


def hz_best(s, env, lo, hi, v0, m0):
  (va, ma), (vb, mb) = hz_probe(s, env, lo), hz_probe(s, env, hi)
  left = va < vb
  t = jnp.where(left, lo, hi)
  return t, hz_error(s, t, jnp.minimum(va, vb), jnp.where(left, ma, mb), v0, m0, env[4])


def HagerZhangLineSearch_init(s, stepsize, params, value, grad, direction, args, kwargs):
  value, grad, d, env, n = hz_start(s, params, value, grad, direction, args, kwargs)
  failed, lo, hi, k = hz_bracket(s, env, jnp.ones_like(value))
  t, error = hz_best(s, env, lo, hi, value, slope_of(grad, d))
  return dict(iter_num=0, params=params, value=value, grad=grad, aux=None, low=lo, high=hi, error=error,
              done=error <= s.tol, failed=failed, num_fun_eval=n + k + 2, num_grad_eval=n + k + 2)


def HagerZhangLineSearch_update(s, stepsize, state, params, value, grad, direction, args, kwargs):
  value, grad, d, env, n = hz_start(s, params, value, grad, direction, args, kwargs)
  failed, a, b, k = hz_secant2(s, env, state.low, state.high)
  # a search that is done keeps its interval
  failed = state.failed | (failed & ~state.done)
  a, b = choose(state.done, (state.low, state.high), (a, b))
  wide = ~state.done & (b - a > s.shrinkage_factor * (state.high - state.low))
  again = hz_narrow(s, env, a, b, (a + b) / 2.0)
  failed, a, b = choose(wide, again[:3], (failed, a, b))
  t, error = hz_best(s, env, a, b, value, slope_of(grad, d))
  error = jnp.where(state.done, state.error, error)
  done = state.done | (error <= s.tol)
  x = point(params, t, d)
  (v, aux), g = vg_of(s)(x, *args, **kwargs)
  k = n + k + jnp.where(wide, again[3], 0) + 3
  return t, dict(iter_num=state.iter_num + 1, params=x, value=v, grad=g, aux=aux, low=a, high=b, error=error, done=done,
                 failed=failed | ((state.iter_num + 1 == s.maxiter) & ~done), num_fun_eval=state.num_fun_eval + k,
                 num_grad_eval=state.num_grad_eval + k)
