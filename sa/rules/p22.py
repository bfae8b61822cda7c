"""P22: perturbed optimisers are consistent with their derivative rules."""
from ..core import *
from .. import models
from .. import terms as tm
from .p21 import one_of

FLOOR = 10
mk = tm.mk
MOD = "jaxopt.perturbations"


def run(c):
  c.rule("value", "the perturbed value is the average over input + sigma * noise, the noise drawn once from the caller's key with shape (samples,) + input shape")
  c.rule("derivative", "the attached rule is (1/(samples sigma)) sum of output times score of the very same draw, the score being minus the gradient of the log-density")
  c.rule("control variate", "with a control variate every sample has the unperturbed output subtracted")
  c.rule("shape", "tangents are reshaped to the shape of the output")
  c.rule("key", "no tangent is attached to the random key, and value and rule draw the same noise")
  c.rule("noise", "the provided distributions sample with the given key and shape from the density whose logarithm they report")
  I = new_interp()
  x, dx, key = arr("x"), arr("dx"), arr("key")
  num, sigma = opt("num_samples"), opt("sigma")
  fun = fnsym("perturbed_fun")
  noise = Rec(I.cls("spec.mocks", "NoiseLike"), {"sample": fnsym("noise_sample"), "log_prob": fnsym("noise_log_prob")})
  I.signatures[fnsym("noise_sample")] = ["seed", "sample_shape"]
  I.signatures[fnsym("noise_log_prob")] = ["inputs"]
  models.SCALAR_RESULT[fnsym("noise_log_prob")] = {()}
  sp = lambda n: spec_fn(I, "perturbed", n)
  base = [fun, num, sigma, noise]
  ref = lambda n: PyFn(n, lambda I, a, k: I.call(sp(n), base + list(a), {}))
  for name in ("make_perturbed_argmax", "make_perturbed_max", "make_perturbed_fun"):
    for cv in (False, True):
      if name == "make_perturbed_max" and cv:
        continue
      con = f"{name}[control_variate={cv}]"
      mkf = I.public_fn(MOD, name)
      kw = {"num_samples": num, "sigma": sigma, "noise": noise}
      if name != "make_perturbed_max":
        kw["control_variate"] = cv
      f, e = safe_call(c, "value", con, I, mkf, [fun], kw)
      if e is not None:
        continue
      vals = ["max_mean", "max_sum"] if name == "make_perturbed_max" else ["value_mean", "value_sum"]
      one_of(c, "value", con, I, f, [ref(n) for n in vals], [x, key])
      rules = f.attrs if isinstance(f, PyFn) else {}
      out = rule_tangent(c, I, con, f, rules, x, key, dx)
      if out is None:
        continue
      tan, where = out
      same_draw(c, con, I.lift(I.call(f, [x, key], {})), I.lift(tan), where)
      if name == "make_perturbed_max":
        wants = [I.call(ref(n), [x, key, dx], {}) for n in ("max_tangent_mean", "max_tangent_sum")]
        agree(c, "derivative", con, tan, wants, where)
        continue
      flat, tail = I.unpack_values(I.call(sp("tangent"), base + [cv, x, key, dx], {}), 2)
      rule = "control variate" if cv else "derivative"
      shape_of_x = mk("shape", x)
      g, tan = models.scalar_factor(I.lift(tan))
      if tan.op != "reshape":
        c.unknown("shape", con, describe(tan))
        continue
      agree(c, rule, con, tm.mul(g, tan.args[0]), [flat], where)
      outs = [I.lift(tail)] + ([shape_of_x] if name == "make_perturbed_argmax" else [])
      if tan.args[1] is shape_of_x and shape_of_x not in outs:
        c.bad("shape", con, "the tangent has the shape of the input, not of the output", where)
      else:
        agree(c, "shape", con, tan.args[1], outs, where)
  noises(c, I)
  c.absorb(I)


def agree(c, rule, con, got, wants, where):
  rs = [same_value(got, w) for w in wants]
  if any(s == "eq" for s, _ in rs):
    c.ok(rule, con)
  elif all(s == "diff" for s, _ in rs):
    c.bad(rule, con, rs[0][1], where)
  else:
    c.unknown(rule, con, rs[0][1])


def same_draw(c, con, value, tan, where):
  """Both must contain exactly the same application of the noise's sampler."""
  draws = lambda t: {u for u in tm.deps(t) if u.op == "app" and u.args[0] is fnsym("noise_sample")}
  a, b = draws(value), draws(tan)
  if not a or not b:
    c.unknown("key", con + " draw", "no draw found")
  elif a == b:
    c.ok("key", con + " draw")
  else:
    keys = lambda s: {u.args[1] for u in s}
    if keys(a) != keys(b):
      c.bad("key", con + " draw", f"value and rule draw from different keys: {describe(list(keys(a))[0])} and {describe(list(keys(b))[0])}", where)
    else:
      c.unknown("key", con + " draw", "different draws")


def rule_tangent(c, I, con, f, rules, x, key, dx, rule=("derivative", "key", "value")):
  """(tangent of the output for a tangent of the input, where), whatever way the rule was attached."""
  def say(kind, i, *a):
    if rule is not None:
      getattr(c, kind)(rule[i], *a)

  def fails(e, r):
    if isinstance(e, AbsRaise) and not model_limit(e):
      say("bad", 0, con, f"the rule fails: {e}", where_of(r))
    else:
      say("unknown", 0, con, str(e))
  if "rule:defjvps" in rules:
    rs = rules["rule:defjvps"]
    if len(rs) != 2:
      say("unknown", 0, con, "number of rules")
      return None
    if rs[1] is None:
      say("ok", 1, con)
    else:
      v, e = try_call(I, rs[1], [arr("dkey"), arr("ans"), x, key])
      if e is None and isinstance(v, T) and arr("dkey") in tm.deps(v):
        say("bad", 1, con, "the rule propagates a tangent of the random key", where_of(rs[1]))
      else:
        say("ok", 1, con)
    ans = arr("ans")
    v, e = try_call(I, rs[0], [dx, ans, x, key])
    if e is not None:
      return fails(e, rs[0])
    v = I.lift(v)
    if ans in tm.deps(v):
      v = tm.substitute(v, {ans: I.lift(I.call(f, [x, key], {}))})
    return v, where_of(rs[0])
  if "rule:defjvp" in rules:
    r = rules["rule:defjvp"][0]
    v, e = try_call(I, r, [(x, key), (dx, arr("dkey"))])
    if e is not None:
      return fails(e, r)
    o = I.unpack_values(v, 2)
    if o is None:
      say("unknown", 0, con, "rule result")
      return None
    if rule is not None:
      c.same(rule[2], con + " in the rule", o[0], I.call(f, [x, key], {}))
    if arr("dkey") in tm.deps(I.lift(o[1])):
      say("bad", 1, con, "the rule propagates a tangent of the random key", where_of(r))
    else:
      say("ok", 1, con)
    return o[1], where_of(r)
  say("bad", 0, con, "no derivative rule is attached to the perturbed function", where_of(f))
  return None


def noises(c, I):
  key, sh, z = arr("key"), mk("shape", arr("x")), arr("z")
  half_log_2pi = tm.mul(tm.num(0.5), mk("log", tm.mul(tm.num(2), tm.PI)))
  for n, ext, dens in (("Normal", "normal", [tm.mul(tm.num(-0.5), tm.mul(z, z))]),
                       ("Gumbel", "gumbel", [tm.sub(tm.neg(z), mk("exp", tm.neg(z)))])):
    cl = I.public_fn(MOD, n)
    if cl is None:
      c.unknown("noise", n, "not found")
      continue
    o = I.call(cl, [], {})
    v, e = safe_call(c, "noise", n + ".sample", I, I.getattr(o, "sample"), [key, sh])
    if e is None:
      got, want = I.lift(v), I.lift(I.call(I.ext("jax.random." + ext), [key, sh], {}))
      if got.op != want.op and got.op.startswith("ext:jax.random.") and got.args[:1] == want.args[:1]:
        c.bad("noise", n + ".sample", f"samples with {got.op[4:]} instead of jax.random.{ext}", n)
      else:
        c.same("noise", n + ".sample", got, want, where=n)
    v, e = safe_call(c, "noise", n + ".log_prob", I, I.getattr(o, "log_prob"), [z])
    if e is None:
      if n == "Normal":
        dens = dens + [tm.sub(dens[0], half_log_2pi)]
      agree(c, "noise", n + ".log_prob", v, dens, n)
