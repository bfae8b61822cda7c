"""Comparison of every solver's init_state and update with its reference step."""
from .core import *
from . import solvers as S
from . import terms as tm
from . import models

SMALL = dict(maxls=2, decrease_factor=0.61, increase_factor=1.7, max_stepsize=2.5, min_stepsize=1e-3,
             fun_min=0.13, delta=0.011, aggressiveness=0.83, beta=0.77, ridge=0.019, damping_parameter=0.023,
             contribution_ratio_threshold=0.71, theta=1.3)
SMALL_LS = dict(decrease_factor=0.61, increase_factor=1.7, max_stepsize=2.5, c1=0.0123, c2=0.87, c3=0.0031,
                rel_tol_cubic=0.21, rel_tol_quad=0.13, interval_threshold=0.0021, tol=0.017, maxiter=7,
                expansion_factor=4.3, shrinkage_factor=0.59)
# options whose name has another meaning (or is deprecated) in some classes
SKIP = {("BFGS", "decrease_factor"), ("LBFGS", "decrease_factor"), ("LBFGSB", "decrease_factor"),
        ("NonlinearCG", "decrease_factor"), ("MirrorDescent", "decrease_factor")}


def small_opts(I, case):
  ci = S.public(I, case.cls)
  names = [n for n, _, _ in ci.fields()]
  return {k: v for k, v in SMALL.items() if k in names and (case.cls, k) not in SKIP and k not in case.opts}


def interp():
  I = S.solver_interp()
  I.hooks.pop("jaxopt._src.loop.while_loop", None)
  I.unroll_loops = 14
  return I


class Ref:
  """Results of one configuration: derived and reference values by state entry."""


def compare_case(I, case, warm=False):
  """Drives one case; returns Ref or a string saying why it cannot be."""
  mod = I.module("spec.steps")
  fi = mod.frame.vars.get(case.cls + "_init")
  fu = mod.frame.vars.get(case.cls + "_update")
  if fi is None and fu is None:
    return "no reference"
  over = small_opts(I, case)
  if case.cls in ("BFGS", "LBFGSB"):
    case.params = S.W(1)     # flattening a vector is the identity
  if case.cls == "LBFGSB":
    case.args = ((ranked("lb", 1), ranked("ub", 1)),) + tuple(case.args[1:])
  try:
    d = S.drive(I, case, **over)
  except AbsRaise as e:
    return ("limit " if model_limit(e) else "raises ") + str(e)
  except TooBig as e:
    return "limit " + str(e)
  except AnalysisBroken:
    raise
  except Exception as e:
    return f"limit {type(e).__name__} {e}"
  r = Ref()
  r.d = d
  r.init, r.update = {}, {}
  mod.frame.vars["USER"] = I.newdict({k: S.build_opt(I, v) for k, v in case.opts.items()} if S.DERIVED else case.opts)
  args, kw = tuple(d.args), I.newdict(d.kwargs)
  n = len(I.events)
  if fi is not None:
    want = I.payload(I.call(fi, [d.solver, d.params, args, kw], {}))
    r.init = pair(d.init, want)
  if fu is not None:
    p, want = I.unpack_values(I.call(fu, [d.solver, d.state_params, d.state, args, kw], {}), 2)
    r.update = pair(d.new_state, I.payload(want))
    r.update["params"] = (d.new_params, p)
  r.ref_events = I.events[n:]
  del I.events[n:]
  return r


def linesearch_cases(forms):
  out = []
  for case in S.linesearches(forms):
    for start in ("all", "values", "none"):
      if start != "all" and case.form not in ("plain", "aux"):
        continue
      ax = dict(case.axes, start=start)
      out.append(S.Case(case.cls, S.label(case.cls, ax), case.opts, case.params, case.args, case.kwargs, case.form,
                        case.kind, ax))
  return out


def compare_linesearch(I, case):
  """One initialisation and update of a line search against its reference."""
  mod = I.module("spec.linesearch")
  fi = mod.frame.vars.get(case.cls + "_init")
  fu = mod.frame.vars.get(case.cls + "_update")
  if fi is None and fu is None:
    return "no reference"
  names = [n for n, _, _ in S.public(I, case.cls).fields()]
  over = {k: v for k, v in SMALL_LS.items() if k in names and k not in case.opts}
  try:
    d = S.drive(I, case, **over)
  except AbsRaise as e:
    return ("limit " if model_limit(e) else "raises ") + str(e)
  except TooBig as e:
    return "limit " + str(e)
  except AnalysisBroken:
    raise
  except Exception as e:
    return f"limit {type(e).__name__} {e}"
  r = Ref()
  r.d = d
  mod.frame.vars["USER"] = I.newdict({k: v for k, v in case.opts.items() if k == "max_stepsize"})
  kw = d.kwargs
  start = [d.args[0], kw.get("value"), kw.get("grad"), kw.get("descent_direction"), tuple(I.payload(kw["fun_args"])),
           kw["fun_kwargs"]]
  n = len(I.events)
  r.init = pair(d.init, I.payload(I.call(fi, [d.solver, d.params] + start, {})))
  step, want = I.unpack_values(I.call(fu, [d.solver, d.state_params, d.state] + start, {}), 2)
  r.update = pair(d.new_state, I.payload(want))
  r.update["stepsize"] = (d.new_params, step)
  r.ref_events = I.events[n:]
  del I.events[n:]
  return r


def pair(state, want):
  out = {}
  for k, v in want.items():
    if isinstance(state, Rec) and k in state.vals:
      out[k] = (state.vals[k], v)
  return out


def cases(forms=("plain", "aux")):
  out = []
  for c in (S.grad_family(forms) + S.mirror() + S.block() + S.stochastic(forms) + S.quasi(forms) + S.leastsq() +
            S.fixedpoint() + S.qp()):
    out.append(c)
  return out


def check_fields(c, rule_of, forms=("plain", "aux"), classes=None, real=False, keep=None, width=7):
  """rule_of(cls, part, field) -> rule id or None."""
  groups = {}
  for i, case in enumerate(cases(forms)):
    if (classes is None or case.cls in classes) and (keep is None or keep(case)):
      groups.setdefault(case.cls, []).append(i)
  jobs = []
  for cls, ids in groups.items():
    n = 3 if cls == "LBFGSB" else 8
    for k in range(0, len(ids), n):
      jobs.append((cls, set(ids[k:k + n])))
  jobs.sort(key=lambda j: SLOW.index(j[0]) if j[0] in SLOW else 99)

  def job(ids):
    return lambda sub: fields_of(sub, rule_of, forms, ids, real)
  parallel(c, [job(ids) for _, ids in jobs], width)


def quick(case):
  """The configurations a quick run looks at: L-BFGS-B's terms are large."""
  if case.cls == "LBFGSB":
    ax = case.axes
    return (ax.get("linesearch", "zoom") == "zoom" and ax.get("linesearch_init", "increase") == "increase"
            and case.form in ("plain", "aux") and not (case.form == "aux" and ax.get("stepsize") == 0.0))
  return True


# box constraints and least squares on residual vectors: complex variables have no meaning there
REAL = {"LBFGSB", "LevenbergMarquardt", "GaussNewton", "BoxOSQP", "BlockCoordinateDescent", "MirrorDescent"}
SLOW = ["LBFGSB", "LBFGS", "LevenbergMarquardt", "NonlinearCG"]


def fields_of(c, rule_of, forms, ids, real):
  I = interp()
  for i, case in enumerate(cases(forms)):
    if i not in ids:
      continue
    r = compare_case(I, case)
    if isinstance(r, str):
      if r != "no reference" and not (r.startswith("raises") and case.cls == "Broyden"):
        c.unknown("step", case.label, r)
      continue
    where = where_of(I.getattr(r.d.solver, "update"))
    for part in ("init", "update"):
      for f, (got, want) in getattr(r, part).items():
        rule = rule_of(case.cls, part, f)
        if rule is None:
          continue
        c.same(rule, f"{case.label} {part} {f}", got, want, where=where, real=real or case.cls in REAL)
  c.absorb(I)


def check_linesearches(c, rule_of, forms, width=7):
  """Line-search fields against the reference; rule_of(cls, part, field) -> rule id or None."""
  groups = {}
  for i, case in enumerate(linesearch_cases(forms)):
    n = 2 if case.cls == "ZoomLineSearch" else 12
    g = groups.setdefault(case.cls, [[]])
    if len(g[-1]) >= n:
      g.append([])
    g[-1].append(i)
  order = ["ZoomLineSearch", "HagerZhangLineSearch", "BacktrackingLineSearch"]
  jobs = [ids for cls in sorted(groups, key=lambda x: order.index(x) if x in order else 0) for ids in groups[cls]]

  def job(ids):
    return lambda sub: linesearch_fields(sub, rule_of, forms, set(ids))
  parallel(c, [job(ids) for ids in jobs], width)


def linesearch_fields(c, rule_of, forms, ids):
  I = S.solver_interp()
  for i, case in enumerate(linesearch_cases(forms)):
    if i not in ids:
      continue
    r = compare_linesearch(I, case)
    if isinstance(r, str):
      if r != "no reference":
        c.unknown("step", case.label, r)
      continue
    where = where_of(I.getattr(r.d.solver, "update"))
    for part in ("init", "update"):
      for f, (got, want) in getattr(r, part).items():
        rule = rule_of(case.cls, part, f)
        if rule is not None:
          c.same(rule, f"{case.label} {part} {f}", got, want, where=where)
  c.absorb(I)


def warm_starts(c, rule, fields, classes=("LBFGS", "LBFGSB", "Broyden")):
  """init_state on a returned step keeps its history; on parameters it allocates history_size slots per leaf."""
  I = interp()
  done = set()
  for case in cases(("plain",)):
    if case.cls not in classes or case.cls in done or case.axes.get("linesearch") == "hager-zhang":
      continue
    r = compare_case(I, case)
    if isinstance(r, str):
      continue
    done.add(case.cls)
    mod = I.module("spec.steps")
    fi = mod.frame.vars[case.cls + "_init"]
    where = where_of(I.getattr(r.d.solver, "init_state"))
    args, kw = tuple(r.d.args), I.newdict(r.d.kwargs)
    step = Rec(I.cls("jaxopt._src.base", "OptStep"), {"params": r.d.state_params, "state": r.d.state})
    for what, start, over in (("warm start", step, {}), ("allocation", r.d.params, {"jax.numpy.zeros": shaped_zeros})):
      saved = {k: models.MODELS[k] for k in over}
      models.MODELS.update(over)
      try:
        got = I.call(I.getattr(r.d.solver, "init_state"), [start] + list(r.d.args), dict(r.d.kwargs))
        want = I.payload(I.call(fi, [r.d.solver, start, args, kw], {}))
      finally:
        models.MODELS.update(saved)
      for f, (x, y) in pair(got, want).items():
        if f in fields:
          c.same(rule, f"{case.label} {what} {f}", x, y, where=where, real=case.cls in REAL)
  c.absorb(I)


def shaped_zeros(I, a, k):
  s = a[0] if a else k["shape"]
  s = s if isinstance(s, tuple) or isinstance(s, T) and s.op == "tuple" else (s,)
  return mk("zerosof", I.lift(s))
