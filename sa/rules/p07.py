"""P07: all ways of supplying an objective mean the same thing."""
from ..core import *
from .. import refs
from .. import solvers as S

FLOOR = 300

SKIP = ("jit", "unroll", "verbose")


def groups():
  """Configurations that differ only in how the objective is supplied."""
  out = {}
  for case in S.all_cases(S.FORMS):
    if case.form is None:
      continue
    key = (case.cls,) + tuple((k, str(v)) for k, v in case.axes.items() if k != "form")
    out.setdefault(key, {})[case.form] = case
  return {k: g for k, g in out.items() if "aux" in g and len(g) > 1}


def extend(I, g):
  """Adds forms the class accepts but the table of configurations does not list."""
  base = g["aux"]
  if "fun" not in base.opts:
    return
  names = [n for n, _, _ in S.public(I, base.cls).fields()]
  if "value_and_grad" not in names:
    return
  for f in S.FORMS:
    if f not in g:
      o = {k: v for k, v in base.opts.items() if k not in ("fun", "has_aux", "value_and_grad")}
      o.update(S.objective_opts(f))
      ax = dict(base.axes, form=f)
      g[f] = S.Case(base.cls, S.label(base.cls, ax), o, base.params, base.args, base.kwargs, f, base.kind, ax)


def run_case(I, case):
  over = refs.small_opts(I, case)
  if case.cls in ("BFGS", "LBFGSB"):
    case.params = S.W(1)
  if case.cls == "LBFGSB":
    case.args = ((ranked("lb", 1), ranked("ub", 1)),) + tuple(case.args[1:])
  try:
    d = S.drive(I, case, **over)
    opt_fun = I.getattr(d.solver, "optimality_fun", None)
    d.opt = None
    if opt_fun is not None and case.kind == "solver":
      d.opt = I.call(I.getattr(d.solver, "optimality_fun"), [d.params] + list(d.args), dict(d.kwargs))
    return d, None
  except AbsRaise as e:
    return None, e
  except AnalysisBroken:
    raise
  except Exception as e:
    return None, f"{type(e).__name__} {e}"


def fields(d):
  out = {("init", k): v for k, v in d.init.vals.items()} if isinstance(d.init, Rec) else {}
  if isinstance(d.new_state, Rec):
    out.update({("update", k): v for k, v in d.new_state.vals.items()})
  out["update", "params"] = d.new_params
  if d.opt is not None:
    out["optimality_fun", "value"] = d.opt
  return out


def compare(c, keys):
  looping, plain = refs.interp(), S.solver_interp()
  gs = groups()
  for key in keys:
    g = gs[key]
    extend(looping, g)
    I = plain if g["aux"].kind == "linesearch" else looping
    base, err = run_case(I, g["aux"])
    if base is None:
      for f in g:
        if f != "aux" and not (isinstance(err, AbsRaise) and not model_limit(err)):
          c.unknown("same", g[f].label, err)
      continue
    want = fields(base)
    where = where_of(I.getattr(base.solver, "update"))
    for f, case in g.items():
      if f == "aux":
        continue
      d, err = run_case(I, case)
      if d is None:
        if isinstance(err, AbsRaise) and not model_limit(err):
          c.bad("accepted", case.label, f"raises {err} where the form with aux does not", where)
        else:
          c.unknown("same", case.label, err)
        continue
      c.ok("accepted", case.label)
      for (part, k), v in fields(d).items():
        if k.startswith("num_") or (part, k) not in want:
          continue
        w = want[part, k]
        if k == "aux" and not f.endswith("aux"):
          c.expect("aux", f"{case.label} {part} aux", v is None or v is NONE_T,
                   f"aux is {describe(v)} for an objective without aux", where)
          continue
        if k == "solver_state" or f.endswith("aux") is False and isinstance(v, Rec) and "aux" in v.vals:
          v, w = without_aux(v), without_aux(w)
        c.same("aux" if k == "aux" else "same", f"{case.label} {part} {k}", v, w, where=where)
  c.absorb(looping)
  c.absorb(plain)


DERIVATIVES = ("grad", "vjp", "jvp", "hvp", "jacobian")


def supplied(c, cases):
  """With a gradient supplied by the user, nothing is differentiated."""
  I, plain = refs.interp(), S.solver_interp()
  S.DERIVED = False
  try:
    for case in cases:
      J = plain if case.kind == "linesearch" else I
      d, err = run_case(J, case)
      if d is None:
        if not (isinstance(err, AbsRaise) and not model_limit(err)):
          c.unknown("supplied", case.label, err)
        continue
      vals = [v for r in (d.init, d.new_state) if isinstance(r, Rec) for v in r.vals.values()] + [d.new_params]
      own = [x for v in vals for x in tm.deps(J.lift(v)) if x.op in DERIVATIVES]
      c.expect("supplied", case.label, not own,
               f"differentiates although the gradient is supplied: {describe(own[0]) if own else ''}",
               where_of(J.getattr(d.solver, "update")))
  finally:
    S.DERIVED = True
  c.absorb(I)
  c.absorb(plain)


def supplied_cases():
  S.DERIVED = False
  try:
    out, seen = [], set()
    for case in S.all_cases([f for f in S.FORMS if f.startswith("vg")]):
      if case.form is None or not case.form.startswith("vg") or "fun" not in case.opts:
        continue
      key = (case.cls, case.form, str(case.axes.get("linesearch")))
      if key in seen or case.cls == "LBFGSB" and case.axes.get("linesearch", "zoom") != "zoom":
        continue
      seen.add(key)
      out.append(case)
    return out
  finally:
    S.DERIVED = True


def without_aux(r):
  if not isinstance(r, Rec):
    return r
  return Rec(r.cls, {k: v for k, v in r.vals.items() if k != "aux" and not k.startswith("num_")})


def keep(c, key):
  cls, ax = key[0], dict(key[1:])
  if cls == "BoxOSQP":
    return False
  if cls == "LBFGSB" and (ax.get("linesearch", "zoom") != "zoom" or c.tier == "quick" and ax.get("stepsize") != "0.37"):
    return False
  return ax.get("pre_update", "None") == "None"    # an arbitrary pre_update sees the whole state, aux included


def U_pair(has):
  return (S.U("fun_aux", S.P), S.U("vgfun_aux", (S.P, None))) if has else (S.U("fun"), S.U("vgfun", S.P))


def helpers(c):
  """The canonical triples every solver is built from, for each way of supplying one objective."""
  I = refs.interp()
  a, k = S.data_args()
  for name, with_aux in (("_make_funs_with_aux", True), ("_make_funs_without_aux", False)):
    fn = I.module("jaxopt._src.base").frame.vars.get(name)
    if fn is None:
      c.unknown("same", name, "not found")
      continue
    obj = S.U("fun_aux", S.P)
    val, g = I.call(I.fn("spec.forms", "value_aux_and_grad"), [obj], {}), None
    (v, aux), g = (lambda o: (I.unpack_values(o[0], 2), o[1]))(I.unpack_values(I.call(val, [arr("w")] + list(a), k), 2))
    for f in S.FORMS:
      o = {x: S.build_opt(I, y) for x, y in S.objective_opts(f).items()}
      ax = aux if f.endswith("aux") else None
      want = ((v, ax), (g, ax), ((v, ax), g)) if with_aux else (v, g, (v, g))
      try:
        funs = I.unpack_values(I.call(fn, [], {"fun": o["fun"], "value_and_grad": o.get("value_and_grad", False),
                                              "has_aux": o.get("has_aux", False)}), 3)
        got = tuple(I.call(h, [arr("w")] + list(a), k) for h in funs)
      except AbsRaise as e:
        if model_limit(e):
          c.unknown("same", f"{name} {f}", e)
        else:
          c.bad("accepted", f"{name} {f}", f"raises {e}", e.where)
        continue
      for what, x, y in zip(("fun", "grad", "value_and_grad"), got, want):
        c.same("same", f"{name} {f} {what}", x, y, where=where_of(fn))
      if f.startswith("vgc"):
        has = f.endswith("aux")
        pair = U_pair(has)
        try:
          funs = I.unpack_values(I.call(fn, [], {"fun": pair[0], "value_and_grad": pair[1], "has_aux": has}), 3)
          got = tuple(I.lift(I.call(h, [arr("w")] + list(a), k)) for h in funs[1:])
        except AbsRaise as e:
          c.unknown("supplied", f"{name} {f}", e)
          continue
        own = [x for v in got for x in tm.deps(v) if x.op in DERIVATIVES]
        c.expect("supplied", f"{name} {f}", not own, "differentiates although the gradient is supplied", where_of(fn))
  c.absorb(I)


def run(c):
  c.rule("same", "initialisation, update and optimality condition agree for every way of supplying one objective")
  c.rule("aux", "aux is the user's auxiliary output exactly when the objective has one, else None")
  c.rule("accepted", "a documented way of supplying the objective is accepted wherever the others are")
  c.rule("supplied", "with a gradient supplied by the user (value_and_grad True or callable) a solver differentiates nothing itself")
  S.DERIVED = True
  helpers(c)
  own = supplied_cases()
  by = {}
  for key in groups():
    if keep(c, key):
      by.setdefault(key[0], []).append(key)
  jobs = []
  for cls, keys in by.items():
    n = 1 if cls in ("LBFGSB",) else 2
    jobs += [(cls, keys[i:i + n]) for i in range(0, len(keys), n)]
  jobs.sort(key=lambda j: refs.SLOW.index(j[0]) if j[0] in refs.SLOW else 99)
  extra = [(lambda cs: lambda sub: supplied(sub, cs))(own[i::4]) for i in range(4)]
  parallel(c, extra + [(lambda ks: lambda sub: compare(sub, ks))(ks) for _, ks in jobs], 7)
