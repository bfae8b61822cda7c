"""P12: verbosity never changes results."""
from ..core import *
from .. import solvers as S
from .. import terms as tm

FLOOR = 200


def levels(tier):
  return (1, 2, True) if tier == "thorough" else (1, 2)


def run(c):
  c.rule("init", "the initial state's terms are the same for every verbosity level")
  c.rule("update", "the terms of updated parameters and state are the same for every verbosity level")
  c.rule("inner", "inner line searches and solvers are given the same options and inputs (other than verbosity)")
  c.rule("run", "the run's result terms and loop options are the same for every verbosity level")
  I = S.solver_interp()
  forms = S.FORMS if c.tier == "thorough" else ["plain", "vgc+aux"]
  ran = set()
  for case in S.all_cases(forms):
    base = S.try_drive(I, case, verbose=0)
    if base is None:
      c.unknown("update", case.label, getattr(case, "error", ""))
      continue
    b_ev = effects(I, base)
    for v in levels(c.tier):
      lab = f"{case.label} verbose={v}"
      d = S.try_drive(I, case, verbose=v)
      if d is None:
        c.bad("update", lab, f"raises with verbose={v} only: {case.error}") if "not interpreted" not in case.error else \
            c.unknown("update", lab, case.error)
        continue
      where = where_of(I.getattr(d.solver, "update"))
      same_opaque(c, "init", lab, d.init, base.init, where)
      same_opaque(c, "update", lab + " params", d.new_params, base.new_params, where)
      same_opaque(c, "update", lab + " state", d.new_state, base.new_state, where)
      ev = effects(I, d)
      if len(ev) != len(b_ev):
        # verbose printing may evaluate extra user functions; results are compared above
        c.ok("inner", lab)
      else:
        for (k1, t1), (k2, t2) in zip(ev, b_ev):
          same_opaque(c, "inner", f"{lab} {k1}", t1, t2, where)
  c.absorb(I)
  runs(c)


def effects(I, d):
  return [(e.kind, e.data[2]) for e in d.update_events if e.kind == "lsrun"]


def same_opaque(c, rule, lab, a, b, where):
  """Same terms (also for operators without an evaluation rule, which must then be identical)."""
  st, why = same_value(a, b)
  if st == "eq":
    c.ok(rule, lab)
  elif st == "undecided":
    c.unknown(rule, lab, why)
  else:
    c.bad(rule, lab, why, where)


def runs(c):
  I = S.solver_interp()
  seen = set()
  for case in S.all_cases(["plain"]):
    if case.kind != "solver" or case.cls in seen:
      continue
    seen.add(case.cls)
    res = {}
    for v in (0, 1):
      try:
        s = S.build(I, case, verbose=v)
        p, a, k = S.init_args(I, case, s)
        I.events.clear()
        res[v] = I.call(I.getattr(s, "run"), [p] + a, k)
      except AbsRaise as e:
        res[v] = e
      except AnalysisBroken:
        raise
      except Exception as e:
        res[v] = e
    if any(isinstance(r, Exception) for r in res.values()):
      c.unknown("run", case.cls, [str(r) for r in res.values() if isinstance(r, Exception)])
      continue
    same_opaque(c, "run", case.cls + ".run", res[1], res[0], case.cls + ".run")
  c.absorb(I)
