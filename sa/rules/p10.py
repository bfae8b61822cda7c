"""P10: solver calls leave no trace."""
from ..core import *
from ..interp import ModuleV, ClassInfo, _SERIAL
from .. import solvers as S
from .. import catalog
from .. import terms as tm

FLOOR = 150


def run(c):
  c.rule("solver", "no attribute or item store, in-place method or nonlocal/global assignment reached from a public operation "
                   "targets an object that existed before the operation started")
  c.rule("build", "constructing a solver stores only into objects created by the construction")
  c.rule("function", "no store reached from a public function targets an object that existed before the call")
  forms = S.FORMS if c.tier == "thorough" else ["plain", "aux", "vgc+aux"]
  I = load_all(S.solver_interp())
  I.plain_loops = True
  seen = set()
  cases = [(x, None) for x in S.all_cases(forms)] + [(x, "tree") for x in S.tree_cases()]
  for case, tree in cases:
    solver_case(c, I, case, tree, seen)
  c.absorb(I)
  I = load_all(S.solver_interp(summarise_ls=False))
  I.plain_loops = True
  done = set()
  for case in S.all_cases(["plain"]):   # inner line searches interpreted in full
    if case.cls in ("LBFGS", "BFGS", "LBFGSB", "NonlinearCG", "Broyden") and case.axes.get("stepsize", 0.0) == 0.0:
      key = (case.cls, case.axes.get("linesearch"))
      if key not in done:
        done.add(key)
        solver_case(c, I, case, None, seen, "full ")
  c.absorb(I)
  I = load_all(new_interp())
  I.plain_loops = True
  for cl in catalog.functional(I):
    b = mark(I)
    v, e = catalog.invoke(I, cl)
    if e is not None and not isinstance(e, AbsRaise):
      c.unknown("function", cl.label, e)
      continue
    judge(c, "function", cl.label, I, b)
  c.absorb(I)
  I = load_all(new_interp())
  I.plain_loops = True
  for cls, tag, opts, calls in catalog.external(I):
    lab = f"{cls}[{tag}]"
    try:
      ci = S.public(I, cls)
    except AnalysisBroken:
      continue
    b = mark(I)
    try:
      s = I.instantiate(ci, [], dict(opts))
    except AbsRaise as e:
      c.unknown("build", lab, e)
      continue
    except AnalysisBroken:
      raise
    except Exception as e:
      c.unknown("build", lab, f"{type(e).__name__} {e}")
      continue
    judge(c, "build", lab, I, b)
    for m, a, k in calls:
      attempt(c, I, lab, s, m, a, k)
  c.absorb(I)


def load_all(I):
  for src in I.loader.all_src():
    I.module(src.name)
  for n in ("projection", "prox", "loss", "objective", "tree_util", "linear_solve", "isotonic", "implicit_diff", "loop",
            "perturbations", "base"):
    I.module("jaxopt." + n)
  I.events.clear()
  return I


def mark(I):
  return (len(I.events), I.next_id, _SERIAL[0])


def solver_case(c, I, case, tree, seen, pre=""):
  lab = pre + case.label + (" tree" if tree else "")
  try:
    opts = {k: S.build_opt(I, v) for k, v in case.opts.items()}
    opts.setdefault("jit", False)
    b = mark(I)
    s = I.instantiate(S.public(I, case.cls), [], opts)
    judge(c, "build", lab, I, b)
    p, a, k = S.init_args(I, case, s)
    if tree:
      p = S.tree_params(I)
  except AbsRaise as e:
    c.unknown("build", lab, e)
    return
  except AnalysisBroken:
    raise
  except Exception as e:
    c.unknown("build", lab, f"{type(e).__name__} {e}")
    return
  st, ok = attempt(c, I, lab, s, "init_state", [p] + a, k)
  if ok:
    gst = I.generalize(st, ("st",))
    gp = mk("st", ".stepsize") if case.kind == "linesearch" else p
    attempt(c, I, lab, s, "update", [gp, gst] + a, k)
  if case.kind == "solver":
    for m in ("optimality_fun", "l2_optimality_error"):
      attempt(c, I, lab, s, m, [p] + a, k)
  key = (pre, case.cls, case.form)
  if key not in seen:
    seen.add(key)
    attempt(c, I, lab, s, "run", [p] + a, k)
    if case.kind == "solver" and case.cls in ("PolyakSGD", "ArmijoSGD", "OptaxSolver", "GradientDescent", "LBFGS"):
      attempt(c, I, lab + " second", s, "run", [p] + a, k)


def attempt(c, I, lab, s, m, a, k):
  """(value, ok); judges the stores of one public operation."""
  lab = f"{lab} {m}"
  try:
    f = I.getattr(s, m)
  except AbsRaise:
    return None, False
  b = mark(I)
  v, ok = None, False
  try:
    v = I.call(f, list(a), dict(k))
    ok = True
  except AbsRaise as e:
    if model_limit(e):
      c.unknown("solver", lab, e)
  except AnalysisBroken:
    raise
  except Exception as e:
    c.unknown("solver", lab, f"{type(e).__name__} {e}")
  judge(c, "solver", lab, I, b)
  return v, ok


def judge(c, rule, lab, I, b):
  n, ident, born = b
  bad = 0
  for e in I.events[n:]:
    t = None
    if e.kind == "store":
      o, what = e.data
      if isinstance(o, Ref):
        if o.id < ident:
          t = f"{o!r}.{what}" if o.kind == "obj" else f"{what} on {o!r}"
      elif isinstance(o, (ModuleV, ClassInfo)):
        t = f"{what} on {o!r}"
      elif isinstance(o, T):
        if o.op in ("sym", "st") or what != "item":
          t = f"{what} on {tm.show(o, 3)}"
      elif hasattr(o, "born"):
        if o.born <= born:
          t = f"{what} on {o!r}"
      elif isinstance(o, Bound) and getattr(o.fn, "born", born + 1) <= born:
        t = f"{what} on {o!r}"
    elif e.kind == "globalstore":
      t = f"global {e.data}"
    elif e.kind == "nonlocalstore":
      if e.data[1].born <= born:
        t = f"variable {e.data[0]} of an enclosing function that already returned"
    elif e.kind == "augassign" and e.data[0].op == "sym" and e.data[0].args[0] == "arr":
      t = f"augmented assignment to the caller's array {tm.show(e.data[0], 2)}"
    if t is not None:
      bad += 1
      fn = str(e.where).split(" in ")[-1]
      c.bad(rule, fn, f"during {lab}: stores {t}", e.where)
  del I.events[n:]
  if not bad:
    c.ok(rule, lab)
