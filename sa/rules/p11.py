"""P11: traced operations never branch in Python on array values."""
from ..core import *
from .. import solvers as S
from .. import catalog
from .. import terms as tm

FLOOR = 50

# operators whose result is known while tracing, whatever their arguments
STATIC_OPS = {"shape", "dim", "ndim", "size", "len", "dtype", "isinstance", "isnone", "hasattr", "callable", "struct",
              "treedef", "nleaves", "type", "is", "itemsize", "weak", "signature", "id", "name", "rank"}
TRACED_SYMS = {"arr", "opt", "cnt", "rng", "key", "int", "bool"}
TRACED_OPS = {"st", "st2", "lv", "bv", "lsf", "lsrun", "out", "prerun", "loopvar", "while", "fori", "scan",
              "jac", "grad", "vjp", "jvp", "app"}
# host functions that only look at shapes, dtypes or use array methods a tracer has
HOST_OK = {"numpy.split", "numpy.shape", "numpy.ndim", "numpy.size", "numpy.result_type", "numpy.iscomplexobj",
           "numpy.isscalar", "numpy.finfo", "numpy.iinfo", "numpy.dtype", "numpy.prod", "numpy.issubdtype",
           "numpy.promote_types", "numpy.can_cast"}

_memo = {}


def traced(t):
  """May the value of this term be unknown while the operation is traced?"""
  if not isinstance(t, T):
    if isinstance(t, tuple):
      return any(traced(x) for x in t)
    return False
  r = _memo.get(t)
  if r is not None:
    return r
  _memo[t] = False
  if t.op in STATIC_OPS:
    r = False
  elif t.op == "sym":
    r = t.args[0] in TRACED_SYMS
  elif t.op in TRACED_OPS:
    r = True
  elif t.op == "comp":
    r = any(traced(x) for x in t.args[1:])
  else:
    r = any(traced(x) for x in t.args)
    if not r and t.args and isinstance(t.args[0], T) and t.args[0].op == "sym" and t.args[0].args[0] == "fn":
      r = t.op not in ("eq",)
  _memo[t] = r
  return r


def run(c):
  c.rule("branch", "no Python if/while/assert/and/or/conditional expression tests a term that depends on the value of an array")
  c.rule("convert", "no int()/float()/bool()/.item()/.tolist()/range() of a term that depends on the value of an array")
  c.rule("host", "no host-side NumPy function receives a term that depends on the value of an array")
  I = S.solver_interp()
  I.tracing = True
  forms = S.FORMS if c.tier == "thorough" else ["plain", "aux", "vgc+aux"]
  seen_cls = set()
  for case in S.all_cases(forms):
    if case.axes.get("check_bracket") is True:
      continue   # documented as not usable under jit
    d = S.try_drive(I, case, jit=True)
    if d is None:
      c.unknown("branch", case.label, getattr(case, "error", ""))
      continue
    scan(c, case.label + " init_state", d.init_events)
    scan(c, case.label + " update", d.update_events)
    if case.kind == "solver":
      key = (case.cls, case.form)
      n = len(I.events)
      for name in ("optimality_fun", "l2_optimality_error"):
        try:
          f = I.getattr(d.solver, name)
          I.call(f, [d.params] + list(d.args), d.kwargs)
        except AbsRaise:
          pass
        except AnalysisBroken:
          raise
        except Exception:
          pass
        scan(c, f"{case.label} {name}", I.events[n:])
        del I.events[n:]
      if key not in seen_cls:
        seen_cls.add(key)
        try:
          I.call(I.getattr(d.solver, "run"), [d.params] + list(d.args), d.kwargs)
        except AbsRaise as e:
          c.unknown("branch", case.label + " run", e)
        except AnalysisBroken:
          raise
        except Exception as e:
          c.unknown("branch", case.label + " run", f"{type(e).__name__} {e}")
        scan(c, f"{case.label} run", I.events[n:])
  c.absorb(I)
  I = new_interp()
  I.tracing = True
  for cl in catalog.functional(I):
    if cl.label.startswith(("projection.projection_polyhedron", "projection.projection_box_section")) and \
        cl.kwargs.get("check_feasible", True) is not False:
      continue   # documented as not usable under jit
    n = len(I.events)
    v, e = catalog.invoke(I, cl)
    if e is not None and not isinstance(e, AbsRaise):
      c.unknown("branch", cl.label, e)
    scan(c, cl.label, I.events[n:])
  c.absorb(I)


KINDS = {"pybranch": "branch", "pyconv": "convert", "pyrange": "convert", "hostnumpy": "host"}


def scan(c, label, events):
  bad = 0
  for e in events:
    rule = KINDS.get(e.kind)
    if rule is None:
      continue
    data = e.data
    if e.kind == "hostnumpy":
      if data[0] in HOST_OK:
        continue
      data = data[1]
    elif e.kind == "pyconv":
      data = data[1]
    if traced(data):
      bad += 1
      what = tm.show(data, 4)[:300] if isinstance(data, T) else str(data)[:300]
      fn = str(e.where).split(" in ")[-1]
      c.bad(rule, fn, f"in {label}: {e.kind} depends on {what}", e.where)
  if not bad:
    c.ok("branch", label)
