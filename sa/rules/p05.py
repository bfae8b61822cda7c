"""P05: updates keep the shape of the state, so any loop can carry it."""
from ..core import *
from .. import solvers as S
from .. import terms as tm
from ..interp import is_bool_value

FLOOR = 1500


def run(c):
  c.rule("type", "update returns the state class init_state returned")
  c.rule("presence", "a field is None after update iff it was None before, on every branch")
  c.rule("structure", "containers nest alike before and after the update")
  c.rule("kind", "a boolean field stays boolean and a numeric one numeric")
  c.rule("aux-untouched", "auxiliary output is carried whole: never an operand of arithmetic")
  c.rule("params-structure", "returned parameters have the container structure of the received ones")
  I = S.solver_interp()
  forms = S.FORMS
  for case in S.all_cases(forms):
    d = S.try_drive(I, case)
    if d is None:
      c.unknown("type", case.label, getattr(case, "error", "raises"))
      continue
    whole(c, I, case.label, d)
    aux_rule(c, case.label, d)
  structured(c, I)
  c.absorb(I)


def whole(c, I, lab, d):
  """Initial state against updated state, and that against the state after another update.

  A run always performs its first update outside the loop, so auxiliary output may be
  absent until then when initialisation evaluates no user function.
  """
  lazy = d.case.kind == "linesearch" or not any(
      e.kind in ("usercall", "gradcall", "jaccall", "jvpcall", "vjpcall") for e in d.init_events)
  compare(c, I, lab, d.init, d.state, d.new_state, "state", lazy)
  try:
    st = I.generalize(d.new_state, ("st2",))
    out = I.call(I.getattr(d.solver, "update"), [d.state_params, st] + list(d.args), d.kwargs)
  except AbsRaise as e:
    c.unknown("type", lab + " second update", e)
    return
  new2 = I.unpack_values(out, 2)[1]
  compare(c, I, lab + " second update", d.new_state, st, new2, "state")


def none(v):
  return v is None or v is NONE_T


def maybe_none(v):
  """Does a value become None on some branch only?"""
  if isinstance(v, PhiV):
    return none(v.a) != none(v.b) or maybe_none(v.a) or maybe_none(v.b)
  if isinstance(v, T) and v.op == "ite":
    return (v.args[1] is NONE_T) != (v.args[2] is NONE_T) or maybe_none(v.args[1]) or maybe_none(v.args[2])
  return False


def compare(c, I, lab, init, st, new, path, lazy=False):
  con = f"{lab} {path}"
  if isinstance(new, T) and new.op == "tuple":
    new = tuple(new.args)
  if isinstance(init, T) and init.op == "tuple":
    init = tuple(init.args)
  if isinstance(init, Rec):
    if not isinstance(new, Rec):
      if isinstance(new, T) or isinstance(new, PhiV):
        c.unknown("type", con, "unknown structure")
      else:
        c.bad("type", con, f"init_state gives {init.cls.name}, update gives {describe(new)}")
      return
    if init.cls is not new.cls:
      c.bad("type", con, f"init_state gives {init.cls.name}, update gives {new.cls.name}")
      return
    c.ok("type", con)
    for k in init.vals:
      compare(c, I, lab, init.vals[k], st.vals[k] if isinstance(st, Rec) else None, new.vals[k],
              f"{path}.{k}", lazy)
    return
  if maybe_none(new):
    c.bad("presence", con, "is None on some branches only")
    return
  if none(init) and not none(new) and lazy and path.endswith(".aux"):
    c.ok("presence", con)
    return
  if none(init) != none(new):
    c.bad("presence", con, f"{'absent' if none(init) else 'present'} initially but "
          f"{'absent' if none(new) else 'present'} after an update")
    return
  if none(init):
    c.ok("presence", con)
    return
  a, b = shape_of(I, init), shape_of(I, new)
  if a is not None or b is not None:
    if isinstance(new, (T, PhiV)) and b is None or isinstance(init, (T, PhiV)) and a is None:
      c.unknown("structure", con, "unknown structure")
      return
    if a != b:
      c.bad("structure", con, f"initially {a}, after an update {b}")
      return
    c.ok("structure", con)
    xs, ys = S.kids(I, init), S.kids(I, new)
    ss = S.kids(I, st) if st is not None else [None] * len(xs)
    for k, (x, y, z) in enumerate(zip(xs, ys, ss)):
      compare(c, I, lab, x, z, y, f"{path}.{k}", lazy)
    return
  c.ok("presence", con)
  ki, kn = kind(init), kind(new)
  if ki and kn:
    if ki == kn:
      c.ok("kind", con)
    else:
      c.bad("kind", con, f"initially {ki}, after an update {kn}: {describe(new)}")


def shape_of(I, v):
  if isinstance(v, tuple):
    return ("tuple", len(v))
  if isinstance(v, Rec):
    return (v.cls.name, len(v.vals))
  if isinstance(v, Ref) and v.kind == "list":
    return ("list", len(I.payload(v)))
  if isinstance(v, Ref) and v.kind == "dict":
    return ("dict", tuple(sorted(I.payload(v), key=str)))
  return None


def kind(v):
  if isinstance(v, bool):
    return "boolean"
  if isinstance(v, (int, float)):
    return "number"
  if isinstance(v, T):
    return tkind(v)
  return None


def tkind(t):
  if t.op == "bool":
    return "boolean"
  if t.op in ("const", "poly"):
    return "number"
  if t.op == "ite":
    a, b = tkind(t.args[1]), tkind(t.args[2])
    return a if a == b else ("mixed boolean/number" if a and b else None)
  if tm.is_boolish(t) or is_bool_value(t):
    return "boolean"
  if t.op in ("max", "min", "abs", "treesum"):
    return "number"
  return None


def aux_rule(c, lab, d):
  """aux must be a selection among user results and the received aux."""
  new = d.new_state
  if not isinstance(new, Rec) or "aux" not in new.vals or d.case.form is None:
    return
  v = new.vals["aux"]
  if none(v) or not isinstance(v, T):
    return
  if selection(v):
    c.ok("aux-untouched", lab)
  else:
    c.bad("aux-untouched", lab, f"aux is computed by {tm.show(v, 5)[:300]}")


def selection(t):
  if t.op == "ite":
    return selection(t.args[1]) and selection(t.args[2])
  if t.op == "tuple":
    return all(selection(x) for x in t.args)
  return t.op not in ("poly", "const", "max", "min", "abs", "treesum", "sum", "bool")


def structured(c, I):
  """Tree-shaped parameters keep their containers."""
  for case in S.tree_cases():
    try:
      p = S.tree_params(I)
      case.params = p
      d = S.drive(I, case)
    except AbsRaise as e:
      c.unknown("params-structure", case.label, e)
      continue
    td0, td1 = skel(I, d.params), skel(I, d.new_params)
    if unknown_inside(td1):
      c.unknown("params-structure", case.label, "opaque")
    elif td0 == td1:
      c.ok("params-structure", case.label)
    else:
      c.bad("params-structure", case.label, f"received {td0}, returned {td1}")
    whole(c, I, case.label + "{tree}", d)


def skel(I, v):
  if none(v):
    return None
  s = shape_of(I, v)
  if s is None:
    if isinstance(v, T) and v.op == "tuple":
      return ("tuple", len(v.args), tuple(skel(I, x) for x in v.args))
    return "*"
  return s + (tuple(skel(I, x) for x in S.kids(I, v)),)


def unknown_inside(sk):
  return sk == "*"
