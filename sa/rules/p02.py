"""P02: the iteration counter starts at 0 and grows by one per update."""
from ..core import *
from .. import solvers as S
from .. import terms as tm

FLOOR = 300


def run(c):
  c.rule("init", "init_state returns iter_num = 0")
  c.rule("step", "the iter_num term returned by update equals the received iter_num plus one on every branch")
  c.rule("runs", "init_state and update can be interpreted for this configuration")
  I = S.solver_interp()
  forms = S.FORMS if c.tier == "thorough" else ["plain", "aux", "vg", "vgc+aux"]
  for case in S.all_cases(forms):
    d = S.try_drive(I, case)
    if d is None:
      c.unknown("runs", case.label, "raises")
      continue
    check_counter(c, case.label, d.init, d.state, d.new_state)
  S.osqp_states(I, c, check_counter)
  c.absorb(I)


def check_counter(c, label, init, st, new):
  if not (isinstance(new, Rec) and isinstance(init, Rec) and "iter_num" in init.vals):
    return
  cls = init.cls.name
  c.same("init", label + " " + cls + ".iter_num", init.vals["iter_num"], tm.ZERO)
  got = S.through_pre(new.vals.get("iter_num"))
  c.same("step", label + " " + cls + ".iter_num", got, tm.add(st.vals["iter_num"], tm.ONE))
