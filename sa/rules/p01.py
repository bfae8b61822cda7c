"""P01: runs are bounded by maxiter and stop exactly on the stopping rule."""
from ..core import *
from .. import solvers as S
from .. import terms as tm
from .. import models

FLOOR = 250

MODES = [(True, False), (True, True), (False, True)]   # (unroll, jit)


def run(c):
  c.rule("loop", "loop.while_loop applies the body while the test holds, at most maxiter times, in every realisation")
  c.rule("loop-reject", "unroll=False with jit=False is rejected")
  c.rule("unroll-option", "_get_unroll_option: 'auto' unrolls iff implicit_diff is off or jit is off; otherwise the option itself")
  c.rule("run", "run applies at most max(1, maxiter) updates, all but the first guarded by the test; maxiter=0 is a zero step")
  c.rule("run-class", "the public run of this solver performs the same loop over its own init_state, test and update")
  c.rule("test", "_cond_fun is error > tol, possibly with the solver's own failure flags")
  c.rule("iterator", "run_iterator initialises from one batch and applies one update per following batch, at most maxiter")
  loops(c)
  unroll_option(c)
  mock_runs(c)
  tests(c)
  class_runs(c)
  iterators(c)


def plain_interp(n=14):
  I = new_interp()
  I.hooks.pop("jaxopt._src.loop.while_loop", None)
  I.unroll_loops = n
  return I


# ------------------------------------------------------------------ loops ----
def loops(c):
  I = plain_interp()
  fn = I.fn("jaxopt._src.loop", "while_loop")
  cond, body = U("lcond"), U("lbody", (None, (None,)))
  init = (arr("x0"), (opt("y0"),))
  for unroll, jit in MODES:
    for n in range(-1, 5 if c.tier == "quick" else 9):
      con = f"while_loop[unroll={unroll},jit={jit},maxiter={n}]"
      got, e = try_call(I, fn, [cond, body, init, n], {"unroll": unroll, "jit": jit})
      if e is not None:
        c.bad("loop", con, f"raises {e.exc}", e.where)
        continue
      c.same("loop", con, got, loop_ref(I, cond, body, init, n))
  got, e = try_call(I, fn, [cond, body, init, 3], {"unroll": False, "jit": False})
  c.expect("loop-reject", "while_loop[unroll=False,jit=False]", e is not None, "accepted")
  c.absorb(I)


def U(name, shape=None):
  return S.U(name, shape)


def loop_ref(I, cond, body, init, n):
  vals, conds = [init], []
  for _ in range(max(n, 0)):
    conds.append(I.cond_term(I.call(cond, [vals[-1]], {})))
    vals.append(I.call(body, [vals[-1]], {}))
  out = vals[-1]
  for cc, v in zip(reversed(conds), reversed(vals[:-1])):
    out = I.merge(cc, out, v)
  return out


# ----------------------------------------------------------------- options ---
def unroll_option(c):
  I = plain_interp()
  ci = I.cls("spec.mocks", "MockSolver")
  for unroll in ("auto", True, False):
    for idiff in (True, False):
      for jit in (True, False):
        s = mock(I, ci, unroll=unroll, implicit_diff=idiff, jit=jit)
        got, e = try_call(I, I.getattr(s, "_get_unroll_option"), [])
        want = (not idiff or not jit) if unroll == "auto" else unroll
        con = f"_get_unroll_option[unroll={unroll},implicit_diff={idiff},jit={jit}]"
        if e is not None:
          c.bad("unroll-option", con, f"raises {e.exc}", e.where)
        else:
          c.same("unroll-option", con, got, want)


def mock(I, ci, **kw):
  o = dict(init_fn=U("m_init", (None, None)), update_fn=U("m_update", (None, (None, None))), opt_fn=U("m_opt"),
           tol=opt("tol"))
  o.update(kw)
  return I.instantiate(ci, [], o)


def mock_runs(c):
  I = plain_interp()
  ci = I.cls("spec.mocks", "MockSolver")
  ref = I.fn("spec.mocks", "run_ref")
  p0, args, kw = arr("w0"), [arr("X")], {"l2": opt("l2")}
  for idiff in (False, True):
    for unroll in ("auto", True, False):
      for jit in (True, False):
        if unroll is False and not jit:
          continue
        for n in range(0, 4 if c.tier == "quick" else 8):
          s = mock(I, ci, unroll=unroll, implicit_diff=idiff, jit=jit, maxiter=n)
          con = f"run[maxiter={n},unroll={unroll},implicit_diff={idiff},jit={jit}]"
          got, e = try_call(I, I.getattr(s, "run"), [p0] + args, kw)
          if e is not None:
            c.bad("run", con, f"raises {e.exc}", e.where)
            continue
          want = run_reference(I, ref, s, n, p0, args, kw, tol_cond(I))
          c.same("run", con, got, want)
  c.absorb(I)


def tol_cond(I):
  def f(I, a, k):
    (ps, _) = I.unpack_values(a[0], 2)
    st = I.unpack_values(ps, 2)[1]
    return tm.lt(opt("tol"), I.lift(st.vals["error"]))
  return PyFn("cond", f)


def run_reference(I, ref, s, n, p0, args, kw, cond, steptype="OptStep"):
  return I.call(ref, [I.getattr(s, "init_state"), I.getattr(s, "update"), cond, n,
                      I.cls("jaxopt._src.base", steptype), p0, tuple(args), I.newdict(kw)], {})


# ------------------------------------------------------------------- tests ---
def tests(c):
  I = S.solver_interp()
  seen = set()
  for case in S.all_cases(["plain"]):
    variants = [{}]
    if case.cls in ("BFGS", "LBFGS", "LBFGSB", "Broyden", "NonlinearCG"):
      variants = [{"stop_if_linesearch_fails": True}, {"stop_if_linesearch_fails": False}]
    elif case.cls == "LevenbergMarquardt":
      variants = [{"stop_criterion": "grad-l2-norm"}, {"stop_criterion": "madsen-nielsen"}]
    for v in variants:
      key = (case.cls, tuple(v.items()))
      if key in seen:
        continue
      try:
        over = dict(v)
        names = [n for n, _, _ in S.public(I, case.cls).fields()]
        for nm in ("tol", "xtol", "gtol"):
          if nm in names:
            over[nm] = opt(nm)
        over = {k: x for k, x in over.items() if k in names}
        if case.cls == "AndersonWrapper":
          kind, nm, o = case.opts["solver"]
          over["solver"] = S.build_opt(I, (kind, nm, dict(o, tol=opt("tol"))))
        d = S.drive(I, case, **over)
      except AbsRaise as e:
        c.unknown("test", case.label, e)
        continue
      seen.add(key)
      st, p = d.state, d.state_params
      con = case.cls + ("[" + ",".join(f"{k}={x}" for k, x in v.items()) + "]" if v else "")
      arg = ((p, st), (tuple(d.args), I.newdict(d.kwargs)))
      got, e = try_call(I, I.getattr(d.solver, "_cond_fun"), [arg])
      if e is not None:
        c.bad("test", con, f"raises {e.exc}", e.where)
        continue
      got = I.cond_term(got)
      want = wanted_test(I, case.cls, over, st, p)
      c.same("test", con, got, want)
  c.absorb(I)


def wanted_test(I, cls, v, st, p):
  if cls == "ZoomLineSearch":
    return tm.not_(tm.or_(st.vals["done"], st.vals["failed"]))
  err = I.lift(st.vals["error"])
  w = tm.lt(opt("tol"), err)
  if v.get("stop_criterion") == "madsen-nielsen":
    return I.cond_term(I.call(I.fn("spec.mocks", "madsen_nielsen"), [st, p, opt("gtol"), opt("xtol")], {}))
  if v.get("stop_if_linesearch_fails"):
    w = tm.and_(w, tm.not_(st.vals["failed_linesearch"]))
  return w


# -------------------------------------------------------------- class runs ---
def class_runs(c):
  """The loop of every public solver, with its init_state and update made opaque."""
  I = S.solver_interp()
  summaries = list(I.method_hooks)
  loop_hook = I.hooks.get("jaxopt._src.loop.while_loop")
  ref = I.fn("spec.mocks", "run_ref")
  template = {}
  active = [None]

  def pred(cls, name, owner):
    return name in ("init_state", "update") and active[0] is not None and cls is active[0]

  def hook(I, s, fn, a, k):
    tok = [I.lift(x) for x in a] + [mk("kw", n, I.lift(x)) for n, x in sorted(k.items())]
    tmpl_p, tmpl_s = template[s.cls.qual]
    if fn.name == "init_state":
      return I._gen(tmpl_s, lambda q: leaf("initst", tmpl_s, q, tok), "")
    st = I._gen(tmpl_s, lambda q: leaf("updst", tmpl_s, q, tok), "")
    ps = I._gen(tmpl_p, lambda q: leaf("updp", tmpl_p, q, tok), "")
    linesearch = "LineSearch" in s.cls.name
    return Rec(I.cls("jaxopt._src.base", "LineSearchStep" if linesearch else "OptStep"),
               {("stepsize" if linesearch else "params"): ps, "state": st})

  def leaf(kind, tmpl, q, tok):
    t = S.rank_like(tmpl, q, mk(kind, q, *tok))
    if q.split(".")[-1] in models.SCALAR_FIELDS:
      models.RANK[t] = 0
    return t

  def mode(exact):
    I.method_hooks = [(pred, hook)] + ([] if exact else summaries)
    I.unroll_loops = 14 if exact else 0
    if exact:
      I.hooks.pop("jaxopt._src.loop.while_loop", None)
    else:
      I.hooks["jaxopt._src.loop.while_loop"] = loop_hook

  seen = set()
  for case in S.all_cases(["plain"]):
    if case.cls in seen:
      continue
    active[0] = None
    mode(False)
    try:
      d = S.drive(I, case)
    except AbsRaise:
      continue
    except TooBig:
      continue
    seen.add(case.cls)
    if case.cls == "ProjectedGradient":
      template[S.public(I, "ProximalGradient").qual] = (d.new_params, d.new_state)
    template[d.solver.cls.qual] = (d.new_params, d.new_state)
    modes = [(True, False, False), (True, True, False), (False, True, False), ("auto", True, True)]
    for unroll, jit, idiff in modes:
      for n in (0, 1, 3) if c.tier == "quick" else (0, 1, 2, 3, 5):
        active[0] = None
        mode(False)
        names = [x for x, _, _ in S.public(I, case.cls).fields()]
        over = dict(unroll=unroll, jit=jit, maxiter=n)
        if case.cls == "AndersonWrapper":
          over.pop("maxiter")
          kind, nm, o = case.opts["solver"]
          over["solver"] = S.build_opt(I, (kind, nm, dict(o, maxiter=n)))
        if "implicit_diff" in names:
          over["implicit_diff"] = idiff
        con = f"{case.cls}.run[maxiter={n},unroll={unroll},jit={jit},implicit_diff={idiff}]"
        try:
          s = S.build(I, case, **over)
        except AbsRaise as e:
          c.unknown("run-class", con, e)
          continue
        p, a, k = S.init_args(I, case, s)
        if case.cls == "IterativeRefinement":
          a = a + [None]
        # ProjectedGradient delegates its whole run to its inner solver
        active[0] = S.public(I, "ProximalGradient") if case.cls == "ProjectedGradient" else s.cls
        mode(True)
        try:
          got, e = try_call(I, I.getattr(s, "run"), [p] + a, k)
          if e is not None:
            c.bad("run-class", con, f"raises {e.exc}", e.where)
            continue
          ra, rk = list(a), dict(k)
          if case.kind == "linesearch":
            ra = a + [k.get("value"), k.get("grad"), k.get("descent_direction"), k["fun_args"], k["fun_kwargs"]]
            rk = {}
          want = run_reference(I, ref, s, n, p, ra, rk, I.getattr(s, "_cond_fun"),
                               "LineSearchStep" if case.kind == "linesearch" else "OptStep")
        finally:
          active[0] = None
        c.same("run-class", con, got, want)
  c.absorb(I)


# --------------------------------------------------------------- iterators ---
def iterators(c):
  I = plain_interp()
  ci = I.cls("spec.mocks", "MockStochastic")
  ref = I.fn("spec.mocks", "run_iterator_ref")
  step = I.cls("jaxopt._src.base", "OptStep")
  batches = [arr(f"batch{i}") for i in range(5)]
  p0, args, kw = arr("w0"), [arr("X")], {"l2": opt("l2")}
  for nb in range(1, 6):
    for n in range(0, 5):
      s = mock(I, ci, maxiter=n)
      con = f"run_iterator[batches={nb},maxiter={n}]"
      it = I.new("iter", batches[:nb])
      got, e = try_call(I, I.getattr(s, "run_iterator"), [p0, it] + args, kw)
      if e is not None:
        c.bad("iterator", con, f"raises {e.exc}", e.where)
        continue
      want = I.call(ref, [I.getattr(s, "init_state"), I.getattr(s, "update"), n, step, p0, tuple(batches[:nb]),
                          tuple(args), I.newdict(kw)], {})
      c.same("iterator", con, got, want)
  # the stochastic solvers inherit it unchanged, or override it equivalently
  for case in S.stochastic(["plain"])[:1] + [x for x in S.stochastic(["plain"]) if x.cls != "PolyakSGD"][:1] + \
      [x for x in S.stochastic(["plain"]) if x.cls == "OptaxSolver"][:1]:
    J = S.solver_interp()
    J.hooks.pop("jaxopt._src.loop.while_loop", None)
    d = S.drive(J, case)
    tmpl = d.new_state

    def hook(I, s, fn, a, k):
      tok = [I.lift(x) for x in a] + [mk("kw", n, I.lift(x)) for n, x in sorted(k.items())]
      if fn.name == "init_state":
        return I._gen(tmpl, lambda q: mk("initst", q, *tok), "")
      return Rec(I.cls("jaxopt._src.base", "OptStep"),
                 {"params": mk("updp", *tok), "state": I._gen(tmpl, lambda q: mk("updst", q, *tok), "")})
    J.method_hooks.append((lambda cls, name, owner, d=d: cls is d.solver.cls and name in ("init_state", "update"), hook))
    ref = J.fn("spec.mocks", "run_iterator_ref")
    step = J.cls("jaxopt._src.base", "OptStep")
    for nb, n in ((1, 2), (3, 1), (4, 3), (3, 5), (2, 0)):
      s = S.build(J, case, maxiter=n)
      con = f"{case.cls}.run_iterator[batches={nb},maxiter={n}]"
      it = J.new("iter", batches[:nb])
      got, e = try_call(J, J.getattr(s, "run_iterator"), [p0, it] + args, kw)
      if e is not None:
        c.bad("iterator", con, f"raises {e.exc}", e.where)
        continue
      want = J.call(ref, [J.getattr(s, "init_state"), J.getattr(s, "update"), n, step, p0, tuple(batches[:nb]),
                          tuple(args), J.newdict(kw)], {})
      c.same("iterator", con, got, want)
    c.absorb(J)
  c.absorb(I)
