"""Check bookkeeping: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time

from . import terms as tm
from .terms import T, mk
from . import equal as eqm
from .loader import AnalysisBroken, VERIF, REPO
from . import interp as I_
from .interp import (Interp, AbsRaise, Rec, Ref, PhiV, Closure, Bound, PyFn, Partial, TooBig, NONE_T)
from . import hooks as hooks_

sys.setrecursionlimit(40000)

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
  def __init__(self, pid, tier="quick"):
    self.pid, self.tier = pid, tier
    self.t0 = time.time()
    self.obligations = 0
    self.decided = 0
    self.undecided = []
    self.violations = []
    self.by_rule = {}
    self.rules = {}
    self.functions = set()
    self.seen = set()
    self.notes = {}
    self.samples = {}

  # --- obligations ------------------------------------------------------
  def rule(self, rid, text):
    self.rules[rid] = text
    self.by_rule.setdefault(rid, 0)

  def ok(self, rule, construct, n=1):
    self.obligations += n
    self.decided += n
    self.by_rule[rule] = self.by_rule.get(rule, 0) + n
    ex = self.samples.setdefault(rule, [])
    if len(ex) < 12 and construct not in ex:
      ex.append(construct)

  def unknown(self, rule, construct, why):
    self.obligations += 1
    self.undecided.append((rule, construct, str(why)[:300]))

  def bad(self, rule, construct, detail, where=None):
    self.obligations += 1
    self.decided += 1
    self.by_rule[rule] = self.by_rule.get(rule, 0) + 1
    key = f"{rule} {construct}"
    if key in self.seen:
      return
    self.seen.add(key)
    self.violations.append({"rule": rule, "construct": construct, "detail": str(detail)[:1500],
                            "where": where or ""})

  def expect(self, rule, construct, cond, detail="", where=None):
    if cond:
      self.ok(rule, construct)
    else:
      self.bad(rule, construct, detail, where)

  def same(self, rule, construct, got, want, facts=None, where=None, positive=False, prefix="", real=False):
    """Obligation: two abstract values are equal."""
    st, why = same_value(got, want, facts, positive, real=real)
    if st == "eq":
      self.ok(rule, construct)
    elif st == "undecided":
      self.unknown(rule, construct, why)
    else:
      self.bad(rule, construct, (prefix + " " if prefix else "") + why, where)
    return st

  def absorb(self, I):
    self.functions |= I.functions_seen

  # --- result -----------------------------------------------------------
  def finish(self, floor=0):
    known = load_known(self.pid)
    out = []
    rc = 0
    unlisted = []
    for v in self.violations:
      key = f"{v['rule']} {v['construct']}"
      if key in known["known"]:
        out.append(f"KNOWN-FINDING: property={self.pid} {key}: {known['known'][key]}")
      else:
        unlisted.append(v)
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    vp = os.path.join(ed, f"{self.pid}.violations.json")
    if unlisted:
      rc = 1
      with open(vp, "w") as f:
        json.dump(unlisted, f, indent=1)
      for v in unlisted:
        print(f"  rule {v['rule']}: {v['construct']} [{v['where']}]\n    {v['detail']}")
      print(f"VIOLATION property={self.pid} replay={vp}")
    elif os.path.exists(vp):
      os.remove(vp)
    for l in out:
      print(l)
    decided = self.decided
    ev = {
        "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": EXPLAIN,
            "obligations": self.obligations, "obligations_decided": decided,
            "obligations_undecided": len(self.undecided),
            "functions_analysed": len(self.functions),
            "rules": {r: {"rule": self.rules.get(r, ""), "instances": n, "examples": self.samples.get(r, [])}
                      for r, n in sorted(self.by_rule.items())},
            "undecided": [f"{a}: {b}: {c}" for a, b, c in self.undecided[:40]],
            "functions": sorted(self.functions)[:400],
            **self.notes,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - self.t0, 2),
        "violations": len(unlisted),
        "replay": vp if unlisted else "",
    }
    if not unlisted:
      ev.pop("replay")
    with open(os.path.join(ed, f"{self.pid}.json"), "w") as f:
      json.dump(ev, f, indent=1)
    print(f"{self.pid}: {decided}/{self.obligations} obligations decided, {len(self.undecided)} undecided, "
          f"{len(self.functions)} functions analysed, {len(unlisted)} violations, {len(out)} known findings, "
          f"{ev['wall_s']}s")
    if rc == 0 and decided < floor:
      print(f"ANALYSIS-BROKEN: only {decided} obligations could be decided, at least {floor} expected")
      return 2
    return rc


EXPLAIN = ("Static: the syntax trees of /repo/jaxopt are interpreted abstractly (value-flow terms, joins at "
           "conditionals, all documented option combinations); each obligation compares the derived terms, "
           "events or structures with the rule. No repository code is executed.")
ASSUMPTIONS = [
    "models of jax, numpy and Python built-ins in sa/models.py",
    "arithmetic is over the reals (no rounding); dtypes and casts are ignored",
    "user functions are pure",
    "inequality of terms is reported only when a random interpretation separates them and all operators are modelled",
]


def load_known(pid):
  res = {"known": {}, "fixed": []}
  if not os.path.exists(KNOWN):
    return res
  for line in open(KNOWN):
    line = line.rstrip("\n")
    if line.startswith("known: property=" + pid + " "):
      rest = line[len("known: property=" + pid + " "):]
      key, _, why = rest.partition(" :: ")
      res["known"][key] = why
  return res


# --- comparison of structured values -------------------------------------------
_CI = None


def lifter():
  global _CI
  if _CI is None:
    _CI = Interp()
  return _CI


def same_value(got, want, facts=None, positive=False, path="", real=False):
  """('eq'|'diff'|'undecided', explanation)."""
  got, want = _untuple(got), _untuple(want)
  if isinstance(want, T) and want.op == "tuple":
    want = tuple(want.args)
  if isinstance(got, T) and got.op == "tuple":
    got = tuple(got.args)
  if isinstance(want, (tuple, Rec)) and isinstance(got, (tuple, Rec)):
    a = list(got.vals.items()) if isinstance(got, Rec) else list(enumerate(got))
    b = list(want.vals.items()) if isinstance(want, Rec) else list(enumerate(want))
    if len(a) != len(b):
      return "diff", f"{path or 'result'} has {len(a)} components, expected {len(b)}"
    und = None
    for (k, x), (_, y) in zip(a, b):
      st, why = same_value(x, y, facts, positive, f"{path}.{k}", real)
      if st == "diff":
        return st, why
      if st == "undecided":
        und = why
    return ("undecided", und) if und else ("eq", "")
  if isinstance(want, (tuple, Rec)) != isinstance(got, (tuple, Rec)):
    if isinstance(got, T) and isinstance(want, tuple) and got is not NONE_T:
      w = lifter().lift(want) if not isinstance(want, Rec) else None
      if w is not None:
        want = w
      else:
        return "undecided", f"{path}: structure of {tm.show(got, 3)} unknown"
    else:
      return "diff", f"{path or 'result'}: got {describe(got)}, expected {describe(want)}"
  gn = got is None or got is NONE_T
  wn = want is None or want is NONE_T
  if gn or wn:
    if gn and wn:
      return "eq", ""
    return "diff", f"{path or 'result'}: got {describe(got)}, expected {describe(want)}"
  try:
    g = got if isinstance(got, T) else lift_any(got)
    w = want if isinstance(want, T) else lift_any(want)
  except KeyError:
    return "undecided", path
  st = eqm.equal(g, w, facts, positive=positive, real=real)
  if st == "eq":
    return "eq", ""
  a, b = eqm.first_difference(g, w)
  why = f"{path or 'result'}: got {tm.show(g, 6)[:600]} ; expected {tm.show(w, 6)[:600]}"
  if a is not g:
    why += f" ; differs at {tm.show(a, 5)[:200]} vs {tm.show(b, 5)[:200]}"
  return st, why


def _untuple(v):
  if isinstance(v, Ref) and v.kind == "list" and CUR is not None:
    return tuple(CUR.payload(v))
  if isinstance(v, Ref) and v.kind == "dict" and CUR is not None:
    p = CUR.payload(v)
    return tuple(p[k] for k in sorted(p, key=str))
  return v


def lift_any(v):
  return CUR.lift(v) if CUR is not None else lifter().lift(v)


CUR = None


def describe(v):
  if isinstance(v, T):
    return tm.show(v, 4)[:200]
  return repr(v)[:200]


def new_interp(**kw):
  global CUR
  I = Interp()
  hooks_.default_hooks(I)
  CUR = I
  return I


def sym(kind, name):
  return tm.sym(kind, name)


def arr(name, r=None):
  t = tm.sym("arr", name)
  if r is not None:
    I_ and None
    from . import models
    models.RANK[t] = r
  return t


def ranked(name, r):
  """Array symbol whose name encodes its rank."""
  from . import models
  t = tm.sym("arr", f"{name}:{r}d")
  models.RANK[t] = r
  return t


def opt(name):
  return tm.sym("opt", name)


def fnsym(name):
  return tm.sym("fn", name)


def try_call(I, f, args, kwargs=None):
  """(value, None) or (None, AbsRaise)."""
  try:
    return I.call(f, list(args), dict(kwargs or {})), None
  except AbsRaise as e:
    return None, e


def safe_call(c, rule, construct, I, f, args, kwargs=None, may_raise=False):
  """(value, None); a raise is a violation, an interpreter limit is undecided."""
  if f is None:
    c.unknown(rule, construct, "not found")
    return None, "missing"
  try:
    return I.call(f, list(args), dict(kwargs or {})), None
  except AbsRaise as e:
    if may_raise:
      return None, e
    if model_limit(e):
      c.unknown(rule, construct, e)
    else:
      c.bad(rule, construct, f"raises {e.exc} where a value is expected", e.where)
    return None, e
  except AnalysisBroken:
    raise
  except Exception as e:   # construct outside the interpreted subset
    c.unknown(rule, construct, f"not interpreted: {type(e).__name__} {e}")
    return None, e


def model_limit(e):
  """Raised by the interpreter for a construct it may simply not model."""
  x = str(getattr(e, "exc", ""))
  return x.startswith(("AttributeError", "NameError", "ImportError", "IndexError", "no return", "TypeError not subscriptable",
                       "TypeError len()", "TypeError cannot unpack"))


def where_of(f):
  if isinstance(f, Bound):
    f = f.fn
  if isinstance(f, Closure):
    return f"{f.qual}:{getattr(f.node, 'lineno', '')}"
  return None


def compare_fn(c, rule, name, repo_fn, spec_fn, I, args, kwargs=None, facts=None, construct=None,
               positive=False):
  """Obligation: repo function and reference function agree on these arguments."""
  construct = construct or name
  if repo_fn is None:
    return
  a, ea = safe_call(c, rule, construct, I, repo_fn, args, kwargs)
  if ea is not None:
    return
  b, eb = try_call(I, spec_fn, args, kwargs)
  if eb is not None:
    raise AnalysisBroken(f"reference for {name} fails: {eb}")
  c.same(rule, construct, a, b, facts, positive=positive)


def spec_fn(I, module, name):
  return I.fn("spec." + module, name)


def leaf_pairs(a, b):
  """Pairs of differing leaves of two terms with the same skeleton, else None."""
  out = set()
  seen = set()

  def go(x, y):
    if x is y or (not isinstance(x, (T, tuple)) and x == y):
      return True
    if isinstance(x, tuple) and isinstance(y, tuple):
      return len(x) == len(y) and all(go(p, q) for p, q in zip(x, y))
    if isinstance(x, T) and isinstance(y, T):
      if (x, y) in seen:
        return True
      seen.add((x, y))
      leaf = ("const", "sym", "app")
      if x.op in leaf and y.op in leaf and (x.op != y.op or x.op != "app"):
        out.add((x, y))
        return True
      return x.op == y.op and go(x.args, y.args)
    if not isinstance(x, T) and not isinstance(y, T):
      out.add((x, y))
      return True
    return False
  return sorted(out, key=repr) if go(a, b) else None


def parallel(c, jobs, width=7):
  """Runs job(check) for every job in its own process and adds up what they found."""
  import pickle
  import select
  import traceback
  todo, live = list(enumerate(jobs)), {}
  results = {}
  sys.stdout.flush()
  while todo or live:
    while todo and len(live) < width:
      n, job = todo.pop(0)
      r, w = os.pipe()
      pid = os.fork()
      if pid == 0:
        code = 1
        try:
          os.close(r)
          sub = Check(c.pid, c.tier)
          try:
            job(sub)
            err = None
          except AnalysisBroken as e:
            err = ("broken", str(e))
          except Exception:
            err = ("internal", traceback.format_exc())
          with os.fdopen(w, "wb") as f:
            pickle.dump((sub.obligations, sub.decided, sub.undecided, sub.by_rule, sub.samples, sub.violations,
                         sorted(sub.functions), sub.seen, err), f)
          code = 0
        finally:
          os._exit(code)
      os.close(w)
      live[r] = (n, pid, [])
    for r in select.select(list(live), [], [])[0]:
      data = os.read(r, 1 << 20)
      if data:
        live[r][2].append(data)
        continue
      n, pid, parts = live.pop(r)
      os.close(r)
      os.waitpid(pid, 0)
      results[n] = b"".join(parts)
  broken = None
  for n in sorted(results):
    if not results[n]:
      c.unknown("process", f"part {n}", "analysis process ended early")
      continue
    ob, dec, und, by, samples, viol, funs, seen, err = pickle.loads(results[n])
    c.obligations += ob
    c.decided += dec
    c.undecided += und
    for k, v in by.items():
      c.by_rule[k] = c.by_rule.get(k, 0) + v
    for k, v in samples.items():
      ex = c.samples.setdefault(k, [])
      ex += [x for x in v if x not in ex][:12 - len(ex)]
    for v in viol:
      key = f"{v['rule']} {v['construct']}"
      if key not in c.seen:
        c.seen.add(key)
        c.violations.append(v)
    c.functions |= set(funs)
    if err:
      broken = broken or err
  if broken:
    raise AnalysisBroken(broken[1])
