"""Abstract interpreter over the syntax tree (no repository code is executed).

Python-level structure (classes, closures, tuples, option strings, None) is
interpreted exactly; array-level values are value-flow terms (terms.py).
Undecided conditionals are not split into paths: both arms are interpreted and
the environments joined with conditional terms.
"""
import ast
import operator
from fractions import Fraction

from . import terms as tm
from .terms import T, mk
from .loader import Loader, AnalysisBroken


# ---------------------------------------------------------------- values ----
class Rec:
  """Instance of a NamedTuple class (immutable)."""
  __slots__ = ("cls", "vals")

  def __init__(self, cls, vals):
    self.cls = cls
    self.vals = vals

  def __repr__(self):
    return f"{self.cls.name}({', '.join(self.vals)})"


class Ref:
  """Heap reference: kind in obj/list/dict."""
  __slots__ = ("kind", "id", "cls", "label")

  def __init__(self, kind, id, cls=None, label=None):
    self.kind, self.id, self.cls, self.label = kind, id, cls, label

  def __repr__(self):
    return f"<{self.label or self.kind}#{self.id}>"


_SERIAL = [0]


def serial():
  """Creation stamp of frames and function values (effect analysis: older than the operation?)."""
  _SERIAL[0] += 1
  return _SERIAL[0]


class Closure:
  def __init__(self, node, frame, module, owner=None, name=None, defaults=None, kwdefaults=None):
    self.born = serial()
    self.node, self.frame, self.module, self.owner = node, frame, module, owner
    self.name = name or getattr(node, "name", "<lambda>")
    self.defaults = defaults or []
    self.kwdefaults = kwdefaults or {}
    self.attrs = {}

  @property
  def qual(self):
    o = self.owner.qual if self.owner is not None else self.module.name
    return o + "." + self.name

  def __repr__(self):
    return f"<fn {self.qual}>"


class Bound:
  def __init__(self, fn, selfv):
    self.fn, self.selfv = fn, selfv

  def __repr__(self):
    return f"<bound {self.fn}>"


def tuple_term(xs):
  """A tuple display; (a, *s) is (a,) + s."""
  if xs and xs[-1].op == "star" and not any(x.op == "star" for x in xs[:-1]):
    return mk("tupcat", mk("tuple", *xs[:-1]), xs[-1].args[0]) if len(xs) > 1 else xs[-1].args[0]
  return mk("tuple", *xs)


class PyFn:
  """Engine-level callable value."""

  def __init__(self, name, call, base=None, **attrs):
    self.born = serial()
    self.name, self.fcall, self.base, self.attrs = name, call, base, attrs

  def __repr__(self):
    return f"<pyfn {self.name}>"


class Partial:
  def __init__(self, fn, args, kwargs):
    self.born = serial()
    self.fn, self.args, self.kwargs = fn, args, kwargs
    self.attrs = {}


class Ext:
  """External (non-repository) name, or builtin ('builtins.x')."""
  __slots__ = ("name",)
  _c = {}

  def __new__(cls, name):
    e = cls._c.get(name)
    if e is None:
      e = object.__new__(cls)
      e.name = name
      cls._c[name] = e
    return e

  def __repr__(self):
    return f"<ext {self.name}>"


class ModuleV:
  def __init__(self, env):
    self.env = env


class PhiV:
  """Conditional choice between two non-term values (functions, objects)."""

  def __init__(self, c, a, b):
    self.c, self.a, self.b = c, a, b


class SuperV:
  def __init__(self, cls, selfv):
    self.cls, self.selfv = cls, selfv


class ImportRef:
  def __init__(self, module, name):
    self.module, self.name = module, name


class ClassInfo:
  def __init__(self, interp, node, module, frame):
    self.interp, self.node, self.module, self.frame = interp, node, module, frame
    self.name = node.name
    self.qual = module.name + "." + node.name
    self.attrs = {}
    self._bases = None
    self._mro = None
    self.decorators = [interp.dec_name(d, module) for d in node.decorator_list]

  @property
  def bases(self):
    if self._bases is None:
      out = []
      for b in self.node.bases:
        v = self.interp.eval(b, self.frame)
        out.append(v)
      self._bases = out
    return self._bases

  def mro(self):
    if self._mro is None:
      out = [self]
      for b in self.bases:
        if isinstance(b, ClassInfo):
          for c in b.mro():
            if c in out:
              out.remove(c)
            out.append(c)
      self._mro = out
    return self._mro

  def ext_bases(self):
    out = []
    for c in self.mro():
      out += [b.name for b in c.bases if isinstance(b, Ext)]
    return out

  def is_namedtuple(self):
    return any(n.endswith("NamedTuple") for n in self.ext_bases())

  def is_dataclass(self):
    return any(d and d.split(".")[-1] == "dataclass" for d in self.decorators)

  def own(self, name):
    return self.attrs.get(name)

  def lookup(self, name):
    for c in self.mro():
      if name in c.attrs:
        return c.attrs[name], c
    return None, None

  def subclass_of(self, other):
    return other in self.mro()

  def named(self, name):
    return any(c.name == name for c in self.mro())

  def fields(self):
    """Dataclass / NamedTuple fields in order: list of (name, default_node|None, cls)."""
    out = {}
    for c in reversed(self.mro()):
      if c.is_dataclass() or c.is_namedtuple():
        for s in c.node.body:
          if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            ann = ast.unparse(s.annotation)
            if "ClassVar" in ann:
              continue
            out[s.target.id] = (s.value, c)
    return [(n, v[0], v[1]) for n, v in out.items()]

  def __repr__(self):
    return f"<class {self.name}>"


class AbsRaise(Exception):
  def __init__(self, exc, where):
    self.exc, self.where = exc, where
    super().__init__(f"{exc} at {where}")


class Frame:
  __slots__ = ("vars", "parent", "module", "owner", "selfv", "fn", "dead", "assume_n", "globals_", "born")

  def __init__(self, module, parent=None, owner=None, selfv=None, fn=None):
    self.vars = {}
    self.born = serial()
    self.parent, self.module, self.owner, self.selfv, self.fn = parent, module, owner, selfv, fn
    self.dead = False
    self.assume_n = 0
    self.globals_ = set()


class ModuleEnv:
  def __init__(self, name, src, interp):
    self.name, self.src = name, src
    self.frame = Frame(self)
    self.loaded = False


class Event:
  __slots__ = ("kind", "data", "where", "guards", "stack", "lam")

  def __init__(self, kind, data, where, guards, stack, lam):
    self.kind, self.data, self.where, self.guards, self.stack, self.lam = kind, data, where, guards, stack, lam

  def __repr__(self):
    return f"{self.kind}@{self.where}: {self.data}"


class TooBig(Exception):
  pass


class _Undecided(Exception):
  """A loop that cannot be unrolled exactly."""


NONE_T = mk("none")

_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.Div: operator.truediv, ast.Pow: operator.pow, ast.Mod: operator.mod,
        ast.FloorDiv: operator.floordiv, ast.BitAnd: operator.and_,
        ast.BitOr: operator.or_, ast.BitXor: operator.xor,
        ast.MatMult: None, ast.LShift: operator.lshift, ast.RShift: operator.rshift}


def concrete(v):
  return v is None or isinstance(v, (bool, int, float, complex, str, bytes)) or v is Ellipsis


def isnum(v):
  return isinstance(v, (bool, int, float)) and not isinstance(v, complex)


class Interp:
  MAX_DEPTH = 70

  def __init__(self, loader=None):
    self.loader = loader or Loader()
    self.modules = {}
    self.heap = {}
    self.next_id = 1
    self.events = []
    self.stack = []         # (fn label, call site)
    self.path = []          # current path conditions (term, bool)
    self.lamdepth = 0
    self.plain_loops = False   # keep loops as written (when results are not compared)
    self.hooks = {}
    self.method_hooks = []  # list of (predicate(cls, name), hook)
    self.assumptions = {}
    self.steps = 0
    self.max_steps = 6_000_000
    self.cur = None
    self.functions_seen = set()
    self.frozen = False     # record stores as effects
    self.undecided_calls = 0
    self.unknown_ext = {}
    self.iter_count = {}
    self.in_grad = 0
    self.signatures = {}    # parameter names of user functions
    self.unroll_loops = 0   # bound for unrolling data-dependent loops (0: summarise)
    from . import models
    self.models = models.MODELS
    self.mm = models

  # ---------------------------------------------------------- utilities ----
  def where(self, node=None):
    node = node or self.cur
    if node is None:
      return "?"
    m = getattr(node, "_mod", None)
    fn = self.stack[-1][0] if self.stack else "<module>"
    return f"{m.rel if m else '?'}:{getattr(node, 'lineno', 0)} in {fn}"

  def event(self, kind, data, node=None):
    self.events.append(Event(kind, data, self.where(node),
                             tuple(self.path), tuple(s[0] for s in self.stack),
                             self.lamdepth))

  def new(self, kind, payload, cls=None, label=None):
    i = self.next_id
    self.next_id += 1
    self.heap[i] = payload
    return Ref(kind, i, cls, label)

  def newlist(self, xs):
    return self.new("list", list(xs))

  def newdict(self, d):
    return self.new("dict", dict(d))

  def payload(self, ref):
    return self.heap[ref.id]

  def snap_heap(self):
    return {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in self.heap.items()}

  # ---------------------------------------------------------- modules ------
  def module(self, name):
    if name in self.modules:
      return self.modules[name]
    src = self.loader.get(name)
    if src is None:
      return None
    env = ModuleEnv(name, src, self)
    self.modules[name] = env
    self.load(env)
    return env

  def load(self, env):
    fr = env.frame
    saved = (self.stack, self.path, self.cur, self.lamdepth, self.frozen)
    self.stack, self.path, self.lamdepth, self.frozen = [("<module " + env.name + ">", None, None)], [], 0, False
    try:
      for s in env.src.tree.body:
        try:
          if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef,
                            ast.Assign, ast.AnnAssign, ast.Expr, ast.AugAssign)):
            self.exec_stmt(s, fr)
          elif isinstance(s, (ast.If, ast.Try)):
            self.exec_stmt(s, fr)
        except AbsRaise:
          pass
    finally:
      self.stack, self.path, self.cur, self.lamdepth, self.frozen = saved
    env.loaded = True

  def resolve_import(self, ref):
    full = ref.module
    env = self.module(full)
    if env is None:
      if self.loader.path(full + "." + (ref.name or "")):
        return ModuleV(self.module(full + "." + ref.name))
      return self.ext(full + ("." + ref.name if ref.name else ""))
    if ref.name is None:
      return ModuleV(env)
    if ref.name in env.frame.vars:
      v = env.frame.vars[ref.name]
      if not isinstance(v, ImportRef):
        return v
      if (v.module, v.name) != (full, ref.name):
        return self.resolve_import(v)
    if self.loader.path(full + "." + ref.name):
      return ModuleV(self.module(full + "." + ref.name))
    raise AbsRaise("ImportError " + full + "." + ref.name, self.where())

  CANON = {
      "jax.tree.map": "jax.tree_util.tree_map",
      "jax.tree_map": "jax.tree_util.tree_map",
      "jax.tree.leaves": "jax.tree_util.tree_leaves",
      "jax.tree.reduce": "jax.tree_util.tree_reduce",
      "jax.tree.flatten": "jax.tree_util.tree_flatten",
      "jax.tree.unflatten": "jax.tree_util.tree_unflatten",
      "jax.tree.structure": "jax.tree_util.tree_structure",
      "jax.numpy.absolute": "jax.numpy.abs",
      "jax.numpy.conjugate": "jax.numpy.conj",
  }

  def ext(self, name):
    return Ext(self.CANON.get(name, name))

  def dec_name(self, d, module):
    """Dotted name of a decorator expression."""
    if isinstance(d, ast.Call):
      d = d.func
    try:
      v = self.eval(d, module.frame)
    except Exception:
      return ast.unparse(d)
    if isinstance(v, Ext):
      return v.name
    return ast.unparse(d)

  # ---------------------------------------------------------- lifting ------
  def lift(self, v):
    if isinstance(v, T):
      return v
    if v is None:
      return NONE_T
    if isinstance(v, (bool, int, float, complex)):
      return tm.num(v)
    if isinstance(v, str):
      return mk("str", v)
    if v is Ellipsis:
      return mk("str", "...")
    if isinstance(v, tuple):
      return tuple_term([self.lift(x) for x in v])
    if isinstance(v, Rec):
      return mk("rec", v.cls.name, *[self.lift(x) for x in v.vals.values()])
    if isinstance(v, Ref):
      p = self.heap.get(v.id)
      if v.kind == "list":
        return mk("tuple", *[self.lift(x) for x in p])
      if v.kind == "dict":
        return mk("dict", *[mk("kv", str(k), self.lift(x)) for k, x in p.items()])
      return mk("obj", v.cls.name if v.cls else "?", str(v.label))
    if isinstance(v, Ext):
      return mk("ext", v.name)
    if isinstance(v, PhiV):
      return tm.ite(v.c, self.lift(v.a), self.lift(v.b))
    if isinstance(v, (Closure, PyFn, Partial)):
      return self.lift_fn(v)
    if isinstance(v, Bound):
      if isinstance(v.fn, Closure) and not v.fn.node.args.vararg and not v.fn.node.args.kwarg and self.lamdepth < 6:
        n = len(v.fn.node.args.args) - 1 - len(v.fn.defaults)
        ev = len(self.events)
        try:
          return mk("lam", n, self.lam(n, lambda bvs: self.call(v, list(bvs), {})))
        except (AbsRaise, RecursionError):
          pass
      return mk("meth", self.lift(v.selfv), getattr(v.fn, "name", "?"))
    if isinstance(v, ClassInfo):
      return mk("cls", v.name)
    if isinstance(v, slice):
      return mk("slice", self.lift(v.start), self.lift(v.stop), self.lift(v.step))
    if isinstance(v, ModuleV):
      return mk("str", v.env.name)
    return mk("opaque", repr(type(v).__name__))

  def lift_fn2(self, v):
    return v if isinstance(v, T) else self.lift(v)

  def lift_fn(self, v):
    if isinstance(v, PyFn) and "term" in v.attrs:
      return v.attrs["term"]
    node = v.node if isinstance(v, Closure) else None
    if node is not None and not node.args.vararg and not node.args.kwarg and self.lamdepth < 6:
      n = len(node.args.args) - len(v.defaults)
      try:
        body = self.lam(n, lambda bvs: self.call(v, list(bvs), {}))
        return mk("lam", n, body)
      except (AbsRaise, RecursionError):
        pass
    if isinstance(v, Partial):
      return mk("partial", self.lift(v.fn), *[self.lift(a) for a in v.args],
                *[mk("kv", k, self.lift(a)) for k, a in sorted(v.kwargs.items())])
    return mk("fun", v.name if not isinstance(v, Closure) else v.qual)

  def lam(self, n, f, vals=None, ranks=None):
    """Term of f applied to n fresh bound variables (of known rank where given)."""
    self.lamdepth += 1
    rs = list(ranks or ()) + [None] * n
    bvs = [mk("bv", self.lamdepth, i) if rs[i] is None else mk("bv", self.lamdepth, i, rs[i]) for i in range(n)]
    try:
      return self.lift(f(bvs))
    finally:
      self.lamdepth -= 1

  def traced_struct(self, v, seen=None):
    """Does a value contain a term?"""
    if isinstance(v, T):
      return True
    if isinstance(v, tuple):
      return any(self.traced_struct(x) for x in v)
    if isinstance(v, Rec):
      return any(self.traced_struct(x) for x in v.vals.values())
    if isinstance(v, Ref) and v.kind in ("list", "dict"):
      p = self.payload(v)
      return any(self.traced_struct(x) for x in (p if v.kind == "list" else p.values()))
    return False

  def same(self, a, b):
    if a is b:
      return True
    if isinstance(a, T) or isinstance(b, T):
      return isinstance(a, T) and isinstance(b, T) and a is b
    if type(a) is not type(b):
      return False
    if isinstance(a, tuple):
      return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
    if isinstance(a, Rec):
      return a.cls is b.cls and all(self.same(a.vals[k], b.vals[k]) for k in a.vals)
    if isinstance(a, Ref):
      return a.id == b.id
    if isinstance(a, Closure):
      return a.node is b.node and a.frame is b.frame
    if isinstance(a, Bound):
      return self.same(a.fn, b.fn) and self.same(a.selfv, b.selfv)
    if concrete(a):
      return a == b
    return False

  def merge(self, c, a, b):
    """Value that is a when c else b."""
    if c is tm.TRUE:
      return a
    if c is tm.FALSE:
      return b
    if self.same(a, b):
      return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
      return tuple(self.merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls:
      return Rec(a.cls, {k: self.merge(c, a.vals[k], b.vals[k]) for k in a.vals})
    if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.kind in ("list", "dict"):
      pa, pb = self.payload(a), self.payload(b)
      if a.kind == "list" and len(pa) == len(pb):
        return self.newlist([self.merge(c, x, y) for x, y in zip(pa, pb)])
      if a.kind == "dict" and set(pa) == set(pb):
        return self.newdict({k: self.merge(c, pa[k], pb[k]) for k in pa})
    for x, y in ((a, b), (b, a)):
      if isinstance(x, (Rec, tuple)) and isinstance(y, T):
        # unknown term on one side: project
        if isinstance(x, tuple):
          y2 = tuple(tm.item(y, tm.num(i)) for i in range(len(x)))
        else:
          y2 = Rec(x.cls, {k: mk("field", y, k) for k in x.vals})
        return self.merge(c, a if x is a else y2, b if x is b else y2)
    fun = (Closure, Bound, PyFn, Partial, Ext, ClassInfo, PhiV)
    if isinstance(a, fun) or isinstance(b, fun) or (isinstance(a, Ref) and a.kind == "obj") or (isinstance(b, Ref) and b.kind == "obj"):
      return PhiV(c, a, b)
    if isinstance(a, (str, slice)) or isinstance(b, (str, slice)):
      return PhiV(c, a, b)
    return tm.ite(c, self.lift(a), self.lift(b))

  # ---------------------------------------------------------- truth --------
  def cond_term(self, v):
    """Truth term of a value used as a condition."""
    if isinstance(v, T):
      if v.op in ("tuple", "dict"):
        return tm.boolt(len(v.args) > 0)
      if v is NONE_T:
        return tm.FALSE
      if v.op == "str":
        return tm.boolt(bool(v.args[0]))
      c = tm.const_of(v)
      if c is not None:
        return tm.boolt(c != 0)
      if v.op == "ite" and not tm.is_boolish(v):
        return tm.ite(v.args[0], self.cond_term(v.args[1]), self.cond_term(v.args[2]))
      if tm.is_boolish(v):
        return v
      if v.op == "sym" and v.args[0] == "fn":
        return tm.TRUE
      if v.op in ("rec", "obj", "lam", "fun", "meth", "tdrec", "tdtuple", "tdlist", "tddict", "tdof", "tdleaf"):
        return tm.TRUE
      return mk("truthy", v) if not is_bool_value(v) else v
    if isinstance(v, PhiV):
      return tm.ite(v.c, self.cond_term(v.a), self.cond_term(v.b))
    if v is None or concrete(v):
      return tm.boolt(bool(v))
    if isinstance(v, tuple):
      return tm.boolt(len(v) > 0)
    if isinstance(v, Ref) and v.kind in ("list", "dict"):
      return tm.boolt(len(self.payload(v)) > 0)
    return tm.TRUE

  def decide(self, c):
    """Apply known facts; returns TRUE/FALSE/term."""
    if c is tm.TRUE or c is tm.FALSE:
      return c
    facts = dict(self.assumptions)
    for t, b in self.path:
      tm._facts(t, b, facts)
    if c in facts:
      return tm.boolt(facts[c])
    if c.op == "truthy" and c.args[0] in facts:
      return tm.boolt(facts[c.args[0]])
    r = tm.subst_bool(c, facts)
    return r

  # ---------------------------------------------------------- statements ---
  def exec_block(self, stmts, fr):
    exits = []
    for s in stmts:
      try:
        exits += self.exec_stmt(s, fr)
      except AbsRaise as e:
        if not exits:
          raise
        # earlier conditional exits remain possible; this path ends here
        self.event("raise", e.exc, s)
        fr.dead = True
        break
      if fr.dead:
        break
    return exits

  def exec_stmt(self, s, fr):
    self.steps += 1
    if self.steps > self.max_steps:
      raise TooBig("analysis step budget exceeded")
    self.cur = s
    m = getattr(self, "st_" + type(s).__name__, None)
    if m is None:
      raise AnalysisBroken(f"unsupported statement {type(s).__name__} at {self.where(s)}")
    return m(s, fr) or []

  def st_Expr(self, s, fr):
    if isinstance(s.value, ast.Constant):
      return
    self.eval(s.value, fr)

  def st_Pass(self, s, fr):
    return

  def st_Global(self, s, fr):
    fr.globals_.update(s.names)

  st_Nonlocal = st_Global

  def st_Import(self, s, fr):
    for a in s.names:
      if a.asname:
        self.bind(fr, a.asname, self.import_value(a.name, None))
      else:
        top = a.name.split(".")[0]
        self.bind(fr, top, self.import_value(top, None))

  def import_value(self, module, name):
    if self.loader.path(module):
      return ImportRef(module, name)
    return self.ext(module + ("." + name if name else ""))

  def st_ImportFrom(self, s, fr):
    mod = s.module or ""
    if s.level:
      base = fr.module.name.split(".")
      if not self.loader.is_package(fr.module.name):
        base = base[:-1]
      base = base[:len(base) - (s.level - 1)]
      mod = ".".join(base + ([mod] if mod else []))
    for a in s.names:
      self.bind(fr, a.asname or a.name, self.import_value(mod, a.name))

  def bind(self, fr, name, v):
    if name in fr.globals_:
      f = fr.parent
      while f is not None:
        if name in f.vars or f.parent is None:
          break
        f = f.parent
      (f or fr.module.frame).vars[name] = v
      if (f is None or f.parent is None):
        self.event("globalstore", name)
      else:
        self.event("nonlocalstore", (name, f))
      return
    fr.vars[name] = v

  def st_FunctionDef(self, s, fr):
    v = self.make_closure(s, fr)
    self.bind(fr, s.name, self.decorate(v, s, fr))

  def make_closure(self, s, fr, owner=None):
    defaults = [self.eval(d, fr) for d in s.args.defaults]
    kwd = {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
    return Closure(s, fr if fr is not fr.module.frame else fr, fr.module, owner, None, defaults, kwd)

  def decorate(self, v, s, fr):
    for d in reversed(s.decorator_list):
      try:
        dv = self.eval(d, fr)
      except AbsRaise:
        continue
      if isinstance(dv, Ext) and dv.name.split(".")[-1] in ("abstractmethod",):
        continue
      if isinstance(dv, Ext) and dv.name in ("builtins.staticmethod", "builtins.classmethod", "builtins.property"):
        v = PyFn(dv.name.split(".")[-1], None, base=v)
        continue
      if isinstance(dv, Ext) and dv.name.endswith("register_pytree_node_class"):
        continue
      v = self.call(dv, [v], {})
    return v

  def st_ClassDef(self, s, fr):
    ci = ClassInfo(self, s, fr.module, fr)
    self.bind(fr, s.name, ci)
    cfr = Frame(fr.module, fr)
    for b in s.body:
      if isinstance(b, ast.FunctionDef):
        v = self.make_closure(b, fr if fr.parent else fr, ci)
        v.frame = fr
        cfr.vars[b.name] = v
        ci.attrs[b.name] = self.decorate(v, b, fr)
      elif isinstance(b, ast.Assign):
        val = self.eval(b.value, cfr)
        for t in b.targets:
          if isinstance(t, ast.Name):
            ci.attrs[t.id] = val
            cfr.vars[t.id] = val
      elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
        val = self.eval(b.value, cfr)
        ci.attrs[b.target.id] = val
        cfr.vars[b.target.id] = val

  def st_Return(self, s, fr):
    v = self.eval(s.value, fr) if s.value is not None else None
    fr.dead = True
    return [("return", v, tm.TRUE, None, s)]

  def st_Raise(self, s, fr):
    name, msg = "Exception", ""
    if s.exc is not None:
      e = s.exc
      if isinstance(e, ast.Call):
        name = ast.unparse(e.func)
      else:
        name = ast.unparse(e)
    raise AbsRaise(name, self.where(s))

  def st_Assert(self, s, fr):
    c = self.branch(self.eval(s.test, fr), s)
    if c is tm.FALSE:
      raise AbsRaise("AssertionError", self.where(s))

  def st_Delete(self, s, fr):
    for t in s.targets:
      if isinstance(t, ast.Name):
        fr.vars.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, fr)
        self.effect_store(o, "del item")

  def st_Assign(self, s, fr):
    v = self.eval(s.value, fr)
    for t in s.targets:
      self.assign(t, v, fr)

  def st_AnnAssign(self, s, fr):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, fr), fr)

  def st_AugAssign(self, s, fr):
    tgt = s.target
    load = ast.copy_location(_as_load(tgt), tgt)
    load._mod = getattr(s, "_mod", None)
    cur = self.eval(load, fr)
    rhs = self.eval(s.value, fr)
    if isinstance(cur, Ref) and cur.kind == "list" and isinstance(s.op, ast.Add):
      self.effect_store(cur, "list +=")
      self.heap[cur.id] = list(self.payload(cur)) + list(self.iterate(rhs) or [])
      return
    if isinstance(cur, T) and cur.op in ("sym", "st") and isinstance(tgt, ast.Name):
      self.event("augassign", (cur, type(s.op).__name__))
    v = self.binop(s.op, cur, rhs)
    self.assign(tgt, v, fr)

  def effect_store(self, o, what):
    if isinstance(o, Ref):
      self.event("store", (o, what))
    elif isinstance(o, T):
      self.event("store", (o, what))
    elif isinstance(o, (ModuleV, ClassInfo)):
      self.event("store", (o, what))

  def assign(self, t, v, fr):
    if isinstance(t, ast.Name):
      self.bind(fr, t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      self.unpack(t.elts, v, fr)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, fr)
      self.setattr(o, t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, fr)
      k = self.eval(t.slice, fr)
      self.setitem(o, k, v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, fr)
    else:
      raise AnalysisBroken("assign target " + type(t).__name__)

  def setattr(self, o, name, v):
    if isinstance(o, Ref) and o.kind == "obj":
      self.event("store", (o, name))
      if o.id not in self.heap:
        return
      self.heap[o.id][name] = v
    elif isinstance(o, (Closure, PyFn, Partial)):
      o.attrs[name] = v
      self.event("store", (o, name))
    elif isinstance(o, PhiV):
      self.setattr(o.a, name, v)
      self.setattr(o.b, name, v)
    else:
      self.event("store", (o, name))

  def setitem(self, o, k, v):
    self.effect_store(o, "item")
    if isinstance(o, Ref):
      p = self.heap[o.id]
      if o.kind == "list" and isinstance(k, int):
        if -len(p) <= k < len(p):
          p[k] = v
      elif o.kind == "dict" and (isinstance(k, (str, int))):
        p[k] = v

  def unpack(self, elts, v, fr):
    star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
    xs = self.unpack_values(v, None if star is not None else len(elts))
    if star is not None:
      if xs is None:
        for i, e in enumerate(elts):
          self.assign(e, tm.item(self.lift(v), mk("str", f"*{i}")), fr)
        return
      n_after = len(elts) - star - 1
      for e, x in zip(elts[:star], xs[:star]):
        self.assign(e, x, fr)
      self.assign(elts[star].value, self.newlist(xs[star:len(xs) - n_after]), fr)
      for e, x in zip(elts[star + 1:], xs[len(xs) - n_after:]):
        self.assign(e, x, fr)
      return
    if len(xs) != len(elts):
      raise AbsRaise("ValueError unpack %d into %d" % (len(xs), len(elts)), self.where())
    for e, x in zip(elts, xs):
      self.assign(e, x, fr)

  def unpack_values(self, v, n):
    xs = self.iterate(v)
    if xs is not None:
      return xs
    if v is None or isinstance(v, (bool, int, float)):
      raise AbsRaise("TypeError cannot unpack " + repr(v), self.where())
    if n is None:
      return None
    if isinstance(v, PhiV):
      a = self.unpack_values(v.a, n)
      b = self.unpack_values(v.b, n)
      return [self.merge(v.c, x, y) for x, y in zip(a, b)]
    t = self.lift(v)
    return [self.project(t, i) for i in range(n)]

  def project(self, t, i):
    from . import models
    return models.entry(t, tm.num(i))

  def iterate(self, v):
    """List of elements if statically known, else None."""
    if isinstance(v, tuple):
      return list(v)
    if isinstance(v, Rec):
      return list(v.vals.values())
    if isinstance(v, Ref):
      p = self.payload(v)
      if v.kind == "list":
        return list(p) if isinstance(p, list) else None
      if v.kind == "dict":
        return list(p)
      if v.kind == "iter":
        self.heap[v.id] = []
        return list(p)
    if isinstance(v, range):
      return list(v)
    if isinstance(v, str):
      return list(v)
    if isinstance(v, T) and v.op == "tuple":
      return list(v.args)
    return None

  def branch(self, v, node):
    c = self.decide(self.cond_term(v))
    if c is not tm.TRUE and c is not tm.FALSE:
      self.event("pybranch", c, node)
    return c

  def save(self, fr):
    return (dict(fr.vars), self.snap_heap(), dict(self.frames_snapshot(fr)))

  def frames_snapshot(self, fr):
    return {}

  def restore(self, fr, st):
    fr.vars = dict(st[0])
    self.heap = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in st[1].items()}

  def merge_heaps(self, c, h1, h2):
    out = {}
    self.heap = out
    base = {}
    base.update(h1)
    for k, v in h2.items():
      base.setdefault(k, v)
    self.heap = base
    for k in list(set(h1) & set(h2)):
      a, b = h1[k], h2[k]
      if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() == b.keys() and all(a[x] is b[x] for x in a):
          continue
        d = {}
        for x in list(a) + [y for y in b if y not in a]:
          if x in a and x in b:
            d[x] = self.merge(c, a[x], b[x])
          else:
            d[x] = a.get(x, b.get(x))
        self.heap[k] = d
      elif isinstance(a, list) and isinstance(b, list):
        if len(a) == len(b):
          self.heap[k] = [self.merge(c, x, y) for x, y in zip(a, b)]
        else:
          self.heap[k] = a if len(a) > len(b) else b

  def st_If(self, s, fr):
    v = self.eval(s.test, fr)
    return self.run_if(v, s, lambda: self.exec_block(s.body, fr),
                       lambda: self.exec_block(s.orelse, fr), fr)

  def run_if(self, v, node, f1, f2, fr):
    c = self.branch(v, node)
    if c is tm.TRUE:
      return f1()
    if c is tm.FALSE:
      return f2()
    st0 = self.save(fr)
    ex1, d1, st1, r1 = self.arm(f1, c, True, fr)
    self.restore(fr, st0)
    ex2, d2, st2, r2 = self.arm(f2, c, False, fr)
    exits = []
    if r1 is not None and r2 is not None:
      raise r1
    for kind, val, g, hp, n in ex1:
      exits.append((kind, val, tm.and_(c, g), hp or st1[1], n))
    for kind, val, g, hp, n in ex2:
      exits.append((kind, val, tm.and_(tm.not_(c), g), hp or st2[1], n))
    dead1, dead2 = d1 or r1 is not None, d2 or r2 is not None
    if dead1 and dead2:
      fr.dead = True
      return exits
    if dead1:
      fr.vars, self.heap = st2[0], st2[1]
      fr.dead = False
      self.path.append((c, False))
      fr.assume_n += 1
      return exits
    if dead2:
      fr.vars, self.heap = st1[0], st1[1]
      fr.dead = False
      self.path.append((c, True))
      fr.assume_n += 1
      return exits
    self.merge_heaps(c, st1[1], st2[1])
    v1, v2 = st1[0], st2[0]
    merged = {}
    for k in list(v1) + [k for k in v2 if k not in v1]:
      if k in v1 and k in v2:
        merged[k] = v1[k] if v1[k] is v2[k] else self.merge(c, v1[k], v2[k])
      else:
        merged[k] = v1.get(k, v2.get(k))
    fr.vars = merged
    fr.dead = False
    return exits

  def arm(self, f, c, val, fr):
    n = len(self.path)
    an = fr.assume_n
    self.path.append((c, val))
    raised = None
    ex = []
    fr.dead = False
    try:
      ex = f() or []
    except AbsRaise as e:
      raised = e
      self.event("raise", e.exc)
    del self.path[n:]
    fr.assume_n = an
    d = fr.dead
    fr.dead = False
    return ex, d, (fr.vars, self.heap), raised

  def st_With(self, s, fr):
    for it in s.items:
      v = self.eval(it.context_expr, fr)
      self.event("with", self.lift(v), s)
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, fr)
    return self.exec_block(s.body, fr)

  def st_Try(self, s, fr):
    st0 = self.save(fr)
    try:
      n = len(self.events)
      ex = self.exec_block(s.body, fr)
      may = self.may_raise(s)
      if all("StopIteration" in ast.unparse(h.type) for h in s.handlers if h.type) and self.exact_next(n):
        may = False
      if not may or fr.dead:
        if not fr.dead:
          ex += self.exec_block(s.orelse + s.finalbody, fr)
        return ex
      st1 = (fr.vars, self.heap)
      self.restore(fr, st0)
      c = mk("raised", ast.unparse(s.body[0])[:80])
      raised = None
      try:
        ex2 = []
        if s.handlers:
          ex2 = self.exec_block(s.handlers[0].body, fr)
      except AbsRaise as e:
        raised = e
      if raised is not None or fr.dead:
        dead = fr.dead
        fr.dead = False
        fr.vars, self.heap = st1
        if raised is None:
          ex = [(k, v, tm.and_(c, g), h or self.heap, nn) for k, v, g, h, nn in ex2] + ex
        return ex
      st2 = (fr.vars, self.heap)
      self.merge_heaps(c, st2[1], st1[1])
      fr.vars = {k: (self.merge(c, st2[0][k], st1[0][k]) if k in st1[0] and k in st2[0]
                     else st1[0].get(k, st2[0].get(k)))
                 for k in set(st1[0]) | set(st2[0])}
      return ex + ex2
    except AbsRaise as e:
      self.restore(fr, st0)
      for h in s.handlers:
        return self.exec_block(h.body + s.finalbody, fr)
      raise

  def exact_next(self, n):
    """Only decided next() calls happened since event n."""
    ks = [e.kind for e in self.events[n:]]
    return "exactnext" in ks

  def may_raise(self, s):
    return any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) for b in s.body for n in ast.walk(b))

  def st_Break(self, s, fr):
    fr.dead = True
    return [("break", dict(fr.vars), tm.TRUE, self.snap_heap(), s)]

  def st_Continue(self, s, fr):
    fr.dead = True
    return [("continue", dict(fr.vars), tm.TRUE, self.snap_heap(), s)]

  def st_For(self, s, fr):
    it = self.eval(s.iter, fr)
    xs = self.iterate(it)
    if xs is not None and len(xs) <= 64:
      return self.unrolled_for(s, xs, fr)
    return self.symbolic_loop(s, fr, it)

  def unrolled_for(self, s, xs, fr):
    def steps():
      for x in xs:
        yield lambda x=x: self.assign(s.target, x, fr)
    return self.exact_loop(s, steps(), fr)

  def exact_loop(self, s, steps, fr):
    """Unrolled loop; conditional break and continue are joined exactly.

    `steps` yields a thunk run before each iteration; it may return a loop test.
    """
    exits, breaks = [], []
    notbrk = tm.TRUE
    path0 = len(self.path)
    fr.dead = False
    broke = False
    for pre in steps:
      c = pre()
      if c is tm.FALSE:
        break
      if c is not None and c is not tm.TRUE:
        g = tm.not_(c)
        breaks.append((g, dict(fr.vars), self.snap_heap()))
        notbrk = tm.and_(notbrk, c)
        self.path.append((c, True))
      n = len(self.path)
      ex = self.exec_block(s.body, fr)
      if not any(e[0] in ("break", "continue") for e in ex):
        exits += [(k, v, tm.and_(notbrk, g), h, nn) for k, v, g, h, nn in ex]
        if fr.dead:
          broke = True
          break
        continue
      state = None if fr.dead else (fr.vars, self.heap)
      conts = []
      earlier = tm.TRUE
      for k, v, g, h, nn in ex:
        ge = tm.and_(earlier, g)
        earlier = tm.and_(earlier, tm.not_(g))
        if k == "return":
          exits.append((k, v, tm.and_(notbrk, ge), h, nn))
        elif k == "break":
          breaks.append((ge, v, h if h is not None else self.snap_heap()))
        else:
          conts.append((ge, v, h if h is not None else self.snap_heap()))
      bg = tm.FALSE
      for k, v, g, h, nn in ex:
        if k == "break":
          bg = tm.or_(bg, g)
      notbrk = tm.and_(notbrk, tm.not_(bg))
      fr.dead = False
      for g, v, h in reversed(conts):
        if state is None:
          state = (dict(v), h)
        else:
          self.merge_heaps(g, h, state[1])
          state = (self.merge_vars(g, v, state[0]), self.heap)
      if state is None:
        broke = True
        break
      fr.vars, self.heap = state
      if conts:
        del self.path[n:]
        if bg is not tm.FALSE:
          self.path.append((bg, False))
    state = None
    if not broke:
      if s.orelse:
        ex = self.exec_block(s.orelse, fr)
        exits += [(k, v, tm.and_(notbrk, g), h, nn) for k, v, g, h, nn in ex]
      if not fr.dead:
        state = (fr.vars, self.heap)
    fr.dead = False
    if breaks:
      del self.path[path0:]
    for g, v, h in reversed(breaks):
      if state is None:
        state = (dict(v), h)
      else:
        self.merge_heaps(g, h, state[1])
        state = (self.merge_vars(g, v, state[0]), self.heap)
    if state is None:
      fr.dead = True
    else:
      fr.vars, self.heap = state
    return exits

  def merge_vars(self, c, v1, v2):
    out = {}
    for k in list(v1) + [k for k in v2 if k not in v1]:
      if k in v1 and k in v2:
        out[k] = v1[k] if v1[k] is v2[k] else self.merge(c, v1[k], v2[k])
      else:
        out[k] = v1.get(k, v2.get(k))
    return out

  def st_While(self, s, fr):
    # exact unrolling when the test is decided (or bounded, in unrolling mode)
    done = [False]

    def steps(limit):
      for _ in range(limit):
        def pre():
          c = self.decide(self.cond_term(self.eval(s.test, fr)))
          if c is tm.FALSE:
            done[0] = True
          elif c is not tm.TRUE:
            self.event("pybranch", c, s)
            if not self.unroll_loops:
              raise _Undecided()
          return c
        yield pre
        if done[0]:
          return
      if self.unroll_loops or limit:
        raise _Undecided()
    st = self.save(fr)
    n, np_ = len(self.events), len(self.path)
    try:
      return self.exact_loop(s, steps(33 if not self.unroll_loops else self.unroll_loops), fr)
    except _Undecided:
      br = [e for e in self.events[n:] if e.kind == "pybranch"][:1]
      del self.events[n:]
      del self.path[np_:]
      self.events += br
      self.restore(fr, st)
      fr.dead = False
      return self.symbolic_loop(s, fr, None)

  def symbolic_loop(self, s, fr, it):
    names = sorted({n.id for b in s.body for n in ast.walk(b)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    self.lamdepth += 1
    lvl = self.lamdepth
    pre = {n: fr.vars[n] for n in names if n in fr.vars}
    itt = self.lift(it) if it is not None else NONE_T
    if isinstance(it, T) and isinstance(s, ast.For) and tm.is_sym(it) is False:
      pass
    self.event("pyloop", itt, s)
    for n in pre:
      fr.vars[n] = self.generalize(pre[n], ("loopvar", lvl, n))
    gen = {n: fr.vars[n] for n in pre}
    if isinstance(s, ast.For):
      el = mk("elem", itt, lvl)
      if isinstance(it, T) and it.op == "leaves" and len(gens) == 1 and not g.ifs:
        # one item per (sub)tree: the body describes the leaves of each
        out = []
        for x in it.args:
          self.assign(g.target, x, f2)
          out.append(self.lift(elt(f2)))
        if all(x.op not in ("tuple", "bool") for x in out):
          self.lamdepth -= 1
          return None, mk("leaves", *out)
      if isinstance(it, T) and it.op == "zip":
        el = tuple(mk("elem", x, lvl) for x in it.args)
      if isinstance(it, T) and it.op == "enumerate":
        el = (mk("idx", lvl), mk("elem", it.args[0], lvl))
      self.assign(s.target, el, fr)
      cond = NONE_T
    else:
      cond = self.lift(self.eval(s.test, fr))
    hp = self.snap_heap()
    ex = self.exec_block(s.body, fr)
    fr.dead = False
    post = {n: fr.vars.get(n) for n in names}
    self.lamdepth -= 1
    body = mk("tuple", *[self.lift(post[n]) for n in names])
    for n in names:
      if n in pre and self.same(post[n], gen[n]):
        fr.vars[n] = pre[n]
      elif n in pre:
        fr.vars[n] = self.generalize_like(pre[n], post[n], lambda i, b, p: mk(
            "pyloop", self.lift(i), self.lift(b), itt, cond), ())
      else:
        fr.vars[n] = mk("lastof", self.lift(post[n]), itt)
    # heap lists grown in the loop become symbolic sequences
    for k, v in list(self.heap.items()):
      o = hp.get(k)
      if isinstance(v, list) and isinstance(o, list) and len(v) != len(o):
        self.heap[k] = v
    return [(k, mk("loopret", self.lift(v), itt), mk("looped", g, itt), h, n)
            for k, v, g, h, n in ex if k == "return"]

  def generalize(self, v, path):
    """Replace every leaf of a structured value by an unknown of that path."""
    def leaf(p):
      return mk(path[0], *path[1:], p)
    return self._gen(v, leaf, "")

  def _gen(self, v, leaf, p):
    if v is None or isinstance(v, (Closure, Bound, PyFn, Partial, Ext, ClassInfo, ModuleV, PhiV, str)):
      return v
    if isinstance(v, tuple):
      return tuple(self._gen(x, leaf, f"{p}.{i}") for i, x in enumerate(v))
    if isinstance(v, Rec):
      return Rec(v.cls, {k: self._gen(x, leaf, f"{p}.{k}") for k, x in v.vals.items()})
    if isinstance(v, Ref):
      if v.kind == "list":
        return self.newlist([self._gen(x, leaf, f"{p}.{i}") for i, x in enumerate(self.payload(v))])
      if v.kind == "dict":
        return self.newdict({k: self._gen(x, leaf, f"{p}.{k}") for k, x in self.payload(v).items()})
      return v
    if isinstance(v, T) and v is NONE_T:
      return v
    if isinstance(v, T) and v.op == "tuple":
      return tuple(self._gen(x, leaf, f"{p}.{i}") for i, x in enumerate(v.args))
    return leaf(p)

  def generalize_like(self, init, body, f, path):
    """Zip two structured values; f(init_leaf, body_leaf, path) at leaves."""
    if isinstance(init, T) and init.op == "tuple":
      init = tuple(init.args)
    if isinstance(init, tuple):
      b = self.unpack_values(body, len(init))
      if b is not None and len(b) == len(init):
        return tuple(self.generalize_like(x, y, f, path + (i,)) for i, (x, y) in enumerate(zip(init, b)))
    if isinstance(init, Rec):
      if isinstance(body, Rec) and body.cls is init.cls:
        return Rec(init.cls, {k: self.generalize_like(init.vals[k], body.vals[k], f, path + (k,)) for k in init.vals})
      b = self.unpack_values(body, len(init.vals))
      if b is not None and len(b) == len(init.vals):
        return Rec(init.cls, {k: self.generalize_like(init.vals[k], y, f, path + (k,)) for k, y in zip(init.vals, b)})
    if isinstance(init, Ref) and init.kind == "list" and isinstance(body, Ref) and body.kind == "list":
      a, b = self.payload(init), self.payload(body)
      if len(a) == len(b):
        return self.newlist([self.generalize_like(x, y, f, path + (i,)) for i, (x, y) in enumerate(zip(a, b))])
    if isinstance(init, Ref) and init.kind == "dict" and isinstance(body, Ref) and body.kind == "dict":
      a, b = self.payload(init), self.payload(body)
      if set(a) == set(b):
        return self.newdict({k: self.generalize_like(a[k], b[k], f, path + (k,)) for k in a})
    if init is None and body is None:
      return None
    if isinstance(init, (Closure, Bound, PyFn, Partial, Ext, str, ClassInfo)):
      return body
    return f(init, body, path)

  # ---------------------------------------------------------- expressions --
  def eval(self, e, fr):
    m = getattr(self, "ex_" + type(e).__name__, None)
    if m is None:
      raise AnalysisBroken(f"unsupported expression {type(e).__name__} at {self.where(e)}")
    return m(e, fr)

  def ex_Constant(self, e, fr):
    return e.value

  def ex_Name(self, e, fr):
    return self.lookup(e.id, fr, e)

  def lookup(self, name, fr, node=None):
    f = fr
    while f is not None:
      if name in f.vars:
        v = f.vars[name]
        if isinstance(v, ImportRef):
          v = self.resolve_import(v)
        return v
      f = f.parent
    v = fr.module.frame.vars.get(name)
    if name in fr.module.frame.vars:
      if isinstance(v, ImportRef):
        v = self.resolve_import(v)
      return v
    import builtins
    if hasattr(builtins, name):
      return Ext("builtins." + name)
    if name in ("__file__", "__name__", "__doc__"):
      return name
    raise AbsRaise("NameError " + name, self.where(node))

  def ex_Tuple(self, e, fr):
    return tuple(self.elts(e.elts, fr))

  def ex_List(self, e, fr):
    return self.newlist(self.elts(e.elts, fr))

  def elts(self, elts, fr):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        v = self.eval(x.value, fr)
        xs = self.iterate(v)
        if xs is None:
          out.append(mk("star", self.lift(v)))
        else:
          out += xs
      else:
        out.append(self.eval(x, fr))
    return out

  def ex_Set(self, e, fr):
    return mk("set", *sorted([self.lift(x) for x in self.elts(e.elts, fr)], key=tm.skey))

  def ex_Dict(self, e, fr):
    d = {}
    for k, v in zip(e.keys, e.values):
      vv = self.eval(v, fr)
      if k is None:
        if isinstance(vv, Ref) and vv.kind == "dict":
          d.update(self.payload(vv))
        else:
          d["**"] = vv
        continue
      kk = self.eval(k, fr)
      d[kk if isinstance(kk, (str, int, float, bool, type(None))) else repr(kk)] = vv
    return self.newdict(d)

  def ex_JoinedStr(self, e, fr):
    parts = []
    ok = True
    for v in e.values:
      if isinstance(v, ast.Constant):
        parts.append(v.value)
      else:
        try:
          x = self.eval(v.value, fr)
        except AbsRaise:
          x = None
        if concrete(x):
          parts.append(str(x))
        else:
          ok = False
          parts.append("{}")
    return "".join(parts)

  def ex_FormattedValue(self, e, fr):
    return "{}"

  def ex_Lambda(self, e, fr):
    return self.make_closure(e, fr)

  def ex_IfExp(self, e, fr):
    c = self.branch(self.eval(e.test, fr), e)
    if c is tm.TRUE:
      return self.eval(e.body, fr)
    if c is tm.FALSE:
      return self.eval(e.orelse, fr)
    n = len(self.path)
    r1 = r2 = None
    a = b = None
    self.path.append((c, True))
    try:
      a = self.eval(e.body, fr)
    except AbsRaise as x:
      r1 = x
    del self.path[n:]
    self.path.append((c, False))
    try:
      b = self.eval(e.orelse, fr)
    except AbsRaise as x:
      r2 = x
    del self.path[n:]
    if r1 and r2:
      raise r1
    if r1:
      return b
    if r2:
      return a
    return self.merge(c, a, b)

  def ex_BoolOp(self, e, fr):
    isand = isinstance(e.op, ast.And)
    cur = None
    conds = []
    n = len(self.path)
    try:
      for i, x in enumerate(e.values):
        v = self.eval(x, fr)
        c = self.decide(self.cond_term(v))
        last = i == len(e.values) - 1
        if isand:
          if c is tm.FALSE:
            return v if not conds else self._boolop(isand, conds, v)
          if c is tm.TRUE:
            if last:
              return v if not conds else self._boolop(isand, conds, v)
            continue
        else:
          if c is tm.TRUE:
            return v if not conds else self._boolop(isand, conds, v)
          if c is tm.FALSE:
            if last:
              return v if not conds else self._boolop(isand, conds, v)
            continue
        if last:
          return v if not conds else self._boolop(isand, conds, v)
        self.event("pybranch", c, x)
        conds.append((c, v))
        self.path.append((c, isand))
    finally:
      del self.path[n:]
    return cur

  def _boolop(self, isand, conds, v):
    for c, prev in reversed(conds):
      bc = self.cond_term(v) if (isinstance(v, (T, bool))) and (tm.is_boolish(self.lift(v)) or is_bool_value(self.lift(v))) else None
      if bc is not None and (tm.is_boolish(c) or is_bool_value(c) or c.op == "truthy"):
        v = tm.and_(c, bc) if isand else tm.or_(c, bc)
      else:
        v = self.merge(c, v, prev) if isand else self.merge(c, prev, v)
    return v

  def ex_UnaryOp(self, e, fr):
    v = self.eval(e.operand, fr)
    if isinstance(e.op, ast.Not):
      c = self.decide(self.cond_term(v))
      if c is tm.TRUE:
        return False
      if c is tm.FALSE:
        return True
      return tm.not_(c)
    if concrete(v) and not isinstance(v, str) and v is not None:
      if isinstance(e.op, ast.USub):
        return -v
      if isinstance(e.op, ast.UAdd):
        return +v
      if isinstance(e.op, ast.Invert):
        return (not v) if isinstance(v, bool) else ~v
    if isinstance(v, Ref) and v.kind == "obj":
      meth = {"USub": "__neg__", "Invert": "__invert__"}.get(type(e.op).__name__)
      if meth:
        return self.call(self.getattr(v, meth), [], {})
    t = self.lift(v)
    if isinstance(e.op, ast.USub):
      return tm.neg(t)
    if isinstance(e.op, ast.UAdd):
      return t
    return tm.not_(t)

  def ex_BinOp(self, e, fr):
    a = self.eval(e.left, fr)
    b = self.eval(e.right, fr)
    self.cur = e
    return self.binop(e.op, a, b)

  def binop(self, op, a, b):
    if isinstance(a, PhiV) or isinstance(b, PhiV):
      if isinstance(a, PhiV):
        return self.merge(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
      return self.merge(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
    if concrete(a) and concrete(b) and a is not None and b is not None and not isinstance(op, ast.MatMult):
      if isinstance(op, ast.Mod) and isinstance(a, str):
        return a
      try:
        r = _BIN[type(op)](a, b)
        if isinstance(r, complex) and not isinstance(a, complex) and not isinstance(b, complex):
          return mk("nanconst")
        return r
      except ZeroDivisionError:
        return tm.INF
      except TypeError as e:
        raise AbsRaise("TypeError " + str(e), self.where())
      except OverflowError:
        return tm.INF
    if isinstance(a, str) or isinstance(b, str):
      if isinstance(op, ast.Mod):
        return mk("strfmt", self.lift(a), self.lift(b))
      return mk("strcat", self.lift(a), self.lift(b))
    if isinstance(op, ast.Add):
      if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
      if isinstance(a, Ref) and a.kind == "list" and isinstance(b, Ref) and b.kind == "list":
        return self.newlist(self.payload(a) + self.payload(b))
      if isinstance(a, tuple) and isinstance(b, T) or isinstance(b, tuple) and isinstance(a, T):
        return mk("tupcat", self.lift(a), self.lift(b))
    if isinstance(op, ast.Mult):
      for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and isinstance(y, int):
          return x * y
        if isinstance(x, Ref) and x.kind == "list" and isinstance(y, int):
          return self.newlist(self.payload(x) * y)
    if isinstance(a, Ref) and a.kind == "obj":
      nm = {"MatMult": "__matmul__", "Mult": "__mul__", "Add": "__add__", "Sub": "__sub__"}.get(type(op).__name__)
      if nm and a.cls.lookup(nm)[0] is not None:
        return self.call(self.getattr(a, nm), [b], {})
    if a is None or b is None:
      raise AbsRaise("TypeError arithmetic on None", self.where())
    x, y = self.lift(a), self.lift(b)
    return self.mm.arith(self, type(op).__name__, x, y)

  def ex_Compare(self, e, fr):
    left = self.eval(e.left, fr)
    res = None
    for op, rn in zip(e.ops, e.comparators):
      right = self.eval(rn, fr)
      r = self.compare(op, left, right)
      res = r if res is None else self._cand(res, r)
      left = right
    return res

  def _cand(self, a, b):
    x, y = self.lift(a), self.lift(b)
    r = tm.and_(x, y)
    return r

  def compare(self, op, a, b):
    if isinstance(a, PhiV) and not isinstance(op, (ast.Is, ast.IsNot)) :
      return self.merge(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
    if isinstance(b, PhiV) and not isinstance(op, (ast.Is, ast.IsNot)):
      return self.merge(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
    if isinstance(op, (ast.Is, ast.IsNot)):
      r = self.is_(a, b)
      if isinstance(op, ast.IsNot):
        return (not r) if isinstance(r, bool) else tm.not_(r)
      return r
    if isinstance(op, (ast.In, ast.NotIn)):
      r = self.contains(a, b)
      if isinstance(op, ast.NotIn):
        return (not r) if isinstance(r, bool) else tm.not_(r)
      return r
    if concrete(a) and concrete(b):
      if isinstance(op, ast.Eq):
        return a == b
      if isinstance(op, ast.NotEq):
        return a != b
      try:
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](a, b)
      except TypeError as ex:
        raise AbsRaise("TypeError " + str(ex), self.where())
    if isinstance(op, (ast.Eq, ast.NotEq)):
      r = self.equal(a, b)
      if isinstance(op, ast.NotEq):
        return (not r) if isinstance(r, bool) else tm.not_(r)
      return r
    for v in (a, b):
      if v is None or isinstance(v, (tuple, str)):
        raise AbsRaise("TypeError ordering comparison of " + type(v).__name__, self.where())
    x, y = self.lift(a), self.lift(b)
    if isinstance(op, ast.Lt):
      return tm.lt(x, y)
    if isinstance(op, ast.LtE):
      return tm.le(x, y)
    if isinstance(op, ast.Gt):
      return tm.lt(y, x)
    return tm.le(y, x)

  def is_(self, a, b):
    if b is None or a is None:
      v = a if b is None else b
      if v is None:
        return True
      if isinstance(v, T):
        if v is NONE_T:
          return True
        if v.op == "ite":
          x, y = self.is_(v.args[1], None), self.is_(v.args[2], None)
          return self.merge(v.args[0], x, y)
        return False
      if isinstance(v, PhiV):
        return self.merge(v.c, self.is_(v.a, None), self.is_(v.b, None))
      return False
    if isinstance(a, bool) and isinstance(b, bool):
      return a is b
    for x, y in ((a, b), (b, a)):
      if isinstance(x, T) and x.op == "sym" and x.args[0] == "fn" and isinstance(y, bool):
        return False
    if isinstance(a, T) or isinstance(b, T):
      return mk("eqv", *sorted((self.lift(a), self.lift(b)), key=tm.skey)) if not self.same(a, b) else True
    return self.same(a, b)

  def equal(self, a, b):
    if a is None or b is None:
      return self.is_(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
      if len(a) != len(b):
        return False
      r = tm.TRUE
      for x, y in zip(a, b):
        r = tm.and_(r, self.lift(self.equal(x, y)))
      return True if r is tm.TRUE else False if r is tm.FALSE else r
    if isinstance(a, str) or isinstance(b, str):
      if isinstance(a, str) and isinstance(b, str):
        return a == b
      x, y = self.lift(a), self.lift(b)
      if is_sort(x, "num") or is_sort(y, "num"):
        return False
      o = b if isinstance(a, str) else a
      if isinstance(o, (Closure, Bound, PyFn, Partial, ClassInfo, tuple, Rec, Ref)):
        return False
      if isinstance(o, T) and o.op in ("poly", "tuple", "none", "bool"):
        return False
      return mk("eqv", *sorted((x, y), key=tm.skey))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
      return self.equal(tuple(self.payload(a)), tuple(self.payload(b)))
    x, y = self.lift(a), self.lift(b)
    if x is y:
      return True
    if x.op.startswith("td") and y.op.startswith("td"):
      if "tdof" not in {z.op for z in tm.deps(x) | tm.deps(y)} or x.op != y.op:
        return norm_td(x) is norm_td(y)
      return norm_td(x) is norm_td(y) or mk("eqv", *sorted((x, y), key=tm.skey))
    nonnum = ("str", "ext", "obj", "tuple", "none", "cls", "fun", "dict", "rec", "dtype", "shape", "set")
    if x.op in nonnum or y.op in nonnum:
      if x.op in ("str", "ext", "none", "cls") and y.op in ("str", "ext", "none", "cls"):
        return False
      return mk("eqv", *sorted((x, y), key=tm.skey))
    r = tm.eq(x, y)
    return True if r is tm.TRUE else False if r is tm.FALSE else r

  def contains(self, a, b):
    if isinstance(b, str) and isinstance(a, str):
      return a in b
    xs = self.iterate(b)
    if xs is None:
      return mk("in", self.lift(a), self.lift(b))
    res = tm.FALSE
    for x in xs:
      res = tm.or_(res, self.lift(self.equal(a, x)))
    return True if res is tm.TRUE else False if res is tm.FALSE else res

  def ex_Starred(self, e, fr):
    return self.eval(e.value, fr)

  def ex_NamedExpr(self, e, fr):
    v = self.eval(e.value, fr)
    self.assign(e.target, v, fr)
    return v

  def ex_Slice(self, e, fr):
    f = lambda x: self.eval(x, fr) if x is not None else None
    return slice(f(e.lower), f(e.upper), f(e.step))

  def ex_Subscript(self, e, fr):
    o = self.eval(e.value, fr)
    k = self.eval(e.slice, fr)
    self.cur = e
    return self.getitem(o, k)

  def getitem(self, o, k):
    if isinstance(o, PhiV):
      return self.merge(o.c, self.getitem(o.a, k), self.getitem(o.b, k))
    if isinstance(k, PhiV):
      return self.merge(k.c, self.getitem(o, k.a), self.getitem(o, k.b))
    if isinstance(o, Ext) or isinstance(o, ClassInfo):
      return o   # typing subscripts
    if isinstance(o, Ref) and o.kind == "obj" and o.cls.lookup("__getitem__")[0] is not None:
      return self.call(self.getattr(o, "__getitem__"), [k], {})
    if isinstance(o, Ref) and o.kind == "dict":
      p = self.payload(o)
      if isinstance(k, (str, int, bool, float)) or k is None:
        if k in p:
          return p[k]
        if "**" in p:
          return tm.item(self.lift(p["**"]), self.lift(k))
        raise AbsRaise("KeyError " + repr(k), self.where())
      return tm.item(self.lift(o), self.lift(k))
    if isinstance(o, str) and isinstance(k, int):
      return o[k]
    xs = None
    if isinstance(o, (tuple, Rec)) or (isinstance(o, Ref) and o.kind == "list"):
      xs = self.iterate(o)
    if xs is not None:
      kk = k
      if isinstance(kk, T):
        c = tm.const_of(kk)
        if c is not None and c.denominator == 1:
          kk = int(c)
      if isinstance(kk, int):
        if -len(xs) <= kk < len(xs):
          return xs[kk]
        raise AbsRaise("IndexError", self.where())
      if isinstance(kk, slice) and all(x is None or isinstance(x, int) for x in (kk.start, kk.stop, kk.step)):
        r = xs[kk]
        return self.newlist(r) if isinstance(o, Ref) else tuple(r)
    if o is None or isinstance(o, (bool, int, float)):
      raise AbsRaise("TypeError not subscriptable", self.where())
    t = self.lift(o)
    return self.mm.index(self, t, k)

  def comp(self, gens, fr, elt):
    """Returns (list or None, symbolic term)."""
    f2 = Frame(fr.module, fr, fr.owner, fr.selfv, fr.fn)

    def rec(i):
      if i == len(gens):
        return [elt(f2)]
      g = gens[i]
      it = self.eval(g.iter, f2)
      xs = self.iterate(it)
      if xs is None or len(xs) > 200:
        raise _Sym(g, it)
      out = []
      for x in xs:
        self.assign(g.target, x, f2)
        ok = True
        for c in g.ifs:
          t = self.decide(self.cond_term(self.eval(c, f2)))
          if t is tm.FALSE:
            ok = False
            break
          if t is not tm.TRUE:
            self.event("pybranch", t, c)
        if ok:
          out += rec(i + 1)
      return out

    try:
      return rec(0), None
    except _Sym as s:
      g = gens[0]
      it = self.eval(g.iter, f2)
      self.lamdepth += 1
      lvl = self.lamdepth
      itt = self.lift(it)
      el = mk("elem", itt, lvl)
      if isinstance(it, T) and it.op == "leaves" and len(gens) == 1 and not g.ifs:
        # one item per (sub)tree: the body describes the leaves of each
        out = []
        for x in it.args:
          self.assign(g.target, x, f2)
          out.append(self.lift(elt(f2)))
        if all(x.op not in ("tuple", "bool") for x in out):
          self.lamdepth -= 1
          return None, mk("leaves", *out)
      if isinstance(it, T) and it.op == "zip":
        el = tuple(mk("elem", x, lvl) for x in it.args)
      elif isinstance(it, T) and it.op == "enumerate":
        el = (mk("idx", lvl), mk("elem", it.args[0], lvl))
      elif isinstance(it, T) and it.op == "items":
        el = (mk("key", it, lvl), mk("elem", it, lvl))
      self.assign(g.target, el, f2)
      fl = []
      for c in g.ifs:
        fl.append(self.lift(self.eval(c, f2)))
      for g2 in gens[1:]:
        it2 = self.lift(self.eval(g2.iter, f2))
        self.assign(g2.target, mk("elem", it2, lvl), f2)
      body = self.lift(elt(f2))
      self.lamdepth -= 1
      return None, mk("comp", itt, body, tuple(fl))

  def ex_ListComp(self, e, fr):
    xs, t = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
    return self.newlist(xs) if xs is not None else t

  def ex_GeneratorExp(self, e, fr):
    xs, t = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
    return self.newlist(xs) if xs is not None else t

  def ex_SetComp(self, e, fr):
    xs, t = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
    return mk("set", *[self.lift(x) for x in xs]) if xs is not None else t

  def ex_DictComp(self, e, fr):
    xs, t = self.comp(e.generators, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f)))
    if xs is not None and all(isinstance(k, (str, int)) for k, _ in xs):
      return self.newdict(dict(xs))
    return t if t is not None else mk("dictcomp", *[self.lift(x) for x in xs])

  # ---------------------------------------------------------- attributes ---
  def ex_Attribute(self, e, fr):
    o = self.eval(e.value, fr)
    self.cur = e
    return self.getattr(o, e.attr)

  def getattr(self, o, name, default=AbsRaise):
    r = self._getattr(o, name)
    if r is AbsRaise:
      if default is AbsRaise:
        raise AbsRaise(f"AttributeError {self.describe(o)}.{name}", self.where())
      return default
    return r

  def describe(self, o):
    if isinstance(o, Ref) and o.cls:
      return o.cls.name
    if isinstance(o, T):
      return tm.show(o, 3)
    return repr(o)

  def _getattr(self, o, name):
    if isinstance(o, Ref) and o.kind == "obj":
      p = self.payload(o)
      if name in p:
        self.note_read(o, name)
        return p[name]
      if name == "__class__":
        return o.cls
      if name == "__dict__":
        return self.newdict(p)
      v, c = o.cls.lookup(name)
      if c is None:
        return AbsRaise
      return self.bindattr(v, o, o.cls)
    if isinstance(o, ModuleV):
      v = o.env.frame.vars.get(name, AbsRaise)
      if v is AbsRaise:
        full = o.env.name + "." + name
        if self.loader.path(full):
          return ModuleV(self.module(full))
        return AbsRaise
      if isinstance(v, ImportRef):
        return self.resolve_import(v)
      return v
    if isinstance(o, Ext):
      return self.mm.ext_attr(self, o, name)
    if isinstance(o, Rec):
      if name in o.vals:
        return o.vals[name]
      v, c = o.cls.lookup(name)
      if c is not None:
        return self.bindattr(v, o, o.cls)
      return self.mm.rec_attr(self, o, name)
    if isinstance(o, ClassInfo):
      if name == "__name__":
        return o.name
      if name == "_fields":
        return tuple(n for n, _, _ in o.fields())
      v, c = o.lookup(name)
      if c is None:
        return AbsRaise
      if isinstance(v, PyFn) and v.name == "staticmethod":
        return v.base
      if isinstance(v, PyFn) and v.name == "classmethod":
        return Bound(v.base, o)
      return v
    if isinstance(o, SuperV):
      mro = (o.selfv.cls if isinstance(o.selfv, (Ref, Rec)) else o.cls).mro()
      i = mro.index(o.cls) if o.cls in mro else 0
      for c in mro[i + 1:]:
        if name in c.attrs:
          return self.bindattr(c.attrs[name], o.selfv, c)
      return PyFn("super." + name, lambda it, a, k: None)
    if isinstance(o, PhiV):
      return self.merge(o.c, self._getattr(o.a, name), self._getattr(o.b, name))
    if isinstance(o, (Closure, PyFn, Partial, Bound)):
      return self.mm.fn_attr(self, o, name)
    if o is None:
      return AbsRaise
    return self.mm.value_attr(self, o, name)

  def note_read(self, o, name):
    pass

  def bindattr(self, v, o, cls):
    if isinstance(v, PyFn):
      if v.name == "property":
        return self.call(v.base, [o], {})
      if v.name == "staticmethod":
        return v.base
      if v.name == "classmethod":
        return Bound(v.base, cls)
      if isinstance(v.base, Closure) and v.base.owner is not None:
        return Bound(v, o)
      return v
    if isinstance(v, Closure):
      if v.owner is None:
        # plain function stored on the class
        return Bound(v, o) if isinstance(v.node, ast.FunctionDef) else v
      return Bound(v, o)
    return v

  # ---------------------------------------------------------- calls --------
  def ex_Call(self, e, fr):
    f = self.eval(e.func, fr)
    if isinstance(f, Ext) and f.name == "builtins.super" and not e.args:
      ff = fr
      while ff is not None and ff.owner is None:
        ff = ff.parent
      if ff is None:
        raise AnalysisBroken("super() outside class")
      return SuperV(ff.owner, ff.selfv)
    args, kwargs = [], {}
    for a in e.args:
      if isinstance(a, ast.Starred):
        v = self.eval(a.value, fr)
        xs = self.iterate(v)
        if xs is None:
          args.append(mk("star", self.lift(v)))
        else:
          args += xs
      else:
        args.append(self.eval(a, fr))
    for k in e.keywords:
      v = self.eval(k.value, fr)
      if k.arg is None:
        if isinstance(v, Ref) and v.kind == "dict":
          for kk, vv in self.payload(v).items():
            kwargs[str(kk)] = vv
        else:
          kwargs["**"] = v
      else:
        kwargs[k.arg] = v
    self.cur = e
    return self.call(f, args, kwargs, e, fr)

  def call(self, f, args, kwargs, node=None, fr=None):
    args = list(args)
    if isinstance(f, Closure):
      return self.call_closure(f, args, kwargs, node)
    if isinstance(f, Bound):
      return self.call_bound(f, args, kwargs, node)
    if isinstance(f, PyFn):
      if f.fcall is None:
        if f.name == "custom":
          self.event("customcall", (f, tuple(args), dict(kwargs)))
        return self.call(f.base, args, kwargs, node)
      return f.fcall(self, args, kwargs)
    if isinstance(f, Partial):
      kw = dict(f.kwargs)
      kw.update(kwargs)
      return self.call(f.fn, list(f.args) + args, kw, node)
    if isinstance(f, ClassInfo):
      return self.instantiate(f, args, kwargs, node)
    if isinstance(f, Ext):
      return self.mm.call_ext(self, f.name, args, kwargs, node, fr)
    if isinstance(f, PhiV):
      n = len(self.path)
      st0 = self.snap_heap()
      ra = rb = None
      a = b = None
      self.path.append((f.c, True))
      try:
        a = self.call(f.a, args, kwargs, node)
      except AbsRaise as x:
        ra = x
      del self.path[n:]
      h1 = self.heap
      self.heap = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in st0.items()}
      self.path.append((f.c, False))
      try:
        b = self.call(f.b, args, kwargs, node)
      except AbsRaise as x:
        rb = x
      del self.path[n:]
      h2 = self.heap
      if ra and rb:
        raise ra
      if ra:
        return b
      if rb:
        self.heap = h1
        return a
      self.merge_heaps(f.c, h1, h2)
      return self.merge(f.c, a, b)
    if isinstance(f, Ref) and f.kind == "obj":
      v, c = f.cls.lookup("__call__")
      if c is None:
        raise AbsRaise(f"TypeError {f.cls.name} not callable", self.where(node))
      return self.call(self.bindattr(v, f, f.cls), args, kwargs, node)
    if isinstance(f, T):
      return self.call_term(f, args, kwargs, node)
    if isinstance(f, SuperV):
      return None
    raise AbsRaise(f"TypeError {f!r} not callable", self.where(node))

  def call_term(self, f, args, kwargs, node):
    """Call of an unknown (user-supplied) function."""
    if f is NONE_T:
      raise AbsRaise("TypeError None not callable", self.where(node))
    if f.op == "ite":
      return self.merge(f.args[0], self.call(f.args[1], args, kwargs, node),
                        self.call(f.args[2], args, kwargs, node))
    if kwargs and f in self.signatures:
      args, kwargs = list(args), dict(kwargs)
      for n in self.signatures[f][len(args):]:
        if not isinstance(n, str) or n not in kwargs:
          break
        args.append(kwargs.pop(n))
    la = [self.lift(a) for a in args]
    la += [mk("kw", k, self.lift(v)) for k, v in sorted(kwargs.items())]
    t = mk("app", f, *la)
    self.event("usercall", (f, tuple(la), t), node)
    return self.shape_result(f, t)

  result_shapes = {}

  def shape_result(self, f, t):
    """Give the result of a user function its declared tuple structure."""
    sh = self.result_shapes.get(f)
    return self._shape(sh, t) if sh is not None else t

  def _shape(self, sh, t):
    if sh is None:
      return t
    if isinstance(sh, dict):
      return self.newdict({k: self._shape(s, tm.item(t, mk("str", str(k)))) for k, s in sh.items()})
    return tuple(self._shape(s, tm.item(t, tm.num(i))) for i, s in enumerate(sh))

  def call_bound(self, f, args, kwargs, node):
    fn, s = f.fn, f.selfv
    name = getattr(fn, "name", None)
    if isinstance(fn, PyFn) and fn.base is not None and fn.name not in ("staticmethod", "classmethod"):
      return self.call(fn, [s] + args, kwargs, node)
    if isinstance(fn, Closure):
      for pred, hook in self.method_hooks:
        if pred(s.cls if isinstance(s, (Ref, Rec)) else s, fn.name, fn.owner):
          r = hook(self, s, fn, args, kwargs)
          if r is not NotImplemented:
            return r
      return self.call_closure(fn, [s] + args, kwargs, node, selfv=s)
    return self.call(fn, [s] + args, kwargs, node)

  def call_closure(self, f, args, kwargs, node=None, selfv=None):
    hook = self.hooks.get(f.qual)
    if hook is not None:
      r = hook(self, f, args, kwargs)
      if r is not NotImplemented:
        return r
    key = f.node
    depth = sum(1 for s in self.stack if s[2] is key) if len(self.stack) > 3 else 0
    if depth >= 3 or len(self.stack) > self.MAX_DEPTH:
      self.event("recursion", f.qual)
      return mk("rec_call", f.qual, *[self.lift(a) for a in args])
    self.functions_seen.add(f.qual)
    nf = Frame(f.module, f.frame if f.frame is not f.module.frame else None, f.owner, None, f)
    self.bind_params(f, nf, args, kwargs, node)
    if f.owner is not None and args:
      nf.selfv = args[0]
    self.stack.append((f.qual, node, key))
    n = len(self.path)
    cur = self.cur
    try:
      if isinstance(f.node, ast.Lambda):
        return self.eval(f.node.body, nf)
      body = f.node.body
      exits = self.exec_block(body, nf)
      rets = [e for e in exits if e[0] == "return"]
      if not nf.dead:
        rets.append(("return", None, tm.TRUE, self.heap, None))
      elif rets and rets[-1][2] is not tm.TRUE:
        k_, v_, g_, h_, n_ = rets[-1]
        rets[-1] = (k_, v_, tm.TRUE, h_, n_)
      return self.combine(rets)
    finally:
      del self.path[n:]
      self.stack.pop()
      self.cur = cur

  def combine(self, rets):
    if not rets:
      raise AbsRaise("no return", self.where())
    if len(rets) == 1:
      if rets[0][3] is not None:
        self.heap = rets[0][3]
      return rets[0][1]
    # ordered: earlier exits are taken first
    last = rets[-1]
    val = last[1]
    heap = last[3] if last[3] is not None else self.heap
    for k, v, g, h, n in reversed(rets[:-1]):
      hh = h if h is not None else heap
      self.merge_heaps(g, hh, heap)
      val = self.merge(g, v, val)
      heap = self.heap
    self.heap = heap
    return val

  def bind_params(self, f, nf, args, kwargs, node):
    a = f.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    kwargs = dict(kwargs)
    vals = {}
    if any(isinstance(x, T) and x.op == "star" for x in args):
      # unknown *args expansion
      i = next(i for i, x in enumerate(args) if isinstance(x, T) and x.op == "star")
      if i >= len(params) and a.vararg:
        pass
      elif not (a.vararg and i == len(params)):
        st = args[i]
        need = len(params) - i - sum(1 for p in params[i:] if p in kwargs)
        if need > 0 and not a.vararg or need > 0:
          args = args[:i] + [tm.item(st.args[0], tm.num(j)) for j in range(need)] + args[i + 1:]
        else:
          args = args[:i] + args[i + 1:]
    for p, v in zip(params, args):
      vals[p] = v
    extra = args[len(params):]
    if extra:
      if a.vararg:
        vals[a.vararg.arg] = tuple(extra)
        if len(extra) == 1 and isinstance(extra[0], T) and extra[0].op == "star":
          vals[a.vararg.arg] = extra[0].args[0]
      else:
        raise AbsRaise(f"TypeError {f.qual}() takes {len(params)} positional arguments but {len(args)} were given", self.where(node))
    elif a.vararg:
      vals[a.vararg.arg] = ()
    names = set(params[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
    rest = {}
    for k, v in kwargs.items():
      if k in names:
        if k in vals:
          raise AbsRaise(f"TypeError {f.qual}() got multiple values for argument {k}", self.where(node))
        vals[k] = v
      else:
        rest[k] = v
    if a.kwarg:
      vals[a.kwarg.arg] = rest["**"] if set(rest) == {"**"} else self.newdict(rest)
    elif rest:
      star = rest.pop("**", None)
      if rest:
        raise AbsRaise(f"TypeError {f.qual}() got an unexpected keyword argument {sorted(rest)[0]}", self.where(node))
    nd = len(f.defaults)
    for p, d in zip(params[len(params) - nd:], f.defaults):
      vals.setdefault(p, d)
    for k, d in f.kwdefaults.items():
      vals.setdefault(k, d)
    for p in params + [x.arg for x in a.kwonlyargs]:
      if p not in vals:
        if "**" in kwargs:
          vals[p] = tm.item(self.lift(kwargs["**"]), mk("str", p))
        else:
          raise AbsRaise(f"TypeError {f.qual}() missing argument {p}", self.where(node))
    nf.vars.update(vals)

  # ---------------------------------------------------------- objects ------
  def instantiate(self, ci, args, kwargs, node=None, label=None):
    hook = self.hooks.get(ci.qual)
    if hook is not None:
      r = hook(self, ci, args, kwargs)
      if r is not NotImplemented:
        return r
    if ci.is_namedtuple():
      fields = ci.fields()
      vals = {}
      if len(args) > len(fields):
        raise AbsRaise(f"TypeError {ci.name} takes {len(fields)} fields", self.where(node))
      for (n, d, c), v in zip(fields, args):
        vals[n] = v
      for k, v in kwargs.items():
        if k == "**":
          continue
        if k not in {n for n, _, _ in fields}:
          raise AbsRaise(f"TypeError {ci.name}() unexpected field {k}", self.where(node))
        vals[k] = v
      out = {}
      for n, d, c in fields:
        if n in vals:
          out[n] = vals[n]
        elif d is not None:
          out[n] = self.eval(d, c.frame)
        elif "**" in kwargs:
          out[n] = tm.item(self.lift(kwargs["**"]), mk("str", n))
        else:
          raise AbsRaise(f"TypeError {ci.name}() missing field {n}", self.where(node))
      return Rec(ci, out)
    ref = self.new("obj", {}, ci, label or ci.name)
    self.event("new", ref, node)
    init, c = ci.lookup("__init__")
    if c is not None and isinstance(init, Closure):
      self.call_closure(init, [ref] + list(args), kwargs, node)
      return ref
    if any(x.is_dataclass() for x in ci.mro()):
      fields = ci.fields()
      vals = {}
      if len(args) > len(fields):
        raise AbsRaise(f"TypeError {ci.name}() too many arguments", self.where(node))
      for (n, d, cc), v in zip(fields, args):
        vals[n] = v
      for k, v in kwargs.items():
        if k == "**":
          continue
        if k not in {n for n, _, _ in fields}:
          raise AbsRaise(f"TypeError {ci.name}() unexpected argument {k}", self.where(node))
        vals[k] = v
      for n, d, cc in fields:
        if n not in vals:
          if d is not None:
            vals[n] = self.eval(d, cc.frame)
          elif "**" in kwargs:
            vals[n] = tm.item(self.lift(kwargs["**"]), mk("str", n))
          else:
            raise AbsRaise(f"TypeError {ci.name}() missing argument {n}", self.where(node))
        self.heap[ref.id][n] = vals[n]
      pi, pc = ci.lookup("__post_init__")
      if pc is not None:
        self.call(self.bindattr(pi, ref, ci), [], {}, node)
      return ref
    return ref

  # convenience for rules ----------------------------------------------------
  def cls(self, modname, name):
    env = self.module(modname)
    if env is None:
      raise AnalysisBroken(f"module {modname} not found")
    v = env.frame.vars.get(name)
    if isinstance(v, ImportRef):
      v = self.resolve_import(v)
    if not isinstance(v, ClassInfo):
      raise AnalysisBroken(f"class {modname}.{name} not found")
    return v

  def public_fn(self, modname, name):
    """Documented public name; its disappearance is a broken anchor."""
    return self.fn(modname, name)

  def fn(self, modname, name):
    env = self.module(modname)
    if env is None:
      raise AnalysisBroken(f"module {modname} not found")
    if name not in env.frame.vars:
      raise AnalysisBroken(f"function {modname}.{name} not found")
    v = env.frame.vars[name]
    if isinstance(v, ImportRef):
      v = self.resolve_import(v)
    return v


def norm_td(t):
  """Tree definition with all leaves alike."""
  if t.op in ("tdof", "tdleaf"):
    return mk("tdleaf")
  if t.op in ("tdtuple", "tdlist"):
    return mk(t.op, *[norm_td(x) for x in t.args])
  if t.op == "tdrec":
    return mk(t.op, t.args[0], *[norm_td(x) for x in t.args[1:]])
  if t.op == "tddict":
    return mk(t.op, *[mk("kv", x.args[0], norm_td(x.args[1])) for x in t.args])
  return t


class _Sym(Exception):
  def __init__(self, g, it):
    self.g, self.it = g, it


def _as_load(t):
  if isinstance(t, ast.Name):
    return ast.Name(id=t.id, ctx=ast.Load())
  if isinstance(t, ast.Attribute):
    return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
  return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())


BOOL_SYM_HINTS = ("done", "failed", "interval_found")


def is_bool_value(t):
  if not isinstance(t, T):
    return isinstance(t, bool)
  if tm.is_boolish(t):
    return True
  if t.op == "ite":
    return is_bool_value(t.args[1]) and is_bool_value(t.args[2])
  if t.op == "sym" and t.args[0] == "boolopt":
    return True
  if t.op in ("st", "lv", "lsf", "while", "loopvar", "updst", "initst"):
    return any(isinstance(a, str) and a.split(".")[-1] in BOOL_SYM_HINTS for a in t.args)
  return False


def is_sort(t, s):
  return False
