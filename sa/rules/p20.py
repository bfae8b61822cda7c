"""P20: pytree arithmetic is leaf-wise arithmetic."""
from ..core import *
import ast
from .. import terms as tm

FLOOR = 45

BINARY = ["tree_add", "tree_sub", "tree_mul", "tree_div", "tree_vdot", "tree_vdot_real", "tree_dot"]
UNARY = ["tree_sum", "tree_l2_norm", "tree_zeros_like", "tree_ones_like", "tree_negative",
         "tree_reciproqual", "tree_mean", "tree_conj", "tree_real", "tree_imag", "tree_inf_norm", "tree_gram"]


def run(c):
  c.rule("leafwise", "the utility's value-flow term equals the reference vector-space operation on the "
         "leaves, for an unknown tree and for nested tuples, lists, dicts, with complex conventions")
  c.rule("public", "jaxopt.tree_util exports the utilities")
  I = new_interp()
  pub = I.module("jaxopt.tree_util")
  if pub is None:
    raise AnalysisBroken("jaxopt.tree_util missing")

  public = set(pub.frame.vars)

  def get(n):
    if n in public:
      return I.fn("jaxopt.tree_util", n)
    try:
      return I.fn("jaxopt._src.tree_util", n)
    except AnalysisBroken:
      return None   # internal helper no longer exists

  x, y, z, w = (arr(n) for n in "xyzw")
  u, v = arr("u"), arr("v")
  s = opt("scalar")
  shapes = {
      "leaf": lambda a, b: a,
      "tuple": lambda a, b: (a, b),
      "nested": lambda a, b: (a, I.newdict({"k": b, "l": (a, b)})),
      "list+None": lambda a, b: I.newlist([a, None, b]),
  }
  for sh, mkt in shapes.items():
    A, B = mkt(x, y), mkt(z, w)
    cb, ca = mkt(arr("c1"), arr("c2")), ranked("cs", 1)
    sw = spec_fn(I, "tree_util", "tree_where")
    tw = get("tree_where")
    compare_fn(c, "leafwise", "tree_where", tw, sw, I, [cb, A, B], construct=f"tree_where[{sh}]")
    if sh != "leaf":
      compare_fn(c, "leafwise", "tree_where", tw, spec_fn(I, "tree_util", "tree_where_scalar"), I,
                 [ca, A, B], construct=f"tree_where[scalar condition,{sh}]")
      leafB = ranked("b", 1)
      compare_fn(c, "leafwise", "tree_where", tw,
                 I.eval(ast.parse("lambda c, a, b: tu.tree_map(lambda ci, ai: jnp.where(ci, ai, b), c, a)",
                                  mode="eval").body, I.module("spec.tree_util").frame), I,
                 [cb, A, leafB], construct=f"tree_where[scalar else,{sh}]")
    for n in BINARY:
      compare_fn(c, "leafwise", n, get(n), spec_fn(I, "tree_util", n), I, [A, B], construct=f"{n}[{sh}]")
    for n in UNARY:
      compare_fn(c, "leafwise", n, get(n), spec_fn(I, "tree_util", n), I, [A], construct=f"{n}[{sh}]")
    compare_fn(c, "leafwise", "tree_l2_norm", get("tree_l2_norm"), spec_fn(I, "tree_util", "tree_l2_norm"),
               I, [A], {"squared": True}, construct=f"tree_l2_norm[squared,{sh}]")
    compare_fn(c, "leafwise", "tree_scalar_mul", get("tree_scalar_mul"),
               spec_fn(I, "tree_util", "tree_scalar_mul"), I, [s, A], construct=f"tree_scalar_mul[{sh}]")
    compare_fn(c, "leafwise", "tree_add_scalar_mul", get("tree_add_scalar_mul"),
               spec_fn(I, "tree_util", "tree_add_scalar_mul"), I, [A, s, B], construct=f"tree_add_scalar_mul[{sh}]")
    compare_fn(c, "leafwise", "tree_average", get("tree_average"), spec_fn(I, "tree_util", "tree_average"),
               I, [A, arr("weights")], construct=f"tree_average[{sh}]")
  c.absorb(I)
