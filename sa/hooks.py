"""Summaries of small repository helpers, used where a rule does not study them."""
from . import terms as tm
from .terms import mk


def default_hooks(I):
  def dtype_of(I, f, a, k):
    return mk("dtype", I.lift(a[0]))

  def while_loop(I, f, a, k):
    names = ["cond_fun", "body_fun", "init_val", "maxiter", "unroll", "jit"]
    d = dict(zip(names, a))
    d.update(k)
    return I.mm.while_prim(I, d["cond_fun"], d["body_fun"], d["init_val"], d["maxiter"])

  I.hooks["jaxopt._src.tree_util.tree_single_dtype"] = dtype_of
  I.hooks["jaxopt._src.tree_util.get_real_dtype"] = dtype_of
  I.hooks["jaxopt._src.loop.while_loop"] = while_loop
