"""The six documented ways of passing one objective obj(params, ...) -> (value, aux)."""
import jax


def plain(obj):
  def fun(*args, **kwargs):
    return obj(*args, **kwargs)[0]
  return fun


def value_and_grad(obj):
  return jax.value_and_grad(plain(obj))


def value_aux_and_grad(obj):
  return jax.value_and_grad(obj, has_aux=True)
