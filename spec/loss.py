"""Reference losses and objectives, from their documentation (interpreted, never run)."""
import jax
import jax.numpy as jnp
from jaxopt import projection


def huber(target, pred, delta):
  r = jnp.abs(target - pred)
  return jnp.where(r <= delta, r * r / 2, delta * r - delta * delta / 2)


def binary_logistic(label, logit):
  # log(1 + exp(-(2 label - 1) logit))
  sign = 2 * label - 1
  return jnp.logaddexp(-sign * logit, 0.0)


def sparse_plus(x):
  return jnp.where(x <= -1, 0.0, jnp.where(x >= 1, x, (x + 1) * (x + 1) / 4))


def sparse_sigmoid(x):
  return jnp.minimum(jnp.maximum((x + 1) / 2, 0.0), 1.0)


def binary_sparsemax(label, logit):
  return sparse_plus(-(2 * label - 1) * logit)


def binary_hinge(label, score):
  return jnp.maximum(0.0, 1 - (2 * label - 1) * score)


def binary_perceptron(label, score):
  return jnp.maximum(0.0, -(2 * label - 1) * score)


def multiclass_logistic(label, logits):
  return jnp.log(jnp.sum(jnp.exp(logits))) - logits[label]


def multiclass_sparsemax(label, scores):
  p = projection.projection_simplex(scores)
  return jnp.sum(p * (scores - scores[label])) + (1 - jnp.sum(p * p)) / 2


def multiclass_sparsemax_b(label, scores):
  p = projection.projection_simplex(scores)
  return jnp.sum(p * scores) + jnp.sum(p * (1 - p)) / 2 - scores[label]


def multiclass_hinge(label, scores):
  return jnp.max(scores + 1 - jax.nn.one_hot(label, scores.shape[0])) - scores[label]


def multiclass_perceptron(label, scores):
  return jnp.max(scores) - scores[label]


def fenchel_young(max_fun):
  def loss(y_true, scores, *args, **kwargs):
    return max_fun(scores, *args, **kwargs) - jnp.sum(jnp.conj(y_true) * scores)
  return loss


# --- objectives ------------------------------------------------------------------
def least_squares(W, data):
  X, y = data
  r = jnp.dot(X, W) - y
  return jnp.mean(r * r) / 2


def ridge_regression(W, l2reg, data):
  return least_squares(W, data) + l2reg * jnp.sum(W * W) / 2


def _logloss(y, pred):
  return jnp.mean(jax.vmap(multiclass_logistic)(y, pred))


def multiclass_logreg(W, data):
  X, y = data
  return _logloss(y, jnp.dot(X, W))


def multiclass_logreg_with_intercept(params, data):
  W, b = params
  X, y = data
  return _logloss(y, jnp.dot(X, W) + b)


def l2_multiclass_logreg(W, l2reg, data):
  return multiclass_logreg(W, data) + l2reg * jnp.sum(W * W) / 2


def l2_multiclass_logreg_with_intercept(params, l2reg, data):
  return multiclass_logreg_with_intercept(params, data) + l2reg * jnp.sum(params[0] * params[0]) / 2


def binary_logreg(w, data):
  X, y = data
  return jnp.mean(jax.vmap(lambda yi, z: jnp.logaddexp(jnp.where(yi, -z, z), 0.0))(y, jnp.dot(X, w)))


def binary_logreg_b(w, data):
  X, y = data
  z = jnp.dot(X, w)
  return jnp.mean(jnp.logaddexp(jnp.where(y, -z, z), 0.0))


def svm_dual(beta, l2reg, data):
  X, Y = data
  V = jnp.dot(X.T, Y) - jnp.dot(X.T, beta)
  return jnp.sum(V * V) / (2 * l2reg) + jnp.sum(beta * (Y - 1))


def col_norms(A):
  return jnp.sum(A * A, axis=0)


def lip_least_squares(data):
  return col_norms(data[0])


def lip_multiclass_logreg(data):
  return col_norms(data[0]) / 2


def lip_binary_logreg(data):
  return col_norms(data[0]) / 4


def lip_svm_dual(l2reg, data):
  return col_norms(data[0].T) / l2reg


def composite(obj, W, *args):
  """The composite description of an objective: subfun(linop W) + <W, b>."""
  v = obj.subfun(obj.make_linop(*args).matvec(W), *args)
  b = obj.b(*args)
  if b is not None:
    v = v + jnp.sum(W * b)
  return v
