"""Perturbed optimisers: values and derivative rules."""
import jax
import jax.numpy as jnp


def draw(noise, rng, num, inputs):
  return noise.sample(seed=rng, sample_shape=(num,) + inputs.shape)


def value_mean(fun, num, sigma, noise, inputs, rng):
  return jnp.mean(jax.vmap(fun)(inputs + sigma * draw(noise, rng, num, inputs)), axis=0)


def value_sum(fun, num, sigma, noise, inputs, rng):
  return jnp.sum(jax.vmap(fun)(inputs + sigma * draw(noise, rng, num, inputs)), axis=0) / num


def _max_values(fun, num, sigma, noise, inputs, rng):
  z = inputs + sigma * draw(noise, rng, num, inputs)
  y = jax.vmap(fun)(z)
  return jnp.sum(jnp.reshape(z, (num, -1)) * jnp.reshape(y, (num, -1)), axis=1)


def max_mean(fun, num, sigma, noise, inputs, rng):
  return jnp.mean(_max_values(fun, num, sigma, noise, inputs, rng))


def max_sum(fun, num, sigma, noise, inputs, rng):
  return jnp.sum(_max_values(fun, num, sigma, noise, inputs, rng)) / num


def max_tangent_mean(fun, num, sigma, noise, inputs, rng, tangent):
  return jnp.sum(value_mean(fun, num, sigma, noise, inputs, rng) * tangent)


def max_tangent_sum(fun, num, sigma, noise, inputs, rng, tangent):
  return jnp.sum(value_sum(fun, num, sigma, noise, inputs, rng) * tangent)


def tangent(fun, num, sigma, noise, control_variate, inputs, rng, tangent):
  s = draw(noise, rng, num, inputs)
  y = jax.vmap(fun)(inputs + sigma * s)
  w = y - fun(inputs) if control_variate else y
  score = -jax.vmap(jax.grad(noise.log_prob))(jnp.reshape(s, (-1,)))
  t = jnp.dot(jnp.reshape(score, (num, -1)), jnp.reshape(tangent, (-1,)))
  flat = jnp.dot(jnp.reshape(w, (num, -1)).T, t) / (num * sigma)
  return flat, y.shape[1:]
