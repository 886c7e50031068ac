"""Helpers for demonstrations: a table-driven target and flow statistics."""
import itertools
import math
import os
import sys

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.path.insert(0, os.getcwd())
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np


class Table:
  """Log-likelihood and gradient tables over {0..C-1}^D."""

  def __init__(self, C, shape, seed=0, scale=1.0):
    r = np.random.RandomState(seed)
    self.C, self.shape, self.D = C, tuple(shape), int(np.prod(shape))
    n = C ** self.D
    w = self.D if C == 2 else self.D * C
    self.L = jnp.array(r.uniform(-1, 1, n) * scale, jnp.float32)
    self.G = jnp.array(r.uniform(-1, 1, (n, w)) * scale, jnp.float32)
    self.pw = jnp.array([C ** (self.D - 1 - i) for i in range(self.D)])

  def idx(self, x):
    if x.ndim == len(self.shape) + 2:
      x = jnp.argmax(x, -1)
    x = jnp.reshape(x, (x.shape[0], -1))
    return jnp.sum(jnp.round(x).astype(jnp.int32) * self.pw, -1)

  def forward(self, p, x):
    return self.L[self.idx(x)]

  def get_value_and_grad(self, p, x):
    x = x.astype(jnp.float32)
    i = self.idx(x)
    return self.L[i], jnp.reshape(self.G[i], x.shape)

  def logratio_in_neighborhood(self, p, x):
    l, g = self.get_value_and_grad(p, x)
    return l, g, 1, None


def config(C, shape, **sampler):
  c = ml_collections.ConfigDict()
  c.model = dict(shape=tuple(shape), num_categories=C)
  co = sampler.pop('co_opt_prob', False)
  c.sampler = dict(dict(adaptive=False, target_acceptance_rate=0.574,
                        balancing_fn_type='SQRT', use_fast_path=True,
                        schedule_step=100, reset_z_est=20), **sampler)
  c.experiment = dict(co_opt_prob=co)
  return c


def step_counts(sampler, model, x, state, N=400000, seed=0, mask=None):
  """Empirical one-step distribution (dict of tuples) from x (batch of 1+)."""
  xa = jnp.array(x, jnp.int32)
  st0 = sampler.make_init_state(jax.random.PRNGKey(0))
  for k, v in state.items():
    st0[k] = jnp.asarray(v, jnp.int32 if k in ('steps', 'index')
                         else jnp.float32)

  def one(key):
    args = (model, key, xa, {}, dict(st0)) + (() if mask is None else (mask,))
    return jnp.reshape(sampler.step(*args)[0], (-1,))

  f = jax.jit(jax.vmap(one))
  cnt = {}
  key = jax.random.PRNGKey(seed)
  for _ in range(max(1, N // 50000)):
    key, s = jax.random.split(key)
    u, c = np.unique(np.asarray(f(jax.random.split(s, 50000))), axis=0,
                     return_counts=True)
    for a, b in zip(u, c):
      cnt[tuple(int(v) for v in a)] = cnt.get(tuple(int(v) for v in a), 0) + int(b)
  n = sum(cnt.values())
  return {k: v / n for k, v in cnt.items()}, n


def worst_flow(sampler, model, state, xs=None, N=400000, mask=None):
  """Largest z score of pi(x)K(x,y) - pi(y)K(y,x) over pairs of xs."""
  if xs is None:
    xs = list(itertools.product(range(model.C), repeat=model.D))
  K = {}
  for x in xs:
    K[x], n = step_counts(sampler, model, np.reshape(x, (1,) + model.shape),
                          state, N, seed=hash(x) % 1000, mask=mask)
  L = np.asarray(model.L, np.float64)
  pw = np.asarray(model.pw)
  pi = {x: math.exp(L[int(np.dot(x, pw))]) for x in xs}
  worst = (0, None)
  for x, y in itertools.combinations(xs, 2):
    p, q = K[x].get(y, 0), K[y].get(x, 0)
    se = math.sqrt((pi[x] ** 2 * max(p * (1 - p), 1e-9)
                    + pi[y] ** 2 * max(q * (1 - q), 1e-9)) / n)
    z = abs(pi[x] * p - pi[y] * q) / se
    if z > worst[0]:
      worst = (z, (x, y, p, q))
  return worst


def verdict(z, limit=6.5):
  print('worst flow z-score', z)
  sys.exit(1 if z[0] > limit else 0)
