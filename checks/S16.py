"""Balancing functions and the plain locally balanced move."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]
FNS = ('SQRT', 'RATIO', 'MAX', 'MIN')


def _sampler(name, D, C=2):
  import ml_collections
  from discs.samplers import locallybalanced
  return locallybalanced.build_sampler(ml_collections.ConfigDict(dict(
      model=dict(shape=D, num_categories=C),
      sampler=dict(balancing_fn_type=name))))


def _g(name, l):
  """Weight of a move of log-ratio l."""
  if name == 'SQRT':
    return T.exp(T.div(l, 2))
  if name == 'RATIO':
    return T.div(T.exp(l), T.add(T.exp(l), 1))
  if name == 'MAX':
    return T.fmax(T.exp(l), T.const(1))
  return T.fmin(T.exp(l), T.const(1))


def weight(name, n):
  """Both scales give the named function."""
  l = Sym('l', (n,), lo=-30, hi=30)

  def fn(l):
    import jax.numpy as jnp
    s = _sampler(name, (n,))
    return jnp.exp(s.apply_weight_function_logscale(l)), s.apply_weight_function(jnp.exp(l))

  def oracle(out):
    w = M.vec([_g(name, v) for v in l.terms])
    return (w, w)
  return [F.Contract('weight %s' % name, fn, (l,), oracle)]


def balance(name, n):
  """g(t) = t g(1/t)."""
  l = Sym('l', (n,), lo=-30, hi=30)

  def fn(l):
    import jax.numpy as jnp
    s = _sampler(name, (n,))
    a = s.apply_weight_function_logscale
    w = s.apply_weight_function
    return (jnp.exp(a(l) - a(-l)), w(jnp.exp(l)) / w(jnp.exp(-l)))

  def oracle(out):
    w = M.vec([T.exp(v) for v in l.terms])
    return (w, w)
  return [F.Contract('balance of %s' % name, fn, (l,), oracle)]


def move(name, D, x):
  """A step flips one site, chosen in proportion to its weight."""
  B = len(x)
  th = Sym('r', (B, D), lo=-30, hi=30)
  x = np.asarray(x, np.int32)

  class Model:
    def logratio_in_neighborhood(self, params, x):
      import jax.numpy as jnp
      def neighbor(params, x, idx):
        rows = jnp.arange(x.shape[0])
        return x.at[rows, idx].set(1 - x[rows, idx])
      return jnp.zeros((B,)), params, 1 + D, neighbor

  def fn(key, r):
    import jax.numpy as jnp
    s = _sampler(name, (D,))
    out = s.step(Model(), key, jnp.asarray(x), r, s.make_init_state(key))
    return out[0].astype(jnp.int32)

  W = [[_g(name, v) for v in row] for row in th.terms]
  space, pr = [], {}
  for idx in itertools.product(range(D), repeat=B):
    y = x.copy()
    t = T.const(1)
    for b, i in enumerate(idx):
      y[b, i] = 1 - y[b, i]
      t = T.mul(t, T.div(W[b][i], M.tsum(W[b])))
    o = tuple(int(v) for v in y.reshape(-1))
    space.append(o)
    pr[o] = t
  return [F.Law('locally balanced move', fn, (th,), F.ints, lambda o: pr[o], space)]


def configs(tier):
  out = []
  for f in FNS:
    out += [dict(case='weight', args=(f, 2)), dict(case='balance', args=(f, 2)),
            dict(case='move', args=(f, 2, ((0, 1),))),
            dict(case='move', args=(f, 3, ((0, 1, 1),))),
            dict(case='move', args=(f, 2, ((0, 1), (1, 1))))]
    if tier == 'thorough':
      out += [dict(case='move', args=(f, 5, ((0, 1, 1, 0, 1),))),
              dict(case='move', args=(f, 3, ((0, 1, 0), (1, 1, 1))))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
