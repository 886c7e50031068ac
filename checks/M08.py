"""Neighbourhood log-ratios are exact differences of the energy."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out




def _binary(label, m, p, shape, mask=None):
  """4-tuple protocol: value, log-ratio of flipping each site, calls, move."""
  import jax.numpy as jnp
  X = M.pick(2, shape, 16)
  D = int(np.prod(shape))
  B = len(X)
  Xf = X.reshape(B, D)
  N = np.stack([Xf] * D, 1)
  for i in range(D):
    N[:, i, i] = 1 - N[:, i, i]
  keep = np.ones(D, bool) if mask is None else np.asarray(mask).reshape(-1)
  idx = np.arange(B) % D

  def fn(q):
    ll, lr, _, move = m.logratio_in_neighborhood(q, jnp.asarray(X))
    lr = lr.reshape(B, D)[:, keep]
    nb = m.forward(q, jnp.asarray(N.reshape((B * D,) + tuple(shape))))
    cur = m.forward(q, jnp.asarray(X))
    diff = (nb.reshape(B, D) - cur[:, None])[:, keep]
    y = move(q, jnp.asarray(X), jnp.asarray(idx))
    return ll, lr, y, cur, diff

  def oracle(out):
    cur, diff = F.arr(out[3]), F.arr(out[4])
    y = Xf.copy()
    y[np.arange(B), idx] = 1 - y[np.arange(B), idx]
    return cur, diff, y.reshape(X.shape), cur, diff
  return F.Contract(label, fn, (p,), oracle)


def bernoulli(shape):
  m, p = M.bernoulli(shape)
  return [_binary('bernoulli', m, p, shape)]


def co(kind, n, pad, epad, edges, kw):
  gen = M.co_gen(kind, n + pad, len(edges) + epad)
  m = M.co_model(kind, gen, **dict(kw))
  g = M.graph(n, edges, sym=kind == 'maxcut')
  p, _ = M.graph_params(gen, g, Sym('temp', (), pos=True))
  return [_binary(kind, m, p, (n + pad,), np.arange(n + pad) < n)]


def normcut(n, C, epad, edges, kw):
  import jax.numpy as jnp
  gen = M.co_gen('normcut', n, len(edges) + epad, C)
  m = M.co_model('normcut', gen, **dict(kw))
  g = M.graph(n, edges)
  p, _ = M.graph_params(gen, g, Sym('temp', (), pos=True))
  # states where no move empties a category keep the terms of moderate size
  X = M.pick(C, (n,), 81)
  B = len(X)
  N = np.stack([np.stack([X] * C, 1)] * n, 1)
  for i in range(n):
    for c in range(C):
      N[:, i, c, i] = c

  def fn(q):
    ll, lr, _, _ = m.logratio_in_neighborhood(q, jnp.asarray(X))
    ll2, lr2, _, _ = m.logratio_in_neighborhood(q, jnp.asarray(M.onehot(X, C)))
    nb = m.forward(q, jnp.asarray(N.reshape(-1, n))).reshape(B, n, C)
    cur = m.forward(q, jnp.asarray(X))
    diff = nb - cur[:, None, None]
    return ll, lr, ll2, lr2, cur, diff

  def oracle(out):
    cur, diff = F.arr(out[4]), F.arr(out[5])
    return cur, diff, cur, diff, cur, diff
  return [F.Contract('normcut', fn, (p,), oracle, tol=1e-2)]


TRI = ((0, 1), (1, 2), (0, 2))
PATH = ((1, 2), (0, 1))


def configs(tier):
  out = [dict(case='bernoulli', args=(s,)) for s in ((2,), (4,), (2, 2))]
  out += [dict(case='co', args=a) for a in (
      ('maxcut', 3, 0, 0, TRI, ()), ('maxcut', 3, 1, 2, PATH, ()),
      ('maxcut', 4, 0, 1, ((0, 2), (3, 1), (0, 3)), ()),
      ('mis', 3, 0, 0, TRI, (('penalty', 1.5),)), ('mis', 3, 1, 2, PATH, ()),
      ('mis', 4, 0, 1, ((0, 2), (3, 1), (0, 3)), (('penalty', 3.0),)))]
  out += [dict(case='normcut', args=a) for a in (
      (3, 2, 0, TRI, (('penalty', 0.0),)), (3, 2, 2, PATH, (('penalty', 0.0),)),
      (3, 3, 1, TRI, (('penalty', 0.0),)),
      (3, 2, 1, PATH, (('penalty', 1.5), ('stype', 'quad'), ('tolerance', 0.1))),
      (4, 3, 1, ((0, 2), (3, 1), (0, 3)), (('penalty', 0.5), ('tolerance', 0.1))))]
  if tier == 'thorough':
    out += [dict(case='co', args=a) for a in (
        ('maxcut', 5, 1, 1, TRI + ((3, 4), (0, 4)), ()),
        ('mis', 5, 1, 1, TRI + ((3, 4), (0, 4)), ()))]
    out += [dict(case='normcut', args=a) for a in (
        (5, 3, 1, TRI + ((3, 4), (0, 4)), (('penalty', 0.5), ('stype', 'quad'), ('tolerance', 0.1))),
        (5, 2, 0, TRI + ((3, 4), (0, 4)), (('penalty', 0.0),)))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
