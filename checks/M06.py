"""Energies do not depend on how samples are represented or batched."""
import itertools
import sys

import jax.numpy as jnp
import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out




def _rep(label, m, p, X, C, onehot, flt=True):
  Xf = X.astype(np.float32)
  reps = [X] + ([Xf] if flt else []) + ([M.onehot(X, C)] if onehot else [])

  def fn(q):
    J = jnp.asarray
    one = [m.forward(q, J(X[i:i + 1])).reshape(-1)[0] for i in range(len(X))]
    return [m.forward(q, J(r)) for r in reps], one

  def oracle(out):
    one = M.vec([F.arr(v).reshape(-1)[0] for v in out[1]])
    return [one] * len(reps), one
  return F.Contract(label, fn, (p,), oracle)


def exact(name, args):
  C = 2
  if name in ('bernoulli', 'ising'):
    m, p = getattr(M, name)(*args)
    shape = args[0]
  elif name in ('categorical', 'potts'):
    m, p = getattr(M, name)(*args)
    shape, C = args
  elif name == 'fhmm':
    m, p = M.fhmm(*args)
    shape, C = args
  else:
    m, p = M.rbm(*args)
    shape, C = (args[0],), args[2]
  onehot = name in ('categorical', 'potts') or C > 2
  return [_rep('%s: integer, float and one-hot samples, any batch' % name, m, p,
               M.pick(C, shape, 16), C, onehot)]


def co(kind, n, edges, kw):
  kw = dict(kw)
  C = kw.get('C', 2)
  gen = M.co_gen(kind, n + 1, len(edges) + 1, C)
  kw.pop('C', None)
  m = M.co_model(kind, gen, **kw)
  g = M.graph(n if kind != 'normcut' else n + 1, edges, sym=kind == 'maxcut')
  p, _ = M.graph_params(gen, g, Sym('temp', (), pos=True))
  return [_rep('%s: integer, float and one-hot samples, any batch' % kind, m, p,
               M.pick(C, (n + 1,), 16), C, kind == 'normcut')]


def image(n):
  m, p, _ = M.image(n)
  return [_rep('image model: integer and float samples, any batch', m, p,
               M.pick(2, (n,), 16), 2, False)]


TRI = ((0, 1), (1, 2), (0, 2))


def configs(tier):
  out = [dict(case='exact', args=a) for a in (
      ('bernoulli', ((3,),)), ('bernoulli', ((2, 2),)),
      ('categorical', ((2,), 3)), ('categorical', ((3,), 3)), ('categorical', ((2, 2), 2)),
      ('ising', ((2, 2),)), ('ising', ((3, 2),)), ('ising', ((3, 3),)),
      ('potts', ((2, 2), 3)), ('potts', ((2, 3), 2)), ('potts', ((3, 3), 3)),
      ('fhmm', ((3, 2), 2)), ('fhmm', ((2, 1), 2)), ('fhmm', ((2, 2), 3)),
      ('fhmm', ((2, 3), 3)), ('fhmm', ((3, 4), 4)), ('fhmm', ((3, 2), 3)),
      ('rbm', (2, 2, 2)), ('rbm', (3, 2, 2)), ('rbm', (2, 2, 3)), ('rbm', (3, 2, 3)))]
  out += [dict(case='co', args=a) for a in (
      ('maxcut', 3, TRI, ()), ('maxcut', 4, ((0, 2), (3, 1)), ()),
      ('mis', 3, TRI, (('penalty', 1.5),)), ('mis', 4, ((0, 2), (3, 1)), ()),
      ('maxclique', 3, TRI, ()), ('maxclique', 3, ((2, 0),), (('penalty', 3.0),)),
      ('normcut', 2, ((0, 1), (1, 2)), (('penalty', 0.0), ('C', 2))),
      ('normcut', 3, ((0, 1), (1, 2), (0, 2)), (('penalty', 1.5), ('C', 2), ('stype', 'quad'), ('tolerance', 0.1))),
      ('normcut', 3, ((0, 1), (1, 2), (0, 2)), (('penalty', 1.5), ('C', 3), ('stype', 'span'), ('tolerance', 0.1))))]
  out += [dict(case='image', args=(n,)) for n in (2, 3)]
  if tier == 'thorough':
    out += [dict(case='exact', args=a) for a in (
        ('ising', ((4, 3),)), ('potts', ((3, 3), 4)), ('fhmm', ((4, 3), 2)), ('rbm', (4, 3, 2)))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
