"""Gradients: get_value_and_grad is the value and derivative of forward."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out




def _vg(label, m, p, xshape):
  """Contract: value is forward, gradient its exact derivative, row by row."""
  X = Sym('x', xshape, lo=0, hi=1)

  def fn(q, x):
    ll, g = m.get_value_and_grad(q, x)
    return m.forward(q, x), ll, g

  def oracle(out):
    fw = F.arr(out[0]).reshape(-1)
    g = np.empty(xshape, dtype=object)
    for ix in np.ndindex(*xshape):
      g[ix] = F.diff(fw[ix[0]], F.varname(X.terms[ix]))
    return (fw, fw, g)
  return F.Contract(label, fn, (p, X), oracle)


def exact(name, args):
  B = 2
  if name in ('bernoulli', 'ising'):
    m, p = getattr(M, name)(*args)
    xs = (B,) + tuple(args[0])
  elif name in ('categorical', 'potts'):
    m, p = getattr(M, name)(*args)
    xs = (B,) + tuple(args[0]) + (args[1],)
  elif name == 'fhmm':
    m, p = M.fhmm(*args)
    C = args[1]
    xs = (B,) + tuple(args[0]) + ((C,) if C > 2 else ())
  elif name == 'rbm':
    m, p = M.rbm(*args)
    xs = (B, args[0]) + ((args[2],) if args[2] > 2 else ())
  return [_vg('value and gradient of %s' % name, m, p, xs)]


def co(kind, n, edges, kw):
  kw = dict(kw)
  C = kw.get('C', 2)
  gen = M.co_gen(kind, n + 1, len(edges) + 1, C)
  kw.pop('C', None)
  m = M.co_model(kind, gen, **kw)
  g = M.graph(n if kind != 'normcut' else n + 1, edges, sym=kind == 'maxcut')
  p, _ = M.graph_params(gen, g, Sym('temp', (), pos=True))
  xs = (2, n + 1) + ((C,) if kind == 'normcut' else ())
  return [_vg('value and gradient of %s' % kind, m, p, xs)]


def image(n):
  m, p, _ = M.image(n)
  return [_vg('value and gradient of the image model', m, p, (2, n))]


TRI = ((0, 1), (1, 2), (0, 2))


def configs(tier):
  out = [dict(case='exact', args=a) for a in (
      ('bernoulli', ((3,),)), ('bernoulli', ((2, 2),)),
      ('categorical', ((2,), 3)), ('categorical', ((3,), 2)),
      ('ising', ((2, 2),)), ('ising', ((3, 2),)), ('ising', ((3, 3),)),
      ('potts', ((2, 2), 3)), ('potts', ((2, 3), 2)), ('potts', ((3, 3), 3)),
      ('fhmm', ((3, 2), 2)), ('fhmm', ((2, 1), 2)), ('fhmm', ((2, 2), 3)),
      ('rbm', (2, 2, 2)), ('rbm', (3, 2, 2)), ('rbm', (2, 2, 3)))]
  out += [dict(case='co', args=a) for a in (
      ('maxcut', 3, TRI, ()), ('maxcut', 4, ((0, 2), (3, 1)), ()),
      ('mis', 3, TRI, (('penalty', 1.5),)), ('mis', 4, ((0, 2), (3, 1)), ()),
      ('maxclique', 3, TRI, ()), ('maxclique', 3, ((2, 0),), (('penalty', 3.0),)),
      ('normcut', 2, ((0, 1), (1, 2)), (('penalty', 0.0), ('C', 2))),
      ('normcut', 2, ((0, 1), (1, 2), (0, 2)), (('penalty', 1.5), ('C', 2), ('stype', 'quad'), ('tolerance', 0.1))))]
  out += [dict(case='image', args=(n,)) for n in (2, 3)]
  if tier == 'thorough':
    out += [dict(case='exact', args=a) for a in (
        ('ising', ((4, 3),)), ('potts', ((3, 3), 4)), ('fhmm', ((4, 3), 2)), ('rbm', (4, 3, 2)))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
