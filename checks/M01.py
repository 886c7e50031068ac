"""Factorised models: energy and exact moments."""
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, crash_record  # noqa

_me = sys.modules[__name__]


def bernoulli(shape):
  m, p = M.bernoulli(shape)
  X = M.states(2, shape)
  th = p['params'].terms.reshape(-1)
  D = th.size

  def energy(out):
    return M.vec([M.tsum(th[i] for i in range(D) if x.reshape(-1)[i])
                  for x in X])

  def mean():
    W = [T.exp(e) for e in energy(None)]
    z = M.tsum(W)
    return [T.div(M.tsum(w for w, x in zip(W, X) if x.reshape(-1)[i]), z)
            for i in range(D)]
  return [
      F.Contract('log-likelihood is the sum of the active natural parameters',
                 m.forward, (p, X), energy),
      F.Contract('expected value is the mean under the model',
                 lambda q: m.get_expected_val(q), (p,),
                 lambda out: M.vec(mean())),
      F.Contract('variance is the variance under the model',
                 lambda q: m.get_var(q), (p,),
                 lambda out: M.vec([T.mul(e, T.sub(1, e)) for e in mean()])),
  ]


def categorical(shape, C):
  m, p = M.categorical(shape, C)
  X = M.pick(C, shape)
  th = p['params'].terms.reshape(-1, C)

  def energy(out):
    return M.vec([M.tsum(th[i, v] for i, v in enumerate(x.reshape(-1)))
                  for x in X])
  return [F.Contract('log-likelihood is the sum of the chosen logits',
                     m.forward, (p, X), energy)]


def configs(tier):
  out = [dict(case='bernoulli', args=((1,),)), dict(case='bernoulli', args=((2,),)),
         dict(case='bernoulli', args=((2, 2),)),
         dict(case='categorical', args=((2,), 3)), dict(case='categorical', args=((2, 2), 2)),
         dict(case='categorical', args=((3,), 4))]
  if tier == 'thorough':
    out += [dict(case='bernoulli', args=((5,),)),
            dict(case='categorical', args=((4,), 5))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
