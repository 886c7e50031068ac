"""Image model: data-mean base measure and annealing path."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out




def path(n, temp, given):
  """given: data mean from the configuration or from loaded parameters."""
  from discs.models import resnet
  _, p, mu = M.image(n)
  X = M.pick(2, (n,), 16)
  be = Sym('beta', (), lo=0, hi=1)
  eps = T.lift_const(float(np.float32(1e-20)))
  lm = [(T.log(T.add(T.sub(1, m), eps)), T.log(T.add(m, eps))) for m in mu.terms]

  def make(mu):
    kw = dict(data_mean=mu) if given == 'config' else dict(
        params=dict(data_mean=mu))
    if given == 'none':
      kw = {}
    m = resnet.build_model(M.cfg(num_categories=2, shape=(n,), n_channels=4,
                                 image_shape=(1, n, 1), **kw))
    m.net = M.PolyNet(n)
    return m

  def fn(q, mu, beta, x):
    q = dict(q)
    if temp:
      q['temperature'] = beta
    return make(mu).forward(q, x)

  def oracle(out):
    r = []
    for x in X:
      net = M.tsum([p['lin'].terms[i] for i in range(n) if x[i]] +
                   [p['quad'].terms[i, j] for i in range(n) for j in range(n)
                    if x[i] and x[j]])
      base = M.tsum(lm[i][int(v)] for i, v in enumerate(x))
      if given == 'none':
        r.append(net)
      else:
        r.append(T.add(base, T.mul(be.terms[()], net) if temp else net))
    return M.vec(r)
  return [F.Contract('energy is the base measure plus the annealed network',
                     fn, (p, mu, be, X), oracle)]


def configs(tier):
  out = [dict(case='path', args=(n, t, g)) for n in (1, 2, 3)
         for t in (0, 1) for g in ('config', 'params')]
  out += [dict(case='path', args=(2, t, 'none')) for t in (0, 1)]
  if tier == 'thorough':
    out += [dict(case='path', args=(4, 1, 'config'))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
