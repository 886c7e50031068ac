"""RBM: free energy and block Gibbs conditionals."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out


def _joint(p, v, h, C):
  """log of the joint weight of visible v and hidden h."""
  t = []
  nv = len(v)
  for i in range(nv):
    if C == 2:
      if v[i]:
        t.append(p['b_v'].terms[i])
    else:
      t.append(p['b_v'].terms[i, int(v[i])])
  for j, hj in enumerate(h):
    if hj:
      t.append(p['b_h'].terms[j])
      for i in range(nv):
        if C == 2:
          if v[i]:
            t.append(p['w'].terms[i, j])
        else:
          t.append(p['w'].terms[j, i, int(v[i])])
  return M.tsum(t)


def _bits(n):
  return list(itertools.product(range(2), repeat=n))


def free(nv, nh, C):
  m, p = M.rbm(nv, nh, C)
  X = M.pick(C, (nv,), 64)
  return [F.Contract('log-likelihood marginalises the hidden units',
                     lambda q, x: m.forward(q, x), (p, X),
                     lambda out: M.vec([T.log(M.tsum(
                         T.exp(_joint(p, x, h, C)) for h in _bits(nh)))
                                        for x in X]),
                     under=T.exp)]


def cond(nv, nh):
  m, p = M.rbm(nv, nh, 2)
  out = []
  for v in _bits(nv):
    x = np.array([v], np.float32)
    z = M.tsum(T.exp(_joint(p, v, h, 2)) for h in _bits(nh))
    out.append(F.Law('hidden units are drawn from p(h | v=%s)' % (v,),
                     lambda key, q, x=x: m.step_h(q, key, x), (p,), F.ints,
                     lambda o, v=v, z=z: T.div(T.exp(_joint(p, v, o, 2)), z),
                     _bits(nh)))
  for h in _bits(nh):
    x = np.array([h], np.float32)
    z = M.tsum(T.exp(_joint(p, v, h, 2)) for v in _bits(nv))
    out.append(F.Law('visible units are drawn from p(v | h=%s)' % (h,),
                     lambda key, q, x=x: m.step_v(q, key, x), (p,), F.ints,
                     lambda o, h=h, z=z: T.div(T.exp(_joint(p, o, h, 2)), z),
                     _bits(nv)))
  return out


def configs(tier):
  out = [dict(case='free', args=a) for a in ((1, 1, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 1, 4), (1, 2, 3))]
  out += [dict(case='cond', args=a) for a in ((1, 1), (2, 1), (1, 2), (2, 2))]
  if tier == 'thorough':
    out += [dict(case='free', args=(4, 3, 2)), dict(case='cond', args=(3, 2)), dict(case='cond', args=(2, 3))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
