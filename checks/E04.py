"""Annealed importance sampling reports the estimate of log Z it defines."""
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def ais(steps, B, ndev):
  """log p_beta(x) = x0 + beta x1 + beta^2 x2; a step moves x to 2x + shift."""
  dim = 3
  x0 = Sym('x', (B, dim), dtype=np.int32, isint=True)
  sh = Sym('sh', (steps, dim), dtype=np.int32, isint=True)
  cfg = L.config((dim,), evaluator='ais', name='EBM_Experiment', num_models=1,
                 batch_size=B, chain_length=steps, run_parallel=ndev > 1)

  def fn(x0, sh):
    import jax.numpy as jnp
    from discs.experiment import sampling

    class Model:

      def make_init_params(self, rng):
        return dict(shift=sh)

      def get_init_samples(self, rng, num):
        return x0

      def forward(self, params, x):
        b = params['temperature']
        return x[..., 0] + b * x[..., 1] + b * b * x[..., 2]

    class Sampler(L.Sampler):

      def step(self, model, rng, x, model_param, state, x_mask=None):
        t = state['steps']
        # the step has to be taken at the new temperature
        k = jnp.round(model_param['temperature'] * steps * 8) / 8
        new = (2 * x + model_param['shift'][t] * k).astype(jnp.int32)
        return new, dict(steps=t + 1, num_ll_calls=state['num_ll_calls']), (
            jnp.zeros(()))
    sv = L.saver(cfg)
    with L.devices(ndev), L.quiet():
      sampling.EBM_Experiment(cfg).get_results(Model(), Sampler(), None, sv)
    return list(dict(sv.out)['logz'])

  def oracle():
    def fwd(r, k):
      b = T.div(k, steps)
      return T.add(r[0], T.add(T.mul(b, r[1]), T.mul(T.mul(b, b), r[2])))
    cur = [list(r) for r in x0.terms]
    w = [T.const(0)] * B
    out = []
    for k in range(1, steps + 1):
      w = [T.add(v, T.sub(fwd(r, k), fwd(r, k - 1))) for v, r in zip(w, cur)]
      out.append(T.log(T.div(M.tsum([T.exp(v) for v in w]), B)))
      cur = [[T.add(T.mul(2, v), T.mul(k, sh.terms[k - 1][d]))
              for d, v in enumerate(r)] for r in cur]
    return M.vec(out)
  return [eager.Contract('log Z estimate after every step', fn, (x0, sh), oracle)]


def configs(tier):
  q = [(1, 1, 1), (2, 2, 1), (3, 3, 1), (4, 1, 1), (2, 2, 2), (3, 4, 2)]
  if tier == 'thorough':
    q += [(8, 2, 1), (6, 4, 4), (5, 5, 1), (12, 1, 1)]
  return [dict(case='ais', args=a, label='ais %s' % (a,)) for a in q]


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
