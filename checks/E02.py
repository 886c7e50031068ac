"""Annealing: the temperature every chain sees follows the configured schedule."""
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa
from checks import E01

_me = sys.modules[__name__]


def sched(kind, steps, models, B, every, ndev, ess):
  """The stub sampler reports temperature * weight of its instance."""
  t0, t1 = Sym('t0', (), pos=True), Sym('t1', (), pos=True)
  dr = Sym('decay', (), pos=True)
  w = Sym('w', (models,))
  rows = B // ndev if models < ndev else B
  x = Sym('x', (steps, rows), dtype=np.int32, isint=True)
  cfg = L.config((1,), evaluator='co_eval', name='CO_Experiment',
                 num_models=models, batch_size=B, chain_length=steps,
                 log_every_steps=every, save_samples=False, t_schedule=kind,
                 run_parallel=ndev > 1, get_additional_metrics=True,
                 ess_ratio=ess, model=dict(name='maxcut'))

  def fn(t0, t1, dr, w, x):
    import jax.numpy as jnp
    from discs.experiment import sampling
    from discs.evaluators import co_eval
    gen = E01.Instances([x[..., None]] * models, [1.0] * models,
                        [w[i] for i in range(models)])
    sv = L.saver(cfg)
    smp = L.Sampler(acc=lambda p, t, x, rng, mask: p['temperature'] * p['w'])
    with L.devices(ndev), L.quiet(), L.settings(
        cfg.experiment, init_temperature=t0, final_temperature=t1,
        decay_rate=dr):
      ex = sampling.CO_Experiment(cfg)
      ex.get_results(E01.Model(gen, models, 1), smp,
                     co_eval.build_evaluator(cfg), sv)
    acc = [v for k, v in sv.out if k == 'Acc Ratio'][0]
    best = [v for k, v in sv.out if k == 'results'][0]
    return [list(acc), best['best_ratio']]

  def temp(s):
    a, b = t0.terms[()], t1.terms[()]
    if kind == 'constant':
      return a
    if kind == 'linear':
      return T.add(a, T.mul(T.sub(b, a), T.div(s, steps)))
    from fractions import Fraction
    v = T.mul(a, T.powq(dr.terms[()], Fraction(s, steps)))
    return T.fmax(v, b)

  def oracle():
    mw = T.div(M.tsum(list(w.terms)), models)
    best = None
    for s in range(every, steps + 1, every):
      for v in x.terms[s - 1]:
        best = v if best is None else T.fmax(best, v)
    return M.vec([T.mul(temp(s), mw) for s in range(1, steps + 1)]
                 + [T.div(best, 2)] * models)
  assume = []
  if kind == 'exp_decay':
    assume = [T.lt(dr.terms[()], T.const(1))]
  return [eager.Contract('temperature of every step', fn, (t0, t1, dr, w, x),
                         oracle, assume=assume)]


def configs(tier):
  # schedule, steps, models, chains, log_every, devices, burn-in share
  out = [dict(case='sched', args=a) for a in (
      ('constant', 4, 1, 1, 2, 1, .5), ('constant', 3, 2, 2, 3, 2, .5),
      ('linear', 5, 1, 1, 5, 1, .5), ('linear', 4, 3, 2, 2, 1, .25),
      ('linear', 3, 1, 2, 3, 2, .7), ('linear', 8, 2, 1, 4, 1, 1.0),
      ('exp_decay', 4, 1, 1, 2, 1, .5), ('exp_decay', 3, 2, 2, 3, 1, 0.),
      ('exp_decay', 3, 2, 1, 3, 2, .5))]
  if tier == 'thorough':
    out += [dict(case='sched', args=a) for a in (
        ('constant', 16, 2, 2, 8, 1, .5), ('linear', 16, 2, 2, 8, 2, .3),
        ('exp_decay', 6, 2, 2, 3, 2, .5), ('exp_decay', 8, 1, 1, 4, 1, .9),
        ('linear', 32, 1, 1, 8, 1, .5))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
