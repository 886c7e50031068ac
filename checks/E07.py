"""Runs never reuse randomness: every draw of a run has its own key."""
import importlib
import sys

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import learnlib as Q
from symx.fcheck import ASSUMPTIONS, crash_record  # noqa

_me = sys.modules[__name__]


class Model:
  """Draws from every key it is given."""
  shape = (2,)

  def __init__(self, params):
    self.params = params

  def make_init_params(self, rng):
    import jax
    for k in rng.reshape(-1, 2):
      jax.random.uniform(k, (1,))
    return self.params()

  def get_init_samples(self, rng, num):
    import jax
    return 0 * jax.random.uniform(rng, (num, 2))

  def forward(self, params, x):
    return x.sum(-1)

  evaluate = forward

  def decode(self, x, params):
    return 'words'


class Sampler(L.Sampler):

  def make_init_state(self, rng):
    import jax
    import jax.numpy as jnp
    for k in rng.reshape(-1, 2):
      jax.random.uniform(k, (1,))
    return super().make_init_state(rng)

  def step(self, model, rng, x, model_param, state, x_mask=None):
    import jax
    import jax.numpy as jnp
    u = jax.random.uniform(rng.reshape(-1)[-2:], x.shape)
    return x + 0 * u, dict(steps=state['steps'] + 1,
                           num_ll_calls=state['num_ll_calls']), jnp.zeros(())


def optimisation(count, models, B, steps, ess, ndev):
  cfg = L.config((2,), evaluator='co_eval', name='CO_Experiment',
                 num_models=models, batch_size=B, chain_length=steps,
                 log_every_steps=1, ess_ratio=ess, save_samples=False,
                 get_additional_metrics=False, t_schedule='constant',
                 init_temperature=1.0, run_parallel=ndev > 1,
                 model=dict(name='maxcut'))

  def fn():
    import jax.numpy as jnp
    from discs.experiment import sampling
    from discs.evaluators import co_eval
    E01 = importlib.import_module('checks.E01')
    gen = E01.Instances(jnp.zeros((count, steps, 2)), [1.0] * count)
    it = gen.get_iterator('test', models)
    with L.devices(ndev), L.quiet():
      ex = sampling.CO_Experiment(cfg)
      m = Model(lambda: next(it, None))
      # one batch of instances: each batch is a run of its own
      ex._get_chains_and_evaluations(m, Sampler(), co_eval.build_evaluator(cfg),
                                     L.saver(cfg))
  return [eager.Keys('draws of an optimisation run', fn,
                     least=1 + steps * max(models, ndev))]


def chains(B, steps, ess, ndev):
  cfg = L.config((2,), evaluator='ess_eval', name='Sampling_Experiment',
                 num_models=1, batch_size=B, chain_length=steps, ess_ratio=ess,
                 save_samples=False, get_estimation_error=False,
                 get_additional_metrics=False, run_parallel=ndev > 1,
                 model=dict(name='bernoulli'))
  cfg.nun_saved_samples = 1

  def fn():
    import jax.numpy as jnp
    from discs.experiment import sampling
    from discs.evaluators import ess_eval
    E03 = importlib.import_module('checks.E03')
    with L.devices(ndev), L.quiet(), E03.stub_ess(jnp.ones(steps), 1.0):
      sampling.Sampling_Experiment(cfg).get_results(
          Model(lambda: dict(params=jnp.ones(2))), Sampler(),
          ess_eval.build_evaluator(cfg), L.saver(cfg))
  return [eager.Keys('draws of a sampling run', fn, least=1 + steps * ndev)]


def ais(B, steps, ndev):
  cfg = L.config((2,), evaluator='ais', name='EBM_Experiment', num_models=1,
                 batch_size=B, chain_length=steps, run_parallel=ndev > 1)

  def fn():
    import jax.numpy as jnp
    from discs.experiment import sampling
    with L.devices(ndev), L.quiet():
      sampling.EBM_Experiment(cfg).get_results(
          Model(lambda: dict(w=jnp.ones(()))), Sampler(), None, L.saver(cfg))
  return [eager.Keys('draws of an annealed importance sampling run', fn,
                     least=1 + steps * ndev)]


def infill(count, resample, steps, ess):
  cfg = L.config((2,), evaluator='lm_eval', name='Text_Infilling_Experiment',
                 num_models=1, batch_size=1, chain_length=steps, ess_ratio=ess,
                 num_same_resample=resample, topk_num=1, use_topk=False,
                 save_samples=False, get_additional_metrics=False,
                 run_parallel=False,
                 model=dict(name='text_infilling', data_root='root'))

  def fn():
    import types
    import jax.numpy as jnp
    from discs.experiment import sampling
    it = iter([dict(w=jnp.ones(()))] * count)
    with L.quiet():
      sampling.Text_Infilling_Experiment(cfg).get_results(
          Model(lambda: next(it, None)), Sampler(),
          types.SimpleNamespace(evaluate=lambda *a: {}), L.saver(cfg))
  return [eager.Keys('draws of a text infilling run', fn,
                     least=count * resample * steps)]


def training(kind, rounds, pcd, devs):
  """The real training loop, the optimiser update included."""

  def fn():
    import contextlib
    import jax
    import jax.numpy as jnp
    import numpy as np
    from unittest import mock
    train = Q.load('train')
    cfg = Q.config(kind, optimizer='sgd', grad_norm=0.0, pcd_steps=pcd,
                   batch_size=2 * devs, buffer_size=4 * devs,
                   total_train_steps=rounds, log_every_steps=100,
                   plot_every_steps=100, save_every_steps=100, save_root='')
    with Q.devices(devs), L.quiet():
      t = Q.trainer(kind, cfg, 2, np.zeros((4, 2)), draw=True)
      g, l = t.init_states(jax.random.PRNGKey(0))
      key = jax.random.PRNGKey(1)
      data = iter([jnp.zeros((devs, 2, 2))] * rounds)
      with mock.patch.object(train.metric_writers, 'ensure_flushes',
                             lambda *a: contextlib.nullcontext()), \
          mock.patch.object(train.jax_utils, 'replicate', lambda s: (
              jax.tree_util.tree_map(lambda v: jnp.stack(
                  [jnp.asarray(v)] * devs), s))):
        t.train_loop(None, key, g, l, data)
  return [eager.Keys('draws of a training run', fn, least=rounds * pcd * devs)]


def configs(tier):
  out = [dict(case='optimisation', args=a) for a in (
      (2, 2, 2, 4, .5, 1), (3, 1, 2, 3, .3, 1), (2, 2, 2, 4, .5, 2),
      (2, 1, 4, 4, .3, 2), (4, 4, 1, 3, .5, 2))]
  out += [dict(case='chains', args=a) for a in (
      (2, 4, .5, 1), (2, 5, .3, 1), (4, 4, .5, 2))]
  out += [dict(case='ais', args=a) for a in ((2, 4, 1), (4, 3, 2))]
  out += [dict(case='infill', args=a) for a in ((2, 3, 3, .5), (1, 4, 2, .4))]
  out += [dict(case='training', args=a) for a in (
      ('rbm', 3, 2, 1), ('rbm', 2, 3, 2), ('ebm', 3, 2, 2), ('ebm', 2, 3, 1))]
  if tier == 'thorough':
    out += [dict(case='optimisation', args=(4, 2, 2, 20, .5, 2)),
            dict(case='chains', args=(4, 30, .3, 2)),
            dict(case='infill', args=(4, 10, 5, .5)),
            dict(case='training', args=('rbm', 10, 10, 2))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
