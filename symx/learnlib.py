"""Training harness: the real trainers with their missing dependencies stubbed.

torch, tensorflow_datasets and discs.common.plot (absent from the repository)
are replaced by empty modules, command line flags are not defined, and GPU set-up
at import is skipped; none of them takes part in training.
"""
import contextlib
import importlib
import sys
import types
from unittest import mock

import numpy as np
import jax
import jax.numpy as jnp

from symx import explib as L


def load(name):
  """Module of discs.learning, e.g. 'train' or 'rbm.main_rbm_training'."""
  full = 'discs.learning.' + name
  if full in sys.modules:
    return sys.modules[full]
  import tensorflow as tf
  from absl import flags
  from ml_collections import config_flags
  for n in ('torch', 'torch.utils', 'torch.utils.data', 'torchvision',
            'torchvision.transforms', 'tensorflow_datasets',
            'discs.common.plot'):
    try:
      importlib.import_module(n)
    except Exception:  # pylint: disable=broad-except
      sys.modules[n] = types.ModuleType(n)
      if '.' in n:
        p, c = n.rsplit('.', 1)
        setattr(sys.modules[p], c, sys.modules[n])
  nop = lambda *a, **k: None
  with contextlib.ExitStack() as s:
    for o, a, v in ([(flags, k, nop) for k in dir(flags)
                     if k.startswith('DEFINE_')] +
                    [(config_flags, 'DEFINE_config_file', nop),
                     (tf.config, 'list_physical_devices', lambda *a: [0] * 8),
                     (tf.config.experimental, 'set_memory_growth', nop)]):
      s.enter_context(mock.patch.object(o, a, v))
    with L.quiet():
      return importlib.import_module(full)


@contextlib.contextmanager
def devices(n):
  """n local devices, also when n is 1: pmap is a named vmap."""
  old = jax.pmap
  with L.devices(n):
    jax.pmap = lambda f, axis_name='p', **k: jax.vmap(f, axis_name=axis_name)
    try:
      yield
    finally:
      jax.pmap = old


class Model:
  """ll(x) = a.x + (b.x)^2 with parameters a and b."""

  def __init__(self, n):
    self.shape = (n,)

  def make_init_params(self, rng):
    return dict(a=jnp.zeros(self.shape), b=jnp.zeros(self.shape))

  def get_init_samples(self, rng, num_samples):
    return jnp.zeros((num_samples,) + self.shape)

  def forward(self, params, x):
    return jnp.sum(params['a'] * x, -1) + jnp.sum(params['b'] * x, -1) ** 2


class Sampler:
  """x' = x * (1 + a) + (number of steps so far); may draw with the key."""

  def __init__(self, outs, draw=False):
    self.outs, self.draw = outs, draw

  def make_init_state(self, rng):
    return jnp.zeros(())

  def step(self, model, rng, x, model_param, state, x_mask=None):
    if self.draw:
      jax.random.uniform(rng, x.shape)
    new = x * (1 + model_param['a']) + state
    return (new, state + 1, jnp.zeros(()))[:self.outs]


def config(kind, **exp):
  m = load({'rbm': 'rbm.exp_config', 'ebm': 'binary_ebm.exp_config'}[kind])
  c = m.get_config({'rbm': 'mnist-2-25', 'ebm': 'static_mnist-8'}[kind])
  c.unlock()
  c.experiment.update(exp)
  return c


def trainer(kind, cfg, n, x_train=None, draw=False):
  if kind == 'rbm':
    m = load('rbm.main_rbm_training')
    return m.RBMTrainer(cfg, Model(n), Sampler(2, draw))
  m = load('binary_ebm.main_binary_training')
  return m.EBMTrainer(cfg, Model(n), Sampler(3, draw), x_train)

