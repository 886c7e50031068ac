"""Experiment harness: real experiment classes driven by table-driven stubs."""
import contextlib

import numpy as np
import jax
import jax.numpy as jnp
from ml_collections import config_dict


def config(shape, **exp):
  from discs.common import configs
  c = configs.get_config()
  c.unlock()
  c.model.shape = tuple(shape)
  c.model.num_categories = 2
  c.sampler.name = 'stub'
  c.experiment.run_parallel = False
  c.experiment.save_root = ''
  m = exp.pop('model', {})
  c.model.update(m)
  c.experiment.update(config_dict.ConfigDict(exp))
  return c


class Sampler:
  """Step t of a chain moves to the t-th entry of the table in the params.

  The acceptance it reports is a function of the temperature and the table, so
  that what the experiment passes in is visible in what it reports.
  """

  def __init__(self, acc=None):
    self.acc = acc

  def make_init_state(self, rng):
    return dict(steps=jnp.zeros((), jnp.int32),
                num_ll_calls=jnp.zeros((), jnp.int32))

  def step(self, model, rng, x, model_param, state, x_mask=None):
    t = state['steps']
    new = model_param['traj'][t]
    acc = self.acc(model_param, t, x, rng, x_mask) if self.acc else (
        jnp.zeros(()))
    return new, dict(steps=t + 1, num_ll_calls=state['num_ll_calls'] + 3), acc


class _Rows:
  """Stand-in for a csv writer: remembers the rows."""

  def __init__(self, f, *a, **k):
    self.rows = _Rows.last = []

  def writerow(self, r):
    self.rows.append(list(r))

  def writerows(self, rs):
    for r in rs:
      self.writerow(r)


@contextlib.contextmanager
def _recorded(out):
  """What is pickled, plotted or written as csv meanwhile goes to out."""
  import csv
  import os
  import pickle
  import matplotlib.pyplot as plt
  from symx import eager

  def sym(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
      return eager.wrap(v)
    if isinstance(v, dict):
      return {k: sym(w) for k, w in v.items()}
    return v

  def dump(obj, f, *a, **k):
    name = os.path.splitext(os.path.basename(f.name))[0]
    if isinstance(obj, dict) and set(obj) == {name}:
      obj = obj[name]
    out.append((name, sym(obj)))
  drawn = []

  def plot(x, y=None, *a, **k):
    drawn.append(list(x if y is None or isinstance(y, str) else y))

  def savefig(path, *a, **k):
    out.append((os.path.basename(path).split('_')[0], drawn.pop()))
  none = lambda *a, **k: None
  real = {k: getattr(np, k) for k in ('array', 'asarray', 'stack')}

  def array(k):
    def f(x, *a, **kw):
      if isinstance(x, (list, tuple)) and any(
          isinstance(v, eager.SymTracer) for v in x):
        return eager.terms_of(list(x))
      return real[k](x, *a, **kw)
    return f
  _Rows.last = None
  with patched((pickle, 'dump', dump), (plt, 'plot', plot),
               (plt, 'savefig', savefig), (csv, 'writer', _Rows),
               *[(np, k, array(k)) for k in real],
               *[(plt, k, none) for k in ('xlabel', 'ylabel', 'ylim', 'title',
                                          'close', 'figure', 'clf', 'legend')]):
    yield
  if _Rows.last:
    out.append(('csv', dict(zip(*_Rows.last[:2]))))


def saver(cfg):
  """The real saver; what it writes is recorded in .out."""
  import tempfile
  from discs.common import experiment_saver
  tmp = tempfile.TemporaryDirectory(prefix='symx')
  cfg.experiment.save_root = tmp.name
  sv = experiment_saver.build_saver(cfg)
  sv.out, sv.tmp = [], tmp

  def wrap(f):
    def g(*a, **k):
      with _recorded(sv.out):
        return f(*a, **k)
    return g
  for n in dir(sv):
    if not n.startswith('_') and callable(getattr(sv, n)) and hasattr(
        getattr(sv, n), '__func__'):
      setattr(sv, n, wrap(getattr(sv, n)))
  return sv


@contextlib.contextmanager
def devices(n):
  """n local devices: pmap is a vmap over the leading device axis."""
  names = ('local_device_count', 'device_count', 'pmap', 'device_put_replicated',
           'local_devices')
  old = {k: getattr(jax, k) for k in names}
  dev = old['local_devices']()[0]
  try:
    if n != 1:
      jax.local_device_count = lambda *a, **k: n
      jax.device_count = lambda *a, **k: n
      jax.local_devices = lambda *a, **k: [dev] * n
      jax.pmap = lambda f, *a, **k: jax.vmap(f)
      jax.device_put_replicated = lambda x, d: jax.tree_util.tree_map(
          lambda v: jnp.stack([jnp.asarray(v)] * n), x)
    yield
  finally:
    for k in names:
      setattr(jax, k, old[k])


@contextlib.contextmanager
def patched(*what):
  """(module, name, value): replaced there and wherever discs imported it."""
  import sys
  old = []
  for mod, name, value in what:
    was = getattr(mod, name)
    places = [(mod, name)] + [
        (m, n) for k, m in list(sys.modules.items())
        if m is not None and k.startswith('discs') for n, v in list(vars(m).items())
        if v is was]
    for m, n in places:
      old.append((m, n, getattr(m, n)))
      setattr(m, n, value)
  try:
    yield
  finally:
    for m, n, v in reversed(old):
      setattr(m, n, v)


def process(index, count):
  return patched((jax, 'process_index', lambda *a: index),
                 (jax, 'process_count', lambda *a: count))


@contextlib.contextmanager
def scratch():
  import shutil
  import tempfile
  d = tempfile.mkdtemp(prefix='symx')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
  """No progress bars and prints."""
  import io
  with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
      io.StringIO()):
    yield


@contextlib.contextmanager
def settings(node, **kw):
  """Config fields that may hold symbolic values."""
  old = {k: node.get(k, None) for k in kw}
  had = set(node.keys())
  node.unlock()
  for k, v in kw.items():
    node._fields[k] = v
  try:
    yield
  finally:
    for k in kw:
      if k in had:
        node._fields[k] = old[k]
      else:
        del node._fields[k]
