"""Optimisation runs report the best solution seen so far, per instance."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out


from symx import eager
from symx import explib as L


class Instances:
  """Real batching of the graph loader over instances with symbolic tables."""

  def __new__(cls, traj, refs, weight=None):
    from discs.graph_loader import common

    class Gen(common.GraphGenerator):

      def __init__(self):
        super().__init__()
        self._num_instances = len(refs)

      def sample_gen(self, phase, repeat=False):
        for i in range(len(refs)):
          yield i, refs[i]

      def get_dummy_sample(self):
        return -1, 1.0

      def graph2edges(self, g):
        import jax.numpy as jnp
        t = traj[g] if g >= 0 else traj[0] * 0 + 10000   # better than any real one
        w = weight[g] if weight is not None and g >= 0 else jnp.ones(())
        return dict(traj=t, mask=jnp.ones((t.shape[-1],), jnp.int32),
                    temperature=jnp.ones(()), w=w)
    return Gen()


class Model:
  """An assignment is worth half its first entry; the second identifies it."""

  def __init__(self, gen, num_models, n):
    self.it = gen.get_iterator('test', num_models)
    self.n = n

  def make_init_params(self, rng):
    try:
      return next(self.it)
    except StopIteration:
      return None

  def get_init_samples(self, rng, num):
    import jax.numpy as jnp
    return jnp.zeros((num, self.n), jnp.int32)

  def forward(self, params, x):
    return x[..., 0] / 2 / params['temperature']

  def evaluate(self, params, x):
    return self.forward(params, x) * params['temperature']


def co(insts, models, B, steps, every, save, name, ndev):
  """insts instances, models per batch, B chains each, ndev devices."""
  n = 2
  rows = B // ndev if models < ndev else B   # replicated tables: rows per device
  tr = [Sym('x%d' % i, (steps, rows), dtype=np.int32, isint=True) for i in range(insts)]
  rf = Sym('ref', (insts,), pos=True)
  cfg = L.config((n,), evaluator='co_eval', name='CO_Experiment',
                 num_models=models, batch_size=B, chain_length=steps,
                 log_every_steps=every, save_samples=bool(save),
                 t_schedule='constant', init_temperature=2.0,
                 run_parallel=ndev > 1, model=dict(name=name))
  keep = save or name == 'normcut'

  def fn(*a):
    import jax.numpy as jnp
    from discs.experiment import sampling
    from discs.evaluators import co_eval
    *val, ref = a
    # an assignment is its value and a tag computed from the value
    traj = [jnp.stack([v, 3 * v + 7], -1) for v in val]
    gen = Instances(traj, [ref[i] for i in range(insts)])
    sv = L.saver(cfg)
    with L.devices(ndev), L.quiet():
      ex = sampling.CO_Experiment(cfg)
      ex.get_results(Model(gen, models, n), L.Sampler(),
                     co_eval.build_evaluator(cfg), sv)
    out = []
    done = 0
    for k, r in sv.out:
      if k != 'results':
        continue
      out.append((r['trajectory'], r['best_ratio'], r['best_ratio_mean']))
      if keep:
        y = jnp.asarray(r['best_samples'])
        b = jnp.asarray(r['best_ratio'])
        for j in range(min(models, insts - done)):
          q = 1.0 if name == 'mis' else ref[done + j]
          out.append((y[j, 0] / 2 / q - b[j], y[j, 1] - 3 * y[j, 0] - 7))
      done += models
    return out
  logged = [t for t in range(1, steps + 1) if t % every == 0]

  def ratio(i, t):
    v = None
    for e in tr[i].terms[t - 1]:
      v = e if v is None else T.fmax(v, e)
    v = T.div(v, 2)
    return v if name == 'mis' else T.div(v, rf.terms[i])

  def oracle():
    out = []
    for s in range(0, insts, models):
      real = list(range(s, min(insts, s + models)))
      best = {i: None for i in real}
      traj = []
      for t in logged:
        for i in real:
          r = ratio(i, t)
          best[i] = r if best[i] is None else T.fmax(best[i], r)
        traj += [best[i] for i in real]
      fin = [best[i] for i in real]
      out += traj + fin + [T.div(M.tsum(fin), len(fin))]
      if keep:
        out += [T.const(0)] * (2 * len(real))
    return M.vec(out)
  return [eager.Contract('running best ratio of every instance', fn,
                         tuple(tr) + (rf,), oracle)]


def configs(tier):
  # instances, models, chains, steps, log_every, save_samples, model, devices
  out = [dict(case='co', args=a) for a in (
      (1, 1, 2, 4, 1, 0, 'maxcut', 1), (3, 2, 2, 3, 1, 0, 'maxcut', 1),
      (2, 2, 2, 5, 2, 0, 'mis', 1), (5, 3, 1, 2, 1, 0, 'maxclique', 1),
      (1, 1, 2, 3, 1, 1, 'maxcut', 1), (2, 2, 2, 2, 1, 1, 'mis', 1),
      (3, 2, 2, 2, 2, 0, 'normcut', 1), (2, 1, 2, 2, 1, 1, 'maxclique', 1),
      (4, 4, 2, 2, 1, 0, 'maxcut', 2), (2, 2, 2, 2, 1, 1, 'mis', 2),
      (2, 1, 2, 2, 1, 0, 'maxcut', 2), (2, 1, 4, 2, 1, 1, 'maxcut', 2),
      (4, 2, 4, 2, 1, 0, 'maxcut', 4),
      (1, 1, 1, 5, 1, 1, 'maxcut', 1), (3, 2, 1, 4, 1, 0, 'normcut', 1),
      (1, 1, 2, 4, 1, 1, 'maxclique', 1))]
  if tier == 'thorough':
    out += [dict(case='co', args=a) for a in (
        (3, 2, 2, 2, 1, 1, 'mis', 2), (2, 2, 3, 3, 1, 0, 'maxcut', 1),
        (1, 1, 3, 4, 2, 1, 'maxcut', 1), (6, 4, 2, 4, 1, 0, 'maxcut', 2),
        (1, 1, 1, 9, 1, 1, 'normcut', 1), (2, 1, 4, 3, 1, 1, 'mis', 2))]
  return _label(out)



def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
