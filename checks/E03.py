"""Sampling runs report the chains they ran: ESS inputs, rates, metrics, samples."""
import contextlib
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


class Model:

  def __init__(self, params, x0, z):
    self.params, self.x0, self.z = params, x0, z

  def make_init_params(self, rng):
    return self.params

  def get_init_samples(self, rng, num):
    return self.z if num == 1 else self.x0

  def forward(self, params, x):
    return x.sum(-1)


@contextlib.contextmanager
def stub_ess(weights, clock):
  """TFP's estimator -> a weighted sum over time; the wall clock -> a counter."""
  import jax.numpy as jnp
  import types
  from discs.experiment import sampling
  from discs.evaluators import ess_eval  # loads what it needs
  mc = __import__("tensorflow_probability.substrates.jax.mcmc", fromlist=["x"])
  old, oldt = mc.effective_sample_size, sampling.time
  tick = [0]

  def now():
    tick[0] += 1
    return clock * tick[0]
  mc.effective_sample_size = lambda s, *a, **k: jnp.tensordot(
      weights[:s.shape[0]], s, axes=1)
  sampling.time = types.SimpleNamespace(time=now, perf_counter=now,
                                        monotonic=now, process_time=now)
  try:
    yield
  finally:
    mc.effective_sample_size, sampling.time = old, oldt


def run(steps, ess, B, dim, ndev, what, every=2):
  """what: 'ess' | 'metrics' | 'samples'."""
  x0 = Sym('x0', (B, dim), dtype=np.int32, isint=True)
  z = Sym('z', (1, dim), dtype=np.int32, isint=True)
  sh = Sym('sh', (steps, dim), dtype=np.int32, isint=True)
  c = Sym('c', (steps,), pos=True)
  dt = Sym('dt', (), pos=True)
  a = Sym('a', (steps,))
  name = dict(samples='rbm').get(what, 'bernoulli')
  cfg = L.config((dim,), evaluator='ess_eval', name='Sampling_Experiment',
                 num_models=1, batch_size=B, chain_length=steps, ess_ratio=ess,
                 save_samples=what == 'samples', save_every_steps=every,
                 get_estimation_error=what == 'error',
                 get_additional_metrics=what == 'metrics',
                 run_parallel=ndev > 1, model=dict(name=name))
  cfg.nun_saved_samples = min(B, 3)
  burn = int(steps * ess)
  kept = steps - burn

  def chain(x, s):
    """Values of every chain after each step."""
    out = []
    for t in range(steps):
      x = 2 * x + s[t]
      out.append(x)
    return out

  def fn(x0, z, sh, c, dt, a):
    import jax.numpy as jnp
    from discs.experiment import sampling
    from discs.evaluators import ess_eval

    class Sampler(L.Sampler):

      def step(self, model, rng, x, model_param, state, x_mask=None):
        t = state['steps']
        new = 2 * x + model_param['shift'][t]
        acc = jnp.mean(x[..., 0]) * model_param['a'][t]
        return new, dict(steps=t + 1, num_ll_calls=state['num_ll_calls'] + 3), acc

      def make_init_state(self, rng):
        return dict(steps=jnp.zeros((), jnp.int32),
                    num_ll_calls=jnp.zeros((), jnp.int32))
    sv = L.saver(cfg)
    par = sh[0] + 1
    params = dict(shift=sh, a=a, params=par)
    with L.devices(ndev), L.quiet(), stub_ess(c, dt):
      ex = sampling.Sampling_Experiment(cfg)
      ex.get_results(Model(params, x0, z), Sampler(),
                     ess_eval.build_evaluator(cfg), sv)
    rec = dict(sv.out)
    if what == 'metrics':
      return [list(rec['Acc Ratio']), list(rec['Hops'])]
    if what == 'ess':
      r = rec['csv']
      rt = r['Time']
      m = [r[k] for k in ('ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE')]
      m = [jnp.reshape(v, (-1,)) for v in m]
      return [m[0][0], m[1][0], m[3][0], m[2][0] * rt,
              m[1][1] * m[0][0] - m[1][0] * m[0][1],
              m[2][1] * m[0][0] - m[2][0] * m[0][1],
              m[3][1] * m[0][0] - m[3][0] * m[0][1], len(m), m[0][1] ** 2]
    y = rec['samples']['trajectory'] if isinstance(
        rec['samples'], dict) else rec['samples']
    ref = chain(x0, sh)
    saved = [t for t in range(1, steps + 1) if t % every == 0]
    # the first coordinate is 2^t (id of the chain + 1)
    ids = [[y[k][j][0] / 2**t for j in range(y[k].shape[0])]
           for k, t in enumerate(saved)]
    out = [len(y), len(ids[0]), int(len({int(v) for v in ids[0]}) == len(ids[0])),
           int(all([int(v) for v in r] == [int(v) for v in ids[0]] for r in ids))]
    if what == 'error':
      out.append(rec['params'] - par)
    for k, t in enumerate(saved):
      for j, v in enumerate(ids[k]):
        out.append(jnp.reshape(y[k][j], (-1,))[1:] - ref[t - 1][int(v) - 1][1:])
    return out

  def oracle():
    xs = []
    cur = [list(r) for r in x0.terms]
    prev = cur
    hops, accs, mapped = [], [], []
    for t in range(steps):
      new = [[T.add(T.mul(2, v), sh.terms[t][d]) for d, v in enumerate(r)]
             for r in cur]
      hops.append(T.div(M.tsum([T.absv(T.sub(new[b][d], cur[b][d]))
                                for b in range(B) for d in range(dim)]), B))
      accs.append(T.mul(a.terms[t], T.div(M.tsum([r[0] for r in cur]), B)))
      cur = new
      mapped.append([M.tsum([T.absv(T.sub(r[d], z.terms[0][d]))
                             for d in range(dim)]) for r in cur])
    if what == 'metrics':
      return M.vec(accs + hops)
    if what == 'ess':
      tail = mapped[burn:]
      e = T.div(M.tsum([T.mul(c.terms[k], v) for k, r in enumerate(tail)
                        for v in r]), B)
      es = [M.tsum([T.mul(c.terms[k], r[b]) for k, r in enumerate(tail)])
            for b in range(B)]
      var = T.div(M.tsum([T.powq(T.sub(v, e), 2) for v in es]), B)
      share = T.sub(1, T.const(_frac(ess)))
      return M.vec([e, T.div(e, T.mul(steps, share)),
                    T.div(e, T.mul(3 * steps, share)), e] + [T.const(0)] * 3
                   + [T.const(4), var])
    n = len([t for t in range(1, steps + 1) if t % every == 0])
    k = min(B, 3)
    return M.vec([T.const(v) for v in (n, k, 1, 1)]
                 + [T.const(0)] * (n * k * (dim - 1)
                                   + (dim if what == 'error' else 0)))
  if what in ('samples', 'error'):
    x0 = _tagged(x0)
    sh = _untagged(sh)
  return [eager.Contract('%s of the run' % what, fn, (x0, z, sh, c, dt, a),
                         oracle)]


def _frac(r):
  from fractions import Fraction
  return Fraction(r).limit_denominator(100)


def _tagged(s):
  s.terms[:, 0] = [T.const(b + 1) for b in range(s.terms.shape[0])]
  return s


def _untagged(s):
  s.terms[:, 0] = [T.const(0)] * s.terms.shape[0]
  return s


def configs(tier):
  # steps, ess_ratio, chains, dim, devices
  q = [('ess', (4, .5, 2, 1, 1)), ('ess', (5, .5, 2, 1, 2)),
       ('ess', (5, .2, 2, 1, 1)), ('ess', (4, .75, 3, 2, 1)),
       ('ess', (3, .5, 4, 1, 2)),
       ('metrics', (4, .5, 2, 2, 1)), ('metrics', (3, .5, 4, 1, 2)),
       ('metrics', (5, .2, 3, 1, 1)),
       ('samples', (5, .5, 4, 2, 1)), ('samples', (4, .5, 4, 2, 2)),
       ('samples', (7, .3, 3, 3, 1)), ('error', (4, .5, 4, 2, 1)),
       ('error', (5, .5, 2, 2, 2))]
  if tier == 'thorough':
    q += [('ess', (6, .3, 3, 2, 1)), ('ess', (6, .5, 6, 2, 2)),
          ('metrics', (8, .6, 4, 2, 4)), ('samples', (12, .5, 6, 2, 2))]
  out = [dict(case='run', args=a + (w,)) for w, a in q]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
