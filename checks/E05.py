"""Text infilling runs: all sentences, fresh randomness, the best ones on top."""
import sys

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def infill(count, resample, topk, steps, ess, free):
  """count sentences, each resampled; free: symbolic scores, else numbers."""
  K = 8
  a, b = Sym('a', (count, K)), Sym('b', (K,))
  if not free:
    for i in range(count):
      for k in range(K):
        a.terms[i, k] = T.const((7 * k * k + 3 * i) % 11)
        b.terms[k] = T.const(((5 * k + 2) % 7) * 20)
  cfg = L.config((2,), evaluator='lm_eval', name='Text_Infilling_Experiment',
                 num_models=1, batch_size=1, chain_length=steps, ess_ratio=ess,
                 num_same_resample=resample, topk_num=topk or 1,
                 use_topk=bool(topk), save_samples=False,
                 get_additional_metrics=False, run_parallel=False,
                 model=dict(name='text_infilling', data_root='root'))

  def fn(a, b):
    import jax
    import jax.numpy as jnp
    from discs.experiment import sampling
    log = []

    class Model:
      shape = (2,)

      def __init__(self):
        self.next = 0

      def make_init_params(self, rng):
        if self.next >= count:
          return None
        self.next += 1
        return dict(i=jnp.asarray(self.next - 1))

      def get_init_samples(self, rng, num):
        return jnp.zeros((num, 2), jnp.int32)

      def forward(self, params, x):
        k = x.astype(jnp.int32) % K
        return a[params['i'], k[..., 0]] + b[k[..., 1]]

      def decode(self, x, params):
        log.append((int(params['i']), x))
        return 's%d w%d x%d' % (int(params['i']), int(x[0][0]), int(x[0][1]))

    class Sampler(L.Sampler):

      def step(self, model, rng, x, model_param, state, x_mask=None):
        rng = rng.reshape(-1)[-2:]
        new = jax.random.randint(rng, x.shape, 0, 1 << 20)
        new = new.at[:, 1].set((new[:, 1] // 64) * 64 + state['steps'] + 1)
        return new, dict(steps=state['steps'] + 1,
                         num_ll_calls=state['num_ll_calls']), jnp.zeros(())

    class Evaluator:

      def evaluate(self, sents, root):
        return dict(sents=list(sents), root=root)
    sv = L.saver(cfg)
    with L.quiet():
      sampling.Text_Infilling_Experiment(cfg).get_results(
          Model(), Sampler(), Evaluator(), sv)
    rec = dict(sv.out)
    got = rec['results']['sents']
    want = ['s%d w%d x%d' % (i, int(x[0][0]), int(x[0][1])) for i, x in log]
    out = [int(got == want), int(len(set(got)) == len(got)),
           int([i for i, _ in log] == [
               i for i in range(count) for _ in range(resample)]),
           int(all(int(x[0][1]) % 64 == steps for _, x in log)),
           # randomness differs between resamples and between sentences
           int(len({int(x[0][0]) for _, x in log}) == len(log)),
           int(rec['results']['root'] == 'root'),
           int(('results_topk' in rec) == bool(topk))]
    if topk:
      top = rec['results_topk']['sents']
      n = min(topk, resample)
      out.append(int(len(top) == n * count and len(set(top)) == len(top)
                     and all(s in want for s in top)))
      m = Model()
      for i in range(count):
        mine = [s for s in top[i * n:(i + 1) * n]]
        ll = {s: m.forward(dict(i=i), log[j][1])[0]
              for j, s in enumerate(want) if log[j][0] == i}
        out.append(int(all(s in ll for s in mine)))
        for s in ll:
          if s not in mine:
            for t in mine:
              if t in ll:
                out.append(jnp.where(ll[t] >= ll[s], 1, 0))
    return out

  def oracle():
    n = min(topk, resample)
    k = 7 + (1 + count * (1 + n * (resample - n)) if topk else 0)
    return M.vec([T.const(1)] * k)
  return [eager.Contract('sentences of the run', fn, (a, b), oracle)]


def repeats(count, resample, topk, V):
  """Infillings may coincide: V different texts, each as often as drawn."""
  a = Sym('a', (count, V))
  cfg = L.config((1,), evaluator='lm_eval', name='Text_Infilling_Experiment',
                 num_models=1, batch_size=1, chain_length=1, ess_ratio=.5,
                 num_same_resample=resample, topk_num=topk, use_topk=True,
                 save_samples=False, get_additional_metrics=False,
                 run_parallel=False,
                 model=dict(name='text_infilling', data_root='root'))

  def fn(a):
    import collections
    import jax
    import jax.numpy as jnp
    from discs.experiment import sampling
    log = []

    class Model:
      shape = (1,)
      next = 0

      def make_init_params(self, rng):
        if self.next >= count:
          return None
        self.next += 1
        return dict(i=jnp.asarray(self.next - 1))

      def get_init_samples(self, rng, num):
        return jnp.zeros((num, 1), jnp.int32)

      def forward(self, params, x):
        return a[params['i'], x[:, 0].astype(jnp.int32)]

      def decode(self, x, params):
        log.append((int(params['i']), int(x[0][0])))
        return 's%d w%d' % log[-1]

    class Sampler(L.Sampler):

      def step(self, model, rng, x, model_param, state, x_mask=None):
        new = jax.random.randint(rng.reshape(-1)[-2:], x.shape, 0, V)
        return new, dict(steps=state['steps'] + 1,
                         num_ll_calls=state['num_ll_calls']), jnp.zeros(())

    class Evaluator:

      def evaluate(self, sents, root):
        return dict(sents=list(sents))
    sv = L.saver(cfg)
    with L.quiet():
      sampling.Text_Infilling_Experiment(cfg).get_results(
          Model(), Sampler(), Evaluator(), sv)
    rec = dict(sv.out)
    top = rec['results_topk']['sents']
    n = min(topk, resample)
    out = [int(rec['results']['sents'] == ['s%d w%d' % p for p in log]),
           int(len(log) == count * resample), int(len(top) == n * count)]
    for i in range(count):
      al = collections.Counter('s%d w%d' % p for p in log if p[0] == i)
      mine = collections.Counter(top[i * n:(i + 1) * n])
      out.append(int(all(mine[s] <= al[s] for s in mine)))
      for u in range(V):
        for v in range(V):
          s, t = 's%d w%d' % (i, u), 's%d w%d' % (i, v)
          if u != v and mine[s] < al[s] and mine[t]:
            out.append(jnp.where(a[i, v] >= a[i, u], 1, 0))
          else:
            out.append(1)
    return out

  def oracle():
    return M.vec([T.const(1)] * (3 + count * (1 + V * V)))
  return [eager.Contract('coinciding sentences', fn, (a,), oracle)]


def configs(tier):
  # sentences, resamples, topk, steps, burn-in share, symbolic scores
  q = [(2, 3, 0, 2, .5, True), (1, 3, 1, 2, .5, True), (2, 2, 1, 3, .3, True),
       (1, 3, 2, 1, .5, True), (1, 12, 3, 2, .5, False),
       (3, 11, 2, 1, .5, False), (1, 2, 3, 2, .5, True)]
  if tier == 'thorough':
    q += [(2, 3, 2, 4, .5, True), (1, 4, 2, 2, .5, True),
          (2, 25, 5, 2, .5, False)]
  r = [(2, 5, 3, 2), (1, 13, 12, 2), (1, 12, 5, 3)]
  if tier == 'thorough':
    r += [(2, 24, 6, 2), (1, 30, 12, 3)]
  return [dict(case='infill', args=a, label='infill %s' % (a,)) for a in q] + [
      dict(case='repeats', args=a, label='coinciding infillings %s' % (a,))
      for a in r]


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
