"""Instances are handed out exactly once over all processes."""
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]
MORE = 'jax.process_index/process_count replaced by the symbolic process'


def _int(name, lo, hi):
  return Sym(name, (), dtype=np.int32, lo=lo, hi=hi, isint=True)


def _loader(n, refs):
  from discs.graph_loader import common

  class Gen(common.GraphGenerator):

    def __init__(self):
      super().__init__()
      self._num_instances = n

    def sample_gen(self, phase, repeat=False):
      i = 0
      while bool(i < n):
        yield ('g', i), refs[i]
        i += 1

    def get_dummy_sample(self):
      return ('dummy', 0), -5.0

    def graph2edges(self, g):
      return ('params',) + g
  return Gen()


def shards(top, most, procs):
  """Every number of instances and instances per batch; so many processes."""
  n, k = _int('n', 0, top), _int('k', 1, most)
  r = Sym('r', (top,))

  def fn(n, k, r):
    import jax
    gen = _loader(n, r)
    size = k * procs if procs else k
    per = []
    for p in range(procs or 1):
      with L.process(p, procs or 7):
        per.append(list(gen.get_iterator('test', size, sharding=bool(procs))))
    k, n = int(k), int(n)
    size = k * (procs or 1)
    batches = -(-n // size)
    flags = [int(all(len(b) == batches for b in per)),
             int(all(len(x) == k for b in per for x in b))]
    seen = {}
    pads = 0
    bad = 0
    order = 0
    refs = [0.0] * top
    for b in per:
      last = -1
      for x in b:
        for e in x:
          if e[0] == -1:
            pads += 1
            bad += e[1] != ('params', 'dummy', 0) or e[2] != -5.0
            continue
          seen[e[0]] = seen.get(e[0], 0) + 1
          bad += e[1] != ('params', 'g', e[0])
          order += e[0] < last
          last = e[0]
          refs[e[0]] = e[2]
    flags += [int(seen == {i: 1 for i in range(n)}), bad, order,
              pads - (batches * size - n)]
    return flags, [refs[i] - (r[i] if i < n else 0.0) for i in range(top)]

  def oracle():
    return M.vec([T.const(v) for v in (1, 1, 1, 0, 0, 0)] +
                 [T.const(0)] * top)
  return [eager.Contract('every instance once, full batches', fn, (n, k, r),
                         oracle)]


def datagen(top, most):
  """What a run reads through get_datagen is the whole test set."""
  n, k = _int('n', 1, top), _int('k', 1, most)
  a, b = _int('a', 1, 9), _int('b', 1, 9)
  r = Sym('r', (top,))

  def fn(n, k, a, b, r):
    from discs.common import utils
    from discs.graph_loader import graph_gen
    from ml_collections import config_dict
    gen = _loader(n, r)
    gen._max_num_nodes, gen._max_num_edges = a, b
    m = config_dict.ConfigDict(dict(model=dict(num_models=int(k))))
    old = graph_gen.get_graphs
    graph_gen.get_graphs = lambda c: gen
    try:
      it = list(utils.get_datagen(m))
    finally:
      graph_gen.get_graphs = old
    n = int(n)
    ids = [e[0] for x in it for e in x]
    return [int([i for i in ids if i >= 0] == list(range(n))),
            int(all(len(x) == int(k) for x in it)),
            m.model.max_num_nodes - a, m.model.max_num_edges - b,
            m.model.shape[0] - a, len(m.model.shape)]

  def oracle():
    return M.vec([T.const(v) for v in (1, 1, 0, 0, 0, 1)])
  return [eager.Contract('the run reads the whole test set', fn,
                         (n, k, a, b, r), oracle)]


def devices(n, per, width):
  """Splitting over devices and stacking keep every entry in its place."""
  x = Sym('x', (n * per, width))
  y = Sym('y', (n * per,))

  def fn(x, y):
    from discs.common import utils
    with L.devices(n):
      a = utils.shard_to_local_devices(dict(x=x, y=[y]))
      s = utils.tree_stack([dict(u=x[i], v=(y[i], y[i] * 2))
                            for i in range(n * per)])
    return a['x'], a['y'][0], s['u'], s['v'][0], s['v'][1]

  def oracle():
    X, Y = x.terms, y.terms
    return M.vec(list(X.reshape(-1)) + list(Y) + list(X.reshape(-1)) + list(Y)
                 + [T.mul(2, v) for v in Y])

  def shapes(x, y):
    from discs.common import utils
    with L.devices(n):
      a = utils.shard_to_local_devices(dict(x=x, y=[y]))
    return list(a['x'].shape) + list(a['y'][0].shape)
  return [eager.Contract('sharding keeps order', fn, (x, y), oracle),
          eager.Contract('sharding splits the leading axis', shapes, (x, y),
                         lambda: M.vec([T.const(v) for v in (
                             n, per, width, n, per)]))]


def configs(tier):
  out = [dict(case='shards', args=a) for a in ((6, 7, 0), (6, 4, 1), (7, 3, 2), (7, 3, 3))]
  out += [dict(case='datagen', args=(5, 6))]
  out += [dict(case='devices', args=a) for a in ((1, 2, 2), (2, 2, 1), (3, 2, 2))]
  if tier == 'thorough':
    out += [dict(case='shards', args=a) for a in ((14, 15, 0), (14, 5, 2), (13, 4, 3), (14, 4, 4))]
    out += [dict(case='devices', args=(4, 3, 2))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
