"""Loaders deliver the graphs and reference values stored in the data files."""
import os
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _put(root, name, items):
  """A file with these objects pickled one after the other."""
  import pickle
  path = os.path.join(root, name)
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'wb') as f:
    for x in items:
      pickle.dump(x, f)


def _graph(n, edges, weight=None, label=None, order=None):
  import networkx as nx
  g = nx.Graph()
  for v in order or range(n):
    g.add_node(v, **({} if label is None or label[v] is None
                     else dict(label=label[v])))
  for e in edges:
    g.add_edge(*e, **({} if weight is None else dict(weight=weight[e])))
  return g


def _config(kind, rand, limits, cats=3):
  from ml_collections import config_dict
  return lambda root: config_dict.ConfigDict(dict(model=dict(
      graph_type=kind, rand_type=rand, data_root=root, num_categories=cats,
      **(dict(max_num_nodes=limits[0], max_num_edges=limits[1],
              num_instances=limits[2]) if limits else {}))))


PLACE = dict(ertest='er_x_test/%s', rb='RB_test/%s', twitter='twitter/%s',
             ba='maxcut-ba/maxcut-x/%s', er='maxcut-er/maxcut-x/%s',
             er_density='er_700_800/ER-700-800-x.pkl', optsicom='optsicom/b.pkl',
             nets='nets/x.pkl', gap_rand='gap_rand/x/%s')
# in the order a loader has to read them; created in another one
NAMES = dict(ertest=['ER-10', 'ER-2', 'ER-3'], rb=['RB-10', 'RB-2', 'RB-3'],
             twitter=['twitter10', 'twitter2', 'twitter3'],
             ba=['test-10', 'test-2', 'test-3'],
             er=['test-10', 'test-2', 'test-3'],
             gap_rand=['10.pkl', '2.pkl', '3.pkl'])
OTHER = dict(ertest='IR-1', rb='info', twitter='atwitter', ba='train-1',
             er='validation-1', gap_rand='readme.txt')
WEIGHTED = ('ba', 'er', 'optsicom')


def loader(kind, files, free, limits):
  """files: graphs per file (number of nodes each); free: arbitrary edges."""
  sizes = [n for f in files for n in f]
  pairs = [[(i, j) for i in range(n) for j in range(i)] for n in sizes]
  ne = sum(map(len, pairs))
  e = Sym('e', (free,), dtype=np.int32, lo=0, hi=1, isint=True)
  w = Sym('w', (ne,))
  r = Sym('r', (len(sizes), 2))
  lab = Sym('l', (max(sizes),), dtype=np.int32, lo=0, hi=1, isint=True)

  def fn(e, w, r, lab):
    from discs.graph_loader import graph_gen
    graphs, k = [], 0
    for gi, n in enumerate(sizes):
      edges, ws = [], {}
      for p in pairs[gi]:
        # the first pairs of every graph are free, the others alternate
        i = pairs[gi].index(p)
        j = gi * 2 + i if i < 2 and gi * 2 + i < free else None
        if bool(e[j] == 1) if j is not None else k % 2 == 0:
          edges.append(p)
          ws[p] = w[k]
        k += 1
      graphs.append(_graph(
          n, edges, ws if kind in WEIGHTED else None,
          [lab[v] if v % 2 == 0 else None for v in range(n)]
          if kind == 'ertest' and gi == 0 else
          [0] * n if kind == 'ertest' and gi == 1 else None,
          list(range(n))[::-1]))
    want = []
    per = []
    i = 0
    for f in files:
      gs = graphs[i:i + len(f)]
      rs = [r[i + j] for j in range(len(f))]
      i += len(f)
      if kind == 'rb':
        per.append([[(x[0], g) for x, g in zip(rs, gs)]])
      elif kind == 'twitter':
        per.append([(gs, [x[0] for x in rs])])
      elif kind in ('ba', 'er', 'optsicom'):
        per.append([(g, [x[0], x[1]]) for x, g in zip(rs, gs)])
      elif kind == 'er_density':
        per.append([gs])
      else:
        per.append(gs)
    for j in range(len(sizes)):
      if kind in ('rb', 'twitter', 'ba', 'er', 'optsicom'):
        want.append(r[j][0])
      elif kind == 'ertest' and j == 0:
        s = sum([lab[v] for v in range(0, sizes[0], 2)])
        want.append(1 if bool(s == 0) else s)
      else:
        want.append(1)
    with L.scratch() as root, L.quiet():
      if kind in NAMES:
        for i in reversed(range(len(files))):
          _put(root, PLACE[kind] % NAMES[kind][i], per[i])
        _put(root, PLACE[kind] % OTHER[kind], [5])
      else:
        _put(root, PLACE[kind], per[0])
      gen = graph_gen.get_graphs(_config(
          kind, 'b' if kind == 'optsicom' else 'x', limits)(root))
      got = list(gen.sample_gen('test'))
      it = iter(gen.sample_gen('test', repeat=True))
      again = [next(it) for _ in range(len(got) + 2)] if got else []
    out = [int(len(got) == len(sizes))]
    if limits and min(limits) > 0:
      lim = limits
    else:
      lim = (max(sizes), max(len(g.edges) for g in graphs), len(sizes))
    out += [gen.max_num_nodes - lim[0], gen.max_num_edges - lim[1],
            gen.num_instances - lim[2]]
    out.append(int(all(set(a[0].edges) == set(b[0].edges) for a, b in zip(
        again, (got * 3)[:len(again)]))))
    for j, g in enumerate(graphs):
      if j >= len(got):
        out += [9] * 3
        continue
      h, sol = got[j]
      norm = lambda q: {tuple(sorted(x)) for x in q.edges}
      out.append(int(set(g.nodes) == set(h.nodes) and norm(g) == norm(h)))
      out.append(sol - want[j])
      d = 0.0
      if kind in WEIGHTED:
        for t, (a, b, dat) in enumerate(sorted(g.edges(data=True),
                                               key=lambda q: q[:2])):
          d = d + (t + 1) ** 2 * (h[a][b]['weight'] - dat['weight'])
      out.append(d)
    return out

  def oracle():
    return M.vec([T.const(v) for v in [1, 0, 0, 0, 1] +
                  [1, 0, 0] * len(sizes)])
  return [eager.Contract('what the files hold', fn, (e, w, r, lab), oracle)]


def padding(kind, cats):
  """The padding instance is a valid graph that fits into every limit."""
  n = Sym('n', (), dtype=np.int32, lo=3, hi=5, isint=True)
  m = Sym('m', (), dtype=np.int32, lo=1, hi=4, isint=True)

  def fn(n, m):
    n, m = int(n), int(m)
    gen = M.co_gen(kind, n, m, cats)
    g, sol = gen.get_dummy_sample()
    p = gen.graph2edges(g)
    real = gen.graph2edges(_graph(n, [(0, 1)], {(0, 1): 1.0}))
    same = lambda a, b: (a is None) == (b is None) and np.shape(a) == np.shape(b)
    return [int(set(p) == set(real) and all(same(p[k], real[k]) for k in p)),
            int(max(g.nodes) < n), float(sol) * 0]

  def oracle():
    return M.vec([T.const(1), T.const(1), T.const(0)])
  return [eager.Contract('padding fits', fn, (n, m), oracle)]


def optsicom(free):
  """Text files with integer weights; one instance per file."""
  w = Sym('w', (free,), dtype=np.int32, lo=-1, hi=1, isint=True)
  names = ['sg3dl05%d000.mc' % i for i in range(1, 11)]

  def fn(w):
    from discs.graph_loader import graph_gen
    from discs.graph_loader import maxcut_loader
    out = []
    old = maxcut_loader.__file__
    with L.scratch() as root, L.quiet():
      os.makedirs(root + '/optsicom')
      want = []
      for i, f in enumerate(names):
        n = 3 + i % 2
        rows = [(j, j + 1) for j in range(n - 1)] + [(0, n - 1)] * (i % 3 > 0)
        want.append({tuple(sorted(p)): float(
            int(w[i]) if i < free and j == 0 else (j % 2) * 2 - 1)
                     for j, p in enumerate(rows)})
        with open('%s/optsicom/%s' % (root, f), 'w') as h:
          h.write('%d %d \n' % (n, len(rows)))
          for p in rows:
            h.write('%d %d %d\n' % (p[0] + 1, p[1] + 1,
                                    want[-1][tuple(sorted(p))]))
      maxcut_loader.__file__ = root + '/maxcut_loader.py'
      try:
        gen = graph_gen.get_graphs(_config('optsicom', '0.3', None)(root))
      finally:
        maxcut_loader.__file__ = old
      got = list(gen.sample_gen('test'))
    out += [len(got), gen.num_instances, gen.max_num_nodes, gen.max_num_edges]
    for (g, sol), x in zip(got, want):
      out.append(int({tuple(sorted(d[:2])): d[2]['weight']
                      for d in g.edges(data=True)} == x and sol == 1.0
                     and len(g) == max(map(max, x)) + 1))
    return out

  def oracle():
    return M.vec([T.const(v) for v in [10, 10, 4, 4] + [1] * 10])
  return [eager.Contract('what the files hold', fn, (w,), oracle)]


def configs(tier):
  many = ((3, 2), (4,), (3,))
  one = ((3, 4),)
  out = []
  for k in ('rb', 'twitter', 'ba', 'er'):
    out += [(k, many, 4, (0, 0, 0)), (k, ((3,), (4, 2)), 2, (9, 8, 7)),
            (k, ((3,), (4,)), 2, (9, 0, 7))]
  out += [('ertest', ((3,), (4,), (2,)), 4, (0, 0, 0)),
          ('ertest', ((5,), (2,)), 2, (9, 8, 7)),
          ('gap_rand', ((3,), (4,), (2,)), 3, (9, 8, 3)),
          ('er_density', one, 3, None), ('optsicom', one, 3, None),
          ('nets', ((4,),), 2, (0, 0, 0))]
  out = [dict(case='loader', args=a) for a in out]
  out += [dict(case='padding', args=a) for a in (
      ('mis', 2), ('maxclique', 2), ('maxcut', 2), ('normcut', 3))]
  out += [dict(case='optsicom', args=(3,))]
  if tier == 'thorough':
    out += [dict(case='loader', args=(k, ((4, 3), (4, 3), (3,)), 8, (0, 0, 0)))
            for k in ('rb', 'twitter', 'ba')]
    out += [dict(case='loader', args=('ertest', ((7,), (4,), (3,)), 5, (0, 0, 0)))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
