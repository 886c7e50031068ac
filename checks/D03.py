"""SAT instances become the independent set problem of their clauses."""
import itertools
import os
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def formula(nv, clauses, route):
  """clauses: literals, None: any literal, empty: an empty clause."""
  free = sum(x is None for c in clauses for x in c)
  # literal index v: variable v // 2 + 1, negated when v is odd
  l = Sym('l', (max(free, 1),), dtype=np.int32, lo=0, hi=2 * nv - 1, isint=True)

  def fn(l):
    from discs.graph_loader import graph_gen
    from discs.graph_loader import mis_loader
    from ml_collections import config_dict
    it = iter(range(free))
    lits = []
    for c in clauses:
      lits.append([])
      for x in c:
        if x is None:
          v = int(l[next(it)])
          x = (v // 2 + 1) * (-1 if v % 2 else 1)
        lits[-1].append(x)
    with L.scratch() as root, L.quiet():
      os.makedirs(root + '/satlib_test')
      with open(root + '/satlib_test/b.cnf', 'w') as f:
        f.write('c comment\np cnf %d %d\n' % (nv, len(lits)))
        for c in lits:
          f.write(' '.join(map(str, c + [0])) + '\n')
      with open(root + '/satlib_test/a.cnf', 'w') as f:
        f.write('p cnf 3 1\n1 2 3 0\n')
      open(root + '/satlib_test/c.txt', 'w').close()
      gen = graph_gen.get_graphs(config_dict.ConfigDict(dict(model=dict(
          graph_type='satlib', rand_type='', data_root=root, max_num_nodes=0,
          max_num_edges=0, num_instances=0))))
      got = list(gen.sample_gen('test'))
    lits = [c for c in lits if c]
    n = 3 * len(lits)
    at = [x for c in lits for x in c]
    want = {(i, j) for i, j in itertools.combinations(range(n), 2)
            if i // 3 == j // 3 or at[i] == -at[j]}
    g, sol = got[1]
    have = {tuple(sorted(map(int, e))) for e in g.edges if e[0] != e[1]}
    out = [len(got), int(sorted(map(int, g.nodes)) == list(range(n))),
           len(have - want), len(want - have),
           sum(1 for e in g.edges if e[0] == e[1]),
           int(set(map(lambda e: tuple(sorted(e)), got[0][0].edges)) ==
               {(0, 1), (0, 2), (1, 2)}),
           gen.num_instances, gen.max_num_nodes - n,
           gen.max_num_edges - len(want), sol, got[0][1]]
    if route:
      # largest independent set == number of clauses iff satisfiable
      def sat(a):
        return all(any((x > 0) == a[abs(x) - 1] for x in c) for c in lits)
      can = any(sat(a) for a in itertools.product((False, True), repeat=nv))
      best = any(not any((u, v) in have or (v, u) in have
                         for u, v in itertools.combinations(s, 2))
                 for s in itertools.product(*[
                     range(3 * i, 3 * i + 3) for i in range(len(lits))]))
      out.append(int(can == best))
    return out

  def oracle():
    return M.vec([T.const(v) for v in [2, 1, 0, 0, 0, 1, 2, 0, 0, 1, 1] +
                  [1] * route])
  return [eager.Contract('conflict graph of the formula', fn, (l,), oracle)]


def configs(tier):
  n = None
  out = [(2, ((n, n, n),), 1), (2, ((n, n, 1), (n, 2, -1)), 1),
         (3, ((n, 2, 3), (n, -2, n)), 1),
         (3, ((1, 2, 3), (), (n, n, -3), (-1, 2, n)), 1),
         (2, ((1, 1, 2), (-1, -1, n), (-2, n, 1), (n, -2, -2)), 1)]
  if tier == 'thorough':
    out += [(2, ((n, n, n), (n, n, -1)), 1), (4, ((n, n, 3), (n, -2, -4), (4, -1, 2)), 1)]
  out = [dict(case='formula', args=a) for a in out]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
