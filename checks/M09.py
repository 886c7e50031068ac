"""Combinatorial objectives: what the model scores is the graph problem."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out




def _graph(n, edges, order, sym):
  import networkx as nx
  g = nx.Graph()
  g.add_nodes_from(order)
  for u, v in edges:
    g.add_edge(u, v, **(dict(sym='w%d%d' % (u, v)) if sym else {}))
  return g


def _cut(g, x, w):
  return M.tsum(w(u, v) for u, v in g.edges() if x[u] != x[v])


def _score(kind, g, n, x, w, pen):
  S = [v for v in range(n) if x[v]]
  if kind == 'maxcut':
    return _cut(g, x, w)
  inside = [(u, v) for u, v in itertools.combinations(S, 2)]
  e = sum(1 for u, v in inside if g.has_edge(u, v))
  if kind == 'mis':
    return T.sub(len(S), T.mul(pen, e))
  return T.sub(len(S), T.mul(pen, len(inside) - e))


def binary(kind, n, pad, epad, edges, order, pen):
  """order: insertion order of the nodes; pad, epad: padded nodes and edges."""
  gen = M.co_gen(kind, n + pad, len(edges) + epad)
  m = M.co_model(kind, gen, **(dict(penalty=pen) if pen else {}))
  pen = T.lift_const(pen or 2.0)
  g = _graph(n, edges, order or range(n), kind == 'maxcut')
  tp = Sym('temp', (), pos=True)
  p, symb = M.graph_params(gen, g, tp)
  X = M.pick(2, (n + pad,), 32)
  w = lambda u, v: M.weight(g, u, v, symb)

  def fn(q, x):
    return m.forward(q, x), m.evaluate(q, x)

  def oracle(out):
    s = [_score(kind, g, n, x, w, pen) for x in X]
    return M.vec([T.div(v, tp.terms[()]) for v in s]), M.vec(s)
  return [F.Contract('%s: log-likelihood and evaluation of every assignment' % kind,
                     fn, (p, X), oracle, rebuild=(lambda env: (
                         M.graph_values(gen, g, env), X)) if symb else None)]


def normcut(n, C, epad, edges, order, pen, stype, tol):
  gen = M.co_gen('normcut', n, len(edges) + epad, C)
  m = M.co_model('normcut', gen, penalty=pen, tolerance=tol,
                 **(dict(stype=stype) if stype else {}))
  g = _graph(n, edges, order or range(n), False)
  tp = Sym('temp', (), pos=True)
  p, _ = M.graph_params(gen, g, tp)
  deg = dict(g.degree)
  vol = lambda x, c: sum(deg[v] for v in range(n) if x[v] == c)
  cut = lambda x, c: sum(1 for u, v in g.edges()
                         if (x[u] == c) != (x[v] == c))
  X = M.pick(C, (n,), 81)
  if not pen:
    full = np.array([all(vol(x, c) > 0 for c in range(C)) for x in X])
    X, E = X[full], X[~full]
  eps = T.lift_const(float(np.float32(1e-8)))
  eps2 = T.lift_const(float(np.float32(1e-8 ** 2)))
  F32 = lambda v: T.lift_const(float(np.float32(v)))

  def cost(x):
    if not pen:
      return M.tsum(T.div(T.add(cut(x, c), eps), T.add(vol(x, c), eps2))
                    for c in range(C))
    size = [sum(1 for v in x if v == c) for c in range(C)]
    avg = T.lift_const(n / C)
    if stype == 'quad':
      r = [T.mul(T.sub(s, F32(n / C)), T.sub(s, F32(n / C))) for s in size]
    else:
      t = n * tol
      r = []
      for s in size:
        over = max(s - n / C - t, n / C - t - s, 0)
        over = T.lift_const(over)
        r.append(T.mul(over, over))
    return T.add(sum(cut(x, c) for c in range(C)), T.mul(F32(pen), M.tsum(r)))

  def fn(q, x):
    return m.forward(q, x), m.evaluate(q, x)

  def oracle(out):
    s = [T.neg(cost(x)) for x in X]
    return M.vec([T.div(v, tp.terms[()]) for v in s]), M.vec(s)
  out = []
  if len(X):
    out.append(F.Contract('normcut: log-likelihood and evaluation', fn, (p, X),
                          oracle))
  if not pen and len(E):
    out.append(F.Contract(
        'normcut: an assignment with an empty side is rejected',
        lambda q, x: (m.evaluate(q, x) < -1e6).astype(np.int32), (p, E),
        lambda o: M.vec([T.const(1)] * len(E))))
  return out


def _graphs(n):
  P = list(itertools.combinations(range(n), 2))
  for k in range(1, 2 ** len(P)):
    yield tuple(e for i, e in enumerate(P) if k >> i & 1)


TRI = ((0, 1), (1, 2), (0, 2))
Q = ((2, 0), (3, 1), (0, 3))


def configs(tier):
  out = []
  for kind, pen in (('maxcut', 0), ('mis', 1.5), ('maxclique', 0), ('mis', 0), ('maxclique', 3.0)):
    out += [dict(case='binary', args=a) for a in (
        (kind, 3, 0, 0, TRI, (), pen), (kind, 3, 1, 2, ((1, 2), (0, 1)), (2, 0, 1), pen),
        (kind, 4, 0, 1, Q, (3, 1, 2, 0), pen), (kind, 4, 1, 2, Q[:2], (), pen), (kind, 6, 0, 1, ((0, 1), (4, 5)), (5, 0, 3, 1, 2, 4), pen),
        (kind, 5, 0, 0, Q + ((4, 1), (4, 0)), (4, 0, 1, 2, 3), pen))]
  out += [dict(case='normcut', args=a) for a in (
      (3, 2, 0, TRI, (), 0.0, '', 0.0), (4, 2, 2, Q, (3, 1, 2, 0), 0.0, '', 0.0),
      (4, 3, 1, Q + ((1, 2),), (2, 0, 3, 1), 0.0, '', 0.0),
      (4, 2, 1, Q, (3, 1, 2, 0), 1.5, 'quad', 0.25), (4, 2, 1, Q, (), 1.5, 'span', 0.25),
      (5, 2, 0, Q + ((4, 1), (4, 0)), (), 0.5, '', 0.125))]
  if tier == 'thorough':
    for e in _graphs(3):
      for kind, pen in (('maxcut', 0), ('mis', 1.5), ('maxclique', 3.0)):
        out.append(dict(case='binary', args=(kind, 3, 1, 1, e, (2, 1, 0), pen)))
    for e in list(_graphs(4))[::3]:
      for kind, pen in (('maxcut', 0), ('mis', 1.5), ('maxclique', 3.0)):
        out.append(dict(case='binary', args=(kind, 4, 0, 1, e, (), pen)))
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
