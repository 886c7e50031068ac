"""Shared sampling primitives: acceptance, multinomial draws, log-scale helpers."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out




def _math():
  from discs.common import math_util
  return math_util


def accept(B, D):
  """A proposal of log weight a is taken with probability min(1, e^a)."""
  lp = Sym('a', (B,))
  cur = np.zeros((B, D), np.int32)
  new = np.arange(1, B * D + 1, dtype=np.int32).reshape(B, D)

  def fn(key, a):
    y, acc = _math().mh_step(key, a, cur, new)
    return y, acc.astype(np.int32)

  def outcome(out):
    return F.ints(out[0]) + F.ints(out[1])

  space, pr = [], {}
  for acc in itertools.product((0, 1), repeat=B):
    y = sum((tuple(int(v) for v in (new if a else cur)[b])
             for b, a in enumerate(acc)), ())
    space.append(y + acc)
    t = T.const(1)
    for b, a in enumerate(acc):
      p = T.fmin(T.const(1), T.exp(lp.terms[b]))
      t = T.mul(t, p if a else T.sub(1, p))
    pr[y + acc] = t
  return [F.Law('Metropolis step', fn, (lp,), outcome, lambda o: pr[o], space)]


def _soft(row):
  z = M.tsum(T.exp(v) for v in row)
  return [T.div(T.exp(v), z) for v in row]


def _first(out):
  return F.ints(out[0] if isinstance(out, (tuple, list)) else out)


def replace(B, n, k):
  """k draws with replacement: independent categorical draws and their ll."""
  import jax
  lg = Sym('l', (B, n))
  P = [_soft(r) for r in lg.terms]
  fn = lambda key, l: _math().multinomial(key, jax.nn.log_softmax(l, -1), k,
                                          return_ll=True)
  space = list(itertools.product(range(n), repeat=B * k))

  def factors(o):
    return [P[j // k][v] for j, v in enumerate(o)]

  def want(o):
    t = T.const(1)
    for f in factors(o):
      t = T.mul(t, f)
    return t
  return [F.Law('draws with replacement', fn, (lg,), _first, want, space,
                value=lambda out: [T.exp(v) for v in F.flat_terms(out[1])]
                if _symbolic(out[1]) else np.exp(np.asarray(out[1])).reshape(-1),
                want_value=factors)]


def _symbolic(x):
  return isinstance(x, np.ndarray) and x.dtype == object


def _pl(P, o, n):
  """Factors of the ordered no-replacement law of o."""
  out, left = [], list(range(n))
  for v in o:
    out.append(T.div(P[v], M.tsum(P[u] for u in left)))
    left.remove(v)
  return out


def noreplace(B, n, k):
  """k ordered draws without replacement: Plackett-Luce and its ll."""
  import jax
  lg = Sym('l', (B, n))
  W = [[T.exp(v) for v in r] for r in lg.terms]
  fn = lambda key, l: _math().multinomial(
      key, jax.nn.log_softmax(l, -1), k, replacement=False, return_ll=True)
  rows = list(itertools.permutations(range(n), k))
  space = [sum(t, ()) for t in itertools.product(rows, repeat=B)]

  def factors(o):
    return sum((_pl(W[b], o[b * k:(b + 1) * k], n) for b in range(B)), [])

  def want(o):
    t = T.const(1)
    for f in factors(o):
      t = T.mul(t, f)
    return t

  def rowprod(fs):
    out = []
    for b in range(B):
      t = T.const(1)
      for f in fs[b * k:(b + 1) * k]:
        t = T.mul(t, f)
      out.append(t)
    return out

  def value(out):
    if _symbolic(out[1]):
      return rowprod([T.exp(v) for v in F.flat_terms(out[1])])
    return np.exp(np.asarray(out[1], np.float64).sum(-1)).reshape(-1)
  return [F.Law('draws without replacement', fn, (lg,), _first, want, space,
                value=value, want_value=lambda o: rowprod(factors(o)))]


def subset(B, n, k):
  """Variable number of draws without replacement: a selection mask."""
  import jax
  lg = Sym('l', (B, n))
  W = [[T.exp(v) for v in r] for r in lg.terms]

  def fn(key, l):
    return _math().multinomial(key, jax.nn.log_softmax(l, -1), np.int32(k),
                               replacement=False, is_nsample_const=False)
  rows = []
  for c in itertools.combinations(range(n), k):
    rows.append(tuple(int(i in c) for i in range(n)))
  space = [sum(t, ()) for t in itertools.product(rows, repeat=B)]

  def want(o):
    t = T.const(1)
    for b in range(B):
      sel = [i for i in range(n) if o[b * n + i]]
      s = []
      for q in itertools.permutations(sel):
        r = T.const(1)
        for f in _pl(W[b], q, n):
          r = T.mul(r, f)
        s.append(r)
      t = T.mul(t, M.tsum(s))
    return t
  return [F.Law('subset without replacement', fn, (lg,), F.ints, want, space)]


def counts(B, n, k, bs):
  """Variable number of draws with replacement: counts per class."""
  import jax
  import math
  lg = Sym('l', (B, n))
  P = [_soft(r) for r in lg.terms]
  fn = lambda key, l: _math().multinomial(
      key, jax.nn.log_softmax(l, -1), jax.numpy.int32(k), replacement=True,
      is_nsample_const=False, batch_size=bs)
  rows = [c for c in itertools.product(range(k + 1), repeat=n) if sum(c) == k]
  space = [sum(t, ()) for t in itertools.product(rows, repeat=B)]

  def want(o):
    t = T.const(1)
    for b in range(B):
      c = o[b * n:(b + 1) * n]
      m = math.factorial(k)
      for i, v in enumerate(c):
        m //= math.factorial(v)
        for _ in range(v):
          t = T.mul(t, P[b][i])
      t = T.mul(t, m)
    return t
  return [F.Law('counts with replacement', fn, (lg,), F.ints, want, space)]


def log1mexp(n):
  x = Sym('x', (n,), lo=T.Fraction(1, 100), hi=50)
  y = Sym('y', (n,), lo=-50, hi=T.Fraction(-1, 100))
  fn = lambda x, y: (_math().log1mexp(x), _math().log1mexp(y))

  def oracle(out):
    return (M.vec([T.log(T.sub(1, T.exp(T.neg(v)))) for v in x.terms]),
            M.vec([T.log(T.sub(1, T.exp(v))) for v in y.terms]))
  return [F.Contract('log(1 - exp(-|x|))', fn, (x, y), oracle)]


def configs(tier):
  out = [dict(case='accept', args=a) for a in ((1, 1), (1, 2), (2, 2), (3, 1))]
  out += [dict(case='replace', args=a) for a in ((1, 2, 1), (1, 3, 2), (2, 2, 2), (2, 3, 1), (1, 2, 3))]
  out += [dict(case='noreplace', args=a) for a in ((1, 2, 1), (1, 3, 2), (1, 3, 3), (2, 2, 2), (2, 3, 1), (1, 4, 2))]
  out += [dict(case='subset', args=a) for a in ((1, 2, 1), (1, 3, 2), (1, 3, 3), (2, 2, 1), (1, 4, 2))]
  out += [dict(case='counts', args=a) for a in ((1, 2, 2, 1), (1, 3, 2, 1), (1, 2, 3, 2), (2, 2, 1, 1), (1, 2, 2, 3))]
  out += [dict(case='log1mexp', args=(1,))]
  if tier == 'thorough':
    out += [dict(case='noreplace', args=(1, 4, 3)), dict(case='subset', args=(1, 4, 3)), dict(case='noreplace', args=(2, 3, 2))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
