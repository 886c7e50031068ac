"""Evaluators: estimation errors, n-gram statistics, partition quality."""
import builtins
import sys
import types

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def bernoulli(steps, batch, sites):
  """Errors of the chain means and variances against the exact ones."""
  from discs.evaluators import bernoulli_eval
  m, p = M.bernoulli((sites,))
  x = Sym('x', (steps, batch, sites), dtype=np.int32, lo=0, hi=1, isint=True)
  ev = bernoulli_eval.build_evaluator(None)

  def fn(p, x):
    return ev.evaluate(x, m, p)

  def oracle(out):
    th = p['params'].terms.reshape(-1)
    mean = [T.div(T.exp(t), T.add(1, T.exp(t))) for t in th]
    var = [T.mul(e, T.sub(1, e)) for e in mean]

    def errors(cols):
      """cols[i]: samples of site i, one list per estimate."""
      em, ev_ = [], []
      for b in range(len(cols[0])):
        for i in range(sites):
          s = cols[i][b]
          n = len(s)
          mu = T.div(M.tsum(s), n)
          v = T.div(M.tsum([T.mul(T.sub(y, mu), T.sub(y, mu)) for y in s]),
                    n - 1)
          em.append(T.mul(T.sub(mu, mean[i]), T.sub(mu, mean[i])))
          ev_.append(T.mul(T.sub(v, var[i]), T.sub(v, var[i])))
      return em, ev_

    def avg(v):
      return T.div(M.tsum(v), len(v))

    def top(v):
      r = v[0]
      for w in v[1:]:
        r = T.fmax(r, w)
      return r
    em, ve = errors([[[x.terms[t, b, i] for t in range(steps)]
                      for b in range(batch)] for i in range(sites)])
    lm, lv = errors([[[x.terms[-1, b, i] for b in range(batch)]]
                     for i in range(sites)])
    return M.vec([avg(em), top(em), avg(ve), top(ve), avg(lm), avg(lv)])
  return [F.Contract('errors of the estimates', fn, (p, x), oracle)]


class Tok:
  """An ordinary word: an arbitrary number per spelling, and its case."""

  def __init__(self, v, up):
    self.v, self.up = v, up

  def lower(self):
    return Tok(self.v, 0)

  def __hash__(self):
    return 1

  def __eq__(self, o):
    if not isinstance(o, Tok):
      return False
    return self is o or (eager.same(self.v, o.v) and
                         eager.same(self.up, o.up))

  def __ne__(self, o):
    return not self == o


class Line:

  def __init__(self, toks):
    self.toks = toks

  def strip(self, *_):
    return self

  rstrip = strip

  def lower(self):
    return Line([t.lower() for t in self.toks])

  def split(self, *_):
    return list(self.toks)


class File:
  """An open text file with these lines."""

  def __init__(self, lines):
    self.lines = lines

  def readlines(self):
    return list(self.lines)

  def __iter__(self):
    return iter(self.lines)

  def __enter__(self):
    return self

  def __exit__(self, *_):
    pass

  close = __exit__


def same(a, b):
  return len(a) == len(b) and all(
      (len(s) == len(t) and all(u == v for u, v in zip(s, t)))
      for s, t in zip(a, b))


def language(preds, wiki, tbc, max_n):
  """Sentences: tuples of words; number or text: this one, None: any."""
  args = {}
  for name, sents in (('p', preds), ('w', wiki), ('t', tbc)):
    for i, s in enumerate(sents):
      v = Sym('%s%d' % (name, i), (len(s),), dtype=np.int32, lo=0, hi=40,
              isint=True)
      u = Sym('u%s%d' % (name, i), (len(s),), dtype=np.int32, lo=0, hi=1,
              isint=True)
      for j, x in enumerate(s):
        if x is not None:
          v.terms[j] = T.const(0 if isinstance(x, str) else x)
        if x is not None or name == 'p':
          u.terms[j] = T.const(0)
      args[name, i] = (v, u)
  keys = sorted(args)

  def fn(*vals):
    from discs.evaluators import lm_eval
    from nltk.translate import bleu_score
    d = dict(zip(keys, vals))

    def lines(name, sents):
      return [Line([x if isinstance(x, str) else
                    Tok(d[name, i][0][j], d[name, i][1][j])
                    for j, x in enumerate(s)]) for i, s in enumerate(sents)]
    p, w, t = lines('p', preds), lines('w', wiki), lines('t', tbc)
    seen = []

    def corpus_bleu(refs, hyps, weights=None):
      seen.append((refs, hyps, weights))
      r = [1000 * len(seen) + i for i in range(len(weights) if weights and
                                                isinstance(weights, list) else 1)]
      return r if weights and isinstance(weights, list) else r[0]

    def opener(path, *a, **k):
      if path == 'root/wiki103_remove_infill.5k.txt':
        return File(w)
      if path == 'root/tbc_remove_infill.5k.txt':
        return File(t)
      return real_open(path, *a, **k)
    cfg = types.SimpleNamespace(experiment=types.SimpleNamespace(
        max_n_grams=max_n))
    old = bleu_score.corpus_bleu
    real_open = builtins.open
    places = [(bleu_score, 'corpus_bleu')] + [
        (lm_eval, n) for n, v in vars(lm_eval).items() if v is old]
    for mod, n in places:
      setattr(mod, n, corpus_bleu)
    builtins.open = opener
    try:
      with L.quiet():
        r = lm_eval.build_evaluator(cfg).evaluate(p, 'root')
    finally:
      builtins.open = real_open
      for mod, n in places:
        setattr(mod, n, old)
    # what should have happened
    def prep(sents, sub):
      out = []
      for s in sents:
        out.append([])
        for k in s.toks:
          k = k.lower() if isinstance(k, str) else Tok(k.v, 0)
          k = dict(sub).get(k, k) if isinstance(k, str) else k
          out[-1].append(k)
      return out
    W = prep(w, [('@@unknown@@', '[UNK]')])
    B = prep(t, [('``', '"'), ("''", '"')])
    P = [s.toks for s in p]

    def grams(sents, n):
      return [s[i:i + n] for s in sents for i in range(len(s) - n + 1)]

    def distinct(gs):
      out = []
      for g in gs:
        if not any(same([g], [h]) for h in out):
          out.append(g)
      return out
    out = [int(r['infill_sents'] is p)]
    for n in range(1, max_n + 1):
      g = grams(P, n)
      for name, ref in (('wiki', W), ('tbc', B)):
        h = grams(ref, n)
        k = [x for x in distinct(g) if not any(same([x], [y]) for y in h)]
        out.append(r['unique_%s_%d_grams' % (name, n)] - len(k) / len(g))
      once = [x for x in g if sum(same([x], [y]) for y in g) == 1]
      out.append(r['unique_self_%d_grams' % n] - len(once) / len(g))

    def scored(value, refs):
      """value is the 4-gram BLEU of all sentences against these references."""
      if value // 1000 - 1 >= len(seen) or value < 1000:
        return 0
      a, h, ws = seen[value // 1000 - 1]
      wt = (ws[value % 1000] if isinstance(ws, list) else ws) or (.25,) * 4
      return int(same(h, P) and len(a) == len(P) and tuple(wt) == (.25,) * 4
                 and all(same(x, y) for x, y in zip(a, refs)))
    out += [scored(r['tbc_bleu'], [B] * len(P)),
            scored(r['wiki_bleu'], [W] * len(P)),
            scored(r['tbc_wiki_bleu'], [B + W] * len(P))]
    if len(P) > 1:
      out.append(scored(r['self_bleu'], [
          [s for j, s in enumerate(P) if j != i] for i in range(len(P))]))
    else:
      out.append(int('self_bleu' not in r))
    return out

  def oracle():
    return M.vec([T.const(1)] + [T.const(0)] * (3 * max_n) + [T.const(1)] * 4)
  return [eager.Contract('statistics of the sentences', fn,
                         tuple(args[k] for k in keys), oracle)]


def normcut(edges, n, groups, free):
  """Cut ratio and balance of a partition; free: that many arbitrary edges."""
  x = Sym('x', (n,), dtype=np.int32, lo=0, hi=groups - 1, isint=True)
  e = Sym('e', (max(free, 1),), dtype=np.int32, lo=0, hi=1, isint=True)
  spare = [(i, j) for i in range(n) for j in range(i) if (j, i) not in edges
           and (i, j) not in edges][:free]

  def fn(x, e):
    from discs.common import normcut_evaluator as ne
    E = list(edges) + [p for k, p in enumerate(spare) if bool(e[k] == 1)]
    adj = np.zeros((n, n))
    for a, b in E:
      adj[a, b] = adj[b, a] = 1.0
    g = np.array([int(x[i]) for i in range(n)])
    cut, bal, _ = ne.evaluate(g, n, 2 * len(E), adj, groups)
    size = [sum(int(v == k) for v in g) for k in range(groups)]
    c = sum(g[a] != g[b] for a, b in E) / len(E)
    b = sum(size[i] * size[j] for i in range(groups) for j in range(groups)
            if i != j) * groups / ((groups - 1) * n * n)
    return [cut - c, bal - b]

  def oracle():
    return M.vec([T.const(0), T.const(0)])
  return [eager.Contract('quality of a partition', fn, (x, e), oracle)]


def configs(tier):
  n = None
  out = [dict(case='bernoulli', args=a) for a in ((2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2))]
  out += [dict(case='language', args=a) for a in (
      (((n, n), (n,)), ((7, 8),), ((9, 8),), 1),
      (((n, n, '[UNK]', '"', '"'),),
       ((n, '@@UNKNOWN@@'), ('@@unknown@@', '``')),
       (('@@unknown@@', '``', "''"), ("''", '``', '[MASK]')), 2),
      (((n, n, n),), ((n, 8),), ((9, 8),), 2),
      (((7, 8, 9), (7, n)), ((n, 8),), ((5, n),), 2),
      (((7, 8), (n, n), (7, 8)), ((7, 8),), ((9, 8), (7,)), 2),
      (((7, 7, 7, 7, 8), (n, 7, 8)), ((n, 7, 7, 7), (7, 8)), ((9, 8),), 4))]
  out += [dict(case='normcut', args=a) for a in (
      (((0, 1), (1, 2)), 3, 3, 1), (((0, 1), (1, 2), (2, 3)), 4, 2, 1),
      (((0, 1), (0, 2), (2, 3)), 4, 3, 0))]
  if tier == 'thorough':
    out += [dict(case='bernoulli', args=(4, 3, 2)),
            dict(case='language', args=(((n, n), (n, n)), ((n, 8),), ((9, 8),), 2)),
            dict(case='language', args=(((7, 8, 9), (7, n)), ((n, n),), ((5, n),), 2)),
            dict(case='language', args=(((n, n, n, n),), ((7, 8, 7),), ((9, n),), 3)),
            dict(case='normcut', args=(((0, 1), (1, 2), (2, 3)), 4, 3, 2))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
