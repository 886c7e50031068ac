"""Text infilling: the score is the pseudo log-likelihood of the masked slots."""
import contextlib
import io
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _quiet(fn):
  def f(*a):
    with contextlib.redirect_stdout(io.StringIO()):
      return fn(*a)
  return f


def _setup(pos, words):
  n, seq, k = len(pos), len(words) + 2, len(M.TXT_IN)
  w = dict(v=Sym('v', (n, seq, k, M.TXT_OUT)), b=Sym('b', (M.TXT_OUT,)),
           id=Sym('wid', (seq,)), tt=Sym('wtt', (seq,)))
  data = [dict(sentence=' '.join(map(str, words)), infill_pos=list(pos))]
  ids = [101] + list(words) + [102]
  return w, data, ids


def _model(data, w, random_init=True):
  m = M.text_model(data, random_init)
  m.model.w = w
  return m


def _logits(w, pos, ids, rows, p):
  """Logits of position p given what each slot holds: rows[j] = {slot: weight}."""
  ctx = M.tsum([T.add(T.mul(int(ids[q]), w['id'].terms[q]),
                      T.mul(q % 2, w['tt'].terms[q]))
                for q in range(len(ids)) if q not in pos])
  out = []
  for c in range(M.TXT_OUT):
    s = [T.mul(ctx, w['b'].terms[c])]
    for j in range(len(pos)):
      for k, v in rows[j].items():
        s.append(T.mul(v, w['v'].terms[j, p, k, c]))
    out.append(M.tsum(s))
  return out


def _logp(logits, tok):
  z = T.add(M.TXT_C - M.TXT_OUT, M.tsum([T.exp(v) for v in logits]))
  own = logits[tok] if tok < M.TXT_OUT else T.const(0)
  return T.sub(own, T.log(z))


def _slot(tok):
  return {M.TXT_IN.index(tok): T.const(1)} if tok in M.TXT_IN else {}


MASK = {M.TXT_IN.index(103): T.const(1)}


def score(pos, words, xs, onehot):
  """forward of integer / one-hot infillings, every network."""
  w, data, ids = _setup(pos, words)
  x = np.array(xs)
  if onehot:
    x = np.eye(M.TXT_C, dtype=np.float32)[x]

  @_quiet
  def fn(w):
    m = _model(data, w)
    params = m.make_init_params(None)
    return m.forward(params, x)

  def oracle(out):
    res = []
    for row in xs:
      t = []
      for i, p in enumerate(pos):
        rows = [_slot(v) for v in row]
        rows[i] = MASK
        t.append(_logp(_logits(w, pos, ids, rows, p), row[i]))
      res.append(M.tsum(t))
    return M.vec(res)
  return [F.Contract('pseudo log-likelihood of the infilled slots', fn, (w,),
                     oracle)]


def grad(pos, words):
  """value and gradient with respect to relaxed one-hots."""
  w, data, ids = _setup(pos, words)
  n = len(pos)
  x = Sym('x', (1, n, M.TXT_C), lo=0, hi=1)
  for j in range(n):
    for c in range(M.TXT_C):
      if c not in M.TXT_IN:
        x.terms[0, j, c] = T.const(0)

  @_quiet
  def fn(w, x):
    m = _model(data, w)
    params = m.make_init_params(None)
    ll, g = m.get_value_and_grad(params, x)
    return ll, g[..., list(M.TXT_IN)]

  def oracle(out):
    t = []
    for i, p in enumerate(pos):
      rows = [{k: x.terms[0, j, c] for k, c in enumerate(M.TXT_IN)}
              for j in range(n)]
      rows[i] = MASK
      lg = _logits(w, pos, ids, rows, p)
      t += [T.mul(x.terms[0, i, c], _logp(lg, c)) for c in M.TXT_IN]
    v = M.tsum(t)
    g = np.empty((1, n, len(M.TXT_IN)), dtype=object)
    for j in range(n):
      for k, c in enumerate(M.TXT_IN):
        g[0, j, k] = F.diff(v, F.varname(x.terms[0, j, c]))
    return M.vec([v]), g
  return [F.Contract('value and gradient of the score', fn, (w, x), oracle)]


def init(pos, words, rand):
  """Law of the initial infilling."""
  w, data, ids = _setup(pos, words)

  @_quiet
  def fn(key, w):
    m = _model(data, w, rand)
    m.make_init_params(None)
    return m.get_init_samples(key, 1)

  def want(o):
    r = T.const(1)
    for j, p in enumerate(pos):
      r = T.mul(r, T.div(1, M.TXT_C) if rand else T.exp(_logp(
          _logits(w, pos, ids, [MASK] * len(pos), p), o[j])))
    return r
  space = list(itertools.product(range(M.TXT_C), repeat=len(pos)))
  return [F.Law('initial tokens', fn, (w,), F.ints, want, space)]


def decode(pos, words, count):
  """Decoding and the order of the data: tokens replaced exactly at the slots."""
  rng = np.random.RandomState(0)
  data = []
  for i in range(count):
    data.append(dict(sentence=' '.join(str(v + i) for v in words),
                     infill_pos=[(p + i - 1) % len(words) + 1 for p in pos]))
  x = Sym('tok', (1, len(pos)), dtype=np.int32, lo=0, hi=M.TXT_C - 1,
          isint=True)

  @_quiet
  def fn(x):
    import jax.numpy as jnp
    m = M.text_model(data)
    out = []
    for _ in range(count):
      p = m.make_init_params(None)
      out.append(m.decode(x, p))
    return [jnp.stack(out), jnp.asarray(m.make_init_params(None) is None)]

  def oracle(out):
    res = []
    for i, d in enumerate(data):
      ids = [T.const(101)] + [T.const(v + i) for v in words] + [T.const(102)]
      for j, p in enumerate(d['infill_pos']):
        ids[p] = x.terms[0, j]
      res += ids[1:-1]
    return M.vec(res + [T.const(1)])
  return [F.Contract('decoded tokens', fn, (x,), oracle)]


def configs(tier):
  out = [dict(case='score', args=a) for a in (
      ((1,), (7, 8), ((0,), (1,), (5,)), False),
      ((1, 3), (7, 8, 9), ((0, 1), (1, 2), (5, 0)), False),
      ((3, 1), (7, 8, 9), ((0, 1), (2, 1)), True),
      ((2, 3), (4, 5, 6, 7), ((1, 103), (1, 1)), False),
      ((1, 2, 4), (4, 5, 6, 7), ((0, 1, 2), (2, 103, 0)), False))]
  out += [dict(case='grad', args=a) for a in (
      ((1,), (7, 8)), ((1, 3), (7, 8, 9)))]
  out += [dict(case='init', args=a) for a in (
      ((2,), (7, 8), True), ((1,), (7, 8), False))]
  out += [dict(case='decode', args=a) for a in (
      ((1,), (7, 8), 2), ((3, 1), (7, 8, 9), 3), ((1, 2), (5, 6, 7, 8), 4))]
  if tier == 'thorough':
    out += [dict(case='score', args=((1, 2, 4), (4, 5, 6, 7), (
        (0, 1, 2), (1, 103, 0), (50, 1, 1)), oh)) for oh in (False, True)]
    out += [dict(case='grad', args=((1, 2, 4), (4, 5, 6, 7)))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
