"""FHMM: the energy is the joint of its own generative process."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out


def _binary(shape, alpha, beta, sigma):
  from discs.models import fhmm
  return fhmm.build_model(M.cfg(shape=tuple(shape), num_categories=2,
                                alpha=alpha, beta=beta, sigma=sigma))


def _categ(shape, C, alpha, beta, sigma):
  from discs.models import fhmm
  return fhmm.build_model(M.cfg(shape=tuple(shape), num_categories=C,
                                alpha=alpha, beta=beta, sigma=sigma))


def _hyper():
  return (Sym('alpha', (), lo=F_EPS, hi=1 - F_EPS),
          Sym('beta', (), lo=F_EPS, hi=1 - F_EPS), Sym('sigma', (), pos=True))


F_EPS = T.Fraction(1, 100)


def _logpx(x, C, la, ls, lm):
  """x (L, k) ints; la[c] log initial, ls stay, lm move to one other."""
  t = [la[int(v)] for v in x[0]]
  for a, b in zip(x[:-1], x[1:]):
    t += [ls if u == v else lm for u, v in zip(a, b)]
  return M.tsum(t)


def binary(shape):
  L, k = shape
  X = M.pick(2, shape, 64)
  hy = _hyper()
  p = dict(w=Sym('w', (k, 1)), b=Sym('b', (1, 1)), y=Sym('y', (L, 1)))
  al, be, sg = (h.terms[()] for h in hy)
  la = [T.log(T.sub(1, al)), T.log(al)]
  ls, lm = T.log(be), T.log(T.sub(1, be))

  def energy(out):
    r = []
    for x in X:
      q = []
      for l in range(L):
        d = T.sub(T.sub(p['y'].terms[l, 0], M.tsum(
            p['w'].terms[i, 0] for i in range(k) if x[l, i])),
                  p['b'].terms[0, 0])
        q.append(T.mul(d, d))
      gauss = T.neg(T.div(M.tsum(q), T.mul(2, T.mul(sg, sg))))
      r.append(T.add(_logpx(x, 2, la, ls, lm), gauss))
    return M.vec(r)

  def fwd(alpha, beta, sigma, q, x):
    return _binary(shape, alpha, beta, sigma).forward(q, x)
  out = [F.Contract('log joint of the hidden chains and the observations', fwd,
                    hy + (p, X), energy)]
  if L * k <= 4:
    out.append(F.Law('hidden chains start and move as documented',
                     lambda key, a, b, s: _binary(shape, a, b, s).sample_X(key),
                     hy, F.ints,
                     lambda o: T.exp(_logpx(np.array(o).reshape(L, k), 2, la,
                                            ls, lm)),
                     list(itertools.product(range(2), repeat=L * k))))
  return out


def categ(shape, C):
  L, k = shape
  X = M.pick(C, shape, 90)
  hy = _hyper()
  p = dict(w=Sym('w', (k, C)), b=Sym('b', (1, 1)), y=Sym('y', (1, L)),
           alpha=Sym('la', (C,)))
  al, be, sg = (h.terms[()] for h in hy)
  ls, lm = T.log(be), T.log(T.div(T.sub(1, be), C - 1))
  la = list(p['alpha'].terms)

  def energy(out):
    r = []
    for x in X:
      q = []
      for l in range(L):
        d = T.sub(T.sub(p['y'].terms[0, l], M.tsum(
            p['w'].terms[i, int(x[l, i])] for i in range(k))),
                  p['b'].terms[0, 0])
        q.append(T.mul(d, d))
      gauss = T.neg(T.div(M.tsum(q), T.mul(2, T.mul(sg, sg))))
      r.append(T.add(_logpx(x, C, la, ls, lm), gauss))
    return M.vec(r)

  def fwd(alpha, beta, sigma, q, x):
    return _categ(shape, C, alpha, beta, sigma).forward(q, x)
  out = [F.Contract('log joint of the hidden chains and the observations', fwd,
                    hy + (p, X), energy)]
  if C ** (L * k) <= 27:
    def samp(key, a, b, s, lg):
      import functools
      import jax
      m = _categ(shape, C, a, b, s)
      m.p_x0 = functools.partial(jax.random.categorical, logits=lg)
      return jax.numpy.argmax(m.sample_X(key), -1)
    z = M.tsum(T.exp(v) for v in la)
    out.append(F.Law('hidden chains start and move as documented', samp,
                     hy + (p['alpha'],), F.ints,
                     lambda o: T.div(T.exp(_logpx(np.array(o).reshape(L, k), C,
                                                  la, ls, lm)),
                                     T.powq(z, k)),
                     list(itertools.product(range(C), repeat=L * k))))
  return out


def observe(shape, C):
  L, k = shape
  hy = _hyper()
  w = Sym('w', (k, 1) if C == 2 else (k, C))
  b = Sym('b', (1, 1))
  X = M.pick(C, shape, 16)

  def shift(key, al, be, s, w, b):
    m = (_binary(shape, al, be, s) if C == 2 else _categ(shape, C, al, be, s))
    r = []
    for x in X:
      x = x.astype(np.float32) if C == 2 else M.onehot(x, C)
      y = m.sample_Y(key, x, w, b)
      y0 = m.sample_Y(key, x * 0, w * 0, b * 0)
      r.append((y - y0).reshape(-1))
    return r

  def mean(out):
    r = []
    for x in X:
      for l in range(L):
        r.append(T.add(b.terms[0, 0], M.tsum(
            w.terms[i, 0 if C == 2 else int(x[l, i])] for i in range(k)
            if C != 2 or x[l, i])))
    return M.vec(r)

  def scale(key, al, be, s, w, b):
    r = []
    for t in (s, 1.0):
      m = (_binary(shape, al, be, t) if C == 2 else _categ(shape, C, al, be, t))
      x = np.zeros(shape if C == 2 else tuple(shape) + (C,), np.float32)
      r.append(m.sample_Y(key, x, w * 0, b * 0).reshape(-1) / t)
    return r[0] - r[1]
  return [F.Contract('observations are centred on the emission mean', shift,
                     hy + (w, b), mean, key=True),
          F.Contract('observation noise scales with sigma', scale, hy + (w, b),
                     lambda out: M.vec([T.const(0)] * L), key=True)]


def configs(tier):
  out = [dict(case='binary', args=(s,)) for s in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 1), (5, 2))]
  out += [dict(case='categ', args=a) for a in (((2, 1), 3), ((3, 1), 3), ((2, 2), 3), ((2, 3), 3), ((2, 4), 4), ((4, 1), 3), ((3, 2), 3))]
  out += [dict(case='observe', args=a) for a in (((2, 2), 2), ((3, 1), 2), ((2, 2), 3))]
  if tier == 'thorough':
    out += [dict(case='binary', args=((4, 3),)), dict(case='categ', args=((3, 3), 4))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
