"""Lattice models: Ising and Potts energies."""
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _edges(shape):
  H, W = shape
  for i in range(H):
    for j in range(W):
      if j + 1 < W:
        yield 0, (i, j), (i, j + 1)
      if i + 1 < H:
        yield 1, (i, j), (i + 1, j)


def _ising_energy(J, x, shape):
  s = 2 * x.astype(int) - 1
  t = [T.mul(J[(d,) + a], int(-s[a] * s[b])) for d, a, b in _edges(shape)]
  t += [T.mul(J[(2,) + ix], int(-s[ix])) for ix in np.ndindex(*shape)]
  return M.tsum(t)


def _potts_energy(J, x, shape):
  t = [T.neg(J[(d,) + a + (int(x[a]),)]) for d, a, b in _edges(shape)
       if x[a] == x[b]]
  t += [T.neg(J[(2,) + ix + (int(x[ix]),)]) for ix in np.ndindex(*shape)]
  return M.tsum(t)


def ising(shape):
  m, p = M.ising(shape)
  X = M.pick(2, shape)
  J = p['params'].terms
  return [F.Contract('every lattice bond counts once, every field once',
                     m.forward, (p, X),
                     lambda out: M.vec([_ising_energy(J, x, shape) for x in X]))]


def potts(shape, C):
  m, p = M.potts(shape, C)
  X = M.pick(C, shape, 90)
  J = p['params'].terms
  return [F.Contract('every bond between equal neighbours counts once, every '
                     'field once', m.forward, (p, X),
                     lambda out: M.vec([_potts_energy(J, x, shape) for x in X]))]


class Init:
  """Coupling lambda, field within init_sigma of +-mu."""

  def __init__(self, kind, shape, C=2):
    self.kind, self.shape, self.C = kind, tuple(shape), C
    self.label = 'initial parameters'
    self.args = (Sym('lam', ()), Sym('sigma', (), lo=0), Sym('mu', ()))
    self.X = M.some_states(C, shape, 4)

  def fn(self, key, lam, sigma, mu):
    import jax.numpy as jnp
    m = (M.ising(self.shape) if self.kind == 'ising'
         else M.potts(self.shape, self.C))[0]
    m.lambdaa, m.init_sigma, m.mu = lam, sigma, mu
    p = m.make_init_params(key)
    return m.forward(p, jnp.asarray(self.X)), p['params']

  def run(self, res, cfg, slot, rng):
    from symx import statecheck as SC
    tr = F.trace(self.fn, self.args, key=True)
    res['functions'] = sorted(set(res['functions']) | tr.funcs)
    lam, sig, mu = (a.terms[()] for a in self.args)
    for (ll, p), c in F.run(tr, self.args, (), key=True):
      res['paths'] += 1
      ll, p = F.arr(ll), F.arr(p)
      for i, x in enumerate(self.X):
        J = p.copy()
        for d in (0, 1):
          for ix in np.ndindex(*J[d].shape):
            J[d][ix] = T.neg(lam)
        en = (_ising_energy if self.kind == 'ising' else _potts_energy)(
            J, x, self.shape)
        SC.prove_equal(res, ll[i], en, c.conds, rng, 'coupling is lambda',
                       lambda env, i=i: self._rec(cfg, slot, env))
      for ix in np.ndindex(*p[2].shape):
        # field - (+-mu) lies within sigma for draws in [0, 1]
        import itertools
        us = sorted({T.BASES[b].args[0] for b in _rand_vars(p[2][ix])})
        lo = [T.le(T.const(0), T.base_F(T._atom_tab[('var', (u,))])) for u in us]
        hi = [T.le(T.base_F(T._atom_tab[('var', (u,))]), T.const(1)) for u in us]
        s = _inside(ix, p[2].shape)
        d = T.sub(p[2][ix], T.mul(mu, s))
        ok = T.band(T.le(T.neg(sig), d), T.le(d, sig))
        SC.prove_holds(res, ok, list(c.conds) + lo + hi, rng,
                       'field within init_sigma of mu inside the disc, -mu outside',
                       lambda env: self._rec(cfg, slot, env))
      if SC.too_many(res):
        return

  def _rec(self, cfg, slot, env):
    return dict(kind='init', case=cfg['case'], slot=slot,
                env={k: float(v) for k, v in env.items()})

  def replay(self, rec):
    import jax
    for seed in range(200):
      vals = F.values_of(self.args, rec['env'])
      lam, sig, mu = (float(v) for v in vals)
      ll, p = self.fn(jax.random.PRNGKey(seed), *vals)
      p = np.asarray(p, np.float64)
      sgn = np.array([abs(p[2][ix] - mu * _inside(ix, p[2].shape))
                      for ix in np.ndindex(*p[2].shape)])
      if sgn.max() > abs(sig) + 1e-4:
        return True, dict(field=p[2].tolist(), mu=mu, sigma=sig)
      for i, x in enumerate(self.X):
        s = 2 * x - 1
        want = 0.0
        for d, a, b in _edges(self.shape):
          want += lam * (s[a] * s[b] if self.kind == 'ising'
                         else float(x[a] == x[b]))
        for ix in np.ndindex(*self.shape):
          want -= (p[(2,) + ix] * s[ix] if self.kind == 'ising'
                   else p[(2,) + ix + (int(x[ix]),)])
        if abs(want - float(ll[i])) > 1e-3 * max(1, abs(want)):
          return True, dict(state=x.tolist(), got=float(ll[i]), expected=want)
    return False, dict(reason='not reproduced')

  def smoke(self):
    import jax
    self.fn(jax.random.PRNGKey(0), *F.values_of(self.args, {}))


def _inside(ix, shape):
  """+1 on the central disc covering half of the lattice, -1 around it."""
  import math
  r2 = sum((ix[d] / shape[d] - .5) ** 2 for d in (0, 1))
  return 1 if r2 < .5 / math.pi else -1


def _rand_vars(f):
  from symx import explore as X
  return [i for i in X.deps(f) if T.BASES[i].kind == 'var' and T.BASES[i].rand]


def ising_init(shape):
  return [Init('ising', shape)]


def potts_init(shape, C):
  return [Init('potts', shape, C)]


def configs(tier):
  out = [dict(case='ising', args=(s,)) for s in ((2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (3, 3), (4, 2), (2, 5))]
  out += [dict(case='potts', args=(s, C)) for s, C in (((2, 2), 3), ((1, 3), 3), ((3, 2), 2), ((2, 3), 4), ((3, 3), 3), ((4, 2), 3), ((2, 4), 2))]
  out += [dict(case='ising_init', args=((2, 3),)), dict(case='ising_init', args=((3, 2),)), dict(case='ising_init', args=((5, 3),)),
          dict(case='potts_init', args=((2, 3), 3)), dict(case='potts_init', args=((3, 4), 3))]
  if tier == 'thorough':
    out += [dict(case='ising', args=((4, 4),)), dict(case='ising', args=((3, 5),)),
            dict(case='potts', args=((4, 3), 4)), dict(case='potts', args=((4, 4), 3))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
