"""Persistent chains: negatives continue the chains, the buffer keeps them."""
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import learnlib as Q
from symx import modlib as M
from symx import nprand
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _raw(x):
  return x.val if isinstance(x, eager.SymTracer) else np.asarray(x)


def _move(x, a, s):
  return [T.add(T.mul(v, T.add(1, w)), s) for v, w in zip(x, a)]


def rbm(n, batch, devs, pcd, rounds):
  x = Sym('x', (devs, batch, n), isint=True)
  s = Sym('s', (devs,), isint=True)
  a = Sym('a', (rounds, n), isint=True)
  data = Sym('d', (rounds, devs, batch, n), isint=True)
  k0 = Sym('k0', (), dtype=np.int32, lo=0, isint=True)

  def fn(x, s, a, data, k0):
    import jax
    import jax.numpy as jnp
    import types
    from discs.common import utils
    cfg = Q.config('rbm', pcd_steps=pcd)
    with Q.devices(devs), L.quiet():
      t = Q.trainer('rbm', cfg, n)
      loc = utils.SamplerState(step=jnp.stack([k0] * devs), samples=x,
                               sampler_state=s)
      out = []
      for r in range(rounds):
        p = dict(a=jnp.stack([a[r]] * devs), b=jnp.zeros((devs, n)))
        (pos, neg), loc = t.batch_processing(
            loc, types.SimpleNamespace(params=p), jax.random.PRNGKey(r), data[r])
        out += [pos, neg]
    return out, loc.step, loc.samples, loc.sampler_state

  def oracle():
    X = [[list(x.terms[d, b]) for b in range(batch)] for d in range(devs)]
    S = list(s.terms)
    out = []
    for r in range(rounds):
      for _ in range(pcd):
        X = [[_move(v, a.terms[r], S[d]) for v in X[d]] for d in range(devs)]
        S = [T.add(v, 1) for v in S]
      out += [data.terms[r], X]
    return out, [T.add(k0.terms[()], rounds * pcd)] * devs, X, S
  return [eager.Contract('positives, negatives and chains', fn,
                         (x, s, a, data, k0), oracle)]


def ebm(n, batch, devs, pcd, size, picks):
  """Replay buffer: picks[r] are the entries chosen in round r."""
  rounds = len(picks)
  B = batch * devs
  init = Sym('i', (size, n), isint=True)
  fresh = Sym('f', (rounds, B, n), isint=True)
  re = Sym('re', (rounds, B, n), dtype=np.int32, lo=0, hi=1, isint=True)
  a = Sym('a', (rounds, n), isint=True)
  data = Sym('d', (rounds, devs, batch, n), isint=True)
  s = Sym('s', (devs,), isint=True)
  train = Sym('tr', (3, n), lo=0, hi=1)

  def fn(init, fresh, re, a, data, s, train):
    import jax
    import jax.numpy as jnp
    import types
    from discs.common import utils
    ini, fr, ret, tr = map(_raw, (init, fresh, re, train))
    if ini.dtype != object:
      ini, fr, ret = (np.array(v, np.float32) for v in (ini, fr, ret))
    calls = []
    state = dict(r=-1)

    def binomial(n=1, p=None, size=None):
      """First the buffer, then per round fresh states and the coin flips."""
      if n != 1:
        raise T.Unsupported('binomial with n = %r' % (n,))
      size = tuple(np.atleast_1d(size))
      calls.append((p, size))
      if len(calls) == 1:
        return ini.copy()
      r = state['r']
      if not (isinstance(p, np.ndarray) and p.ndim):
        state['coin'] = p
        return (ret[r, :, 0] if int(np.prod(size)) == B else ret[r]).reshape(
            size).copy()
      state['mean'] = p
      return fr[r].reshape(size).copy()

    choice, permutation = nprand.picker(size, lambda: sorted(picks[state['r']]))
    cfg = Q.config('ebm', pcd_steps=pcd, buffer_size=size, reinit_freq=0.25)
    out = []
    with Q.devices(devs), L.quiet(), nprand.patched(
        binomial=binomial, choice=choice, permutation=permutation):
      t = Q.trainer('ebm', cfg, n, tr)
      out += [jnp.asarray(v) if not isinstance(v, T.F) else eager.wrap(
          np.array(v, dtype=object)) for v in np.asarray(calls[0][0]).reshape(-1)]
      loc = utils.SamplerState(step=jnp.zeros((devs,), jnp.int32),
                               samples=jnp.zeros((devs, batch, n)),
                               sampler_state=s)
      for r in range(rounds):
        state['r'] = r
        p = dict(a=jnp.stack([a[r]] * devs), b=jnp.zeros((devs, n)))
        (pos, neg), loc = t.batch_processing(
            loc, types.SimpleNamespace(params=p), jax.random.PRNGKey(r), data[r])
        out += [pos, neg, loc.step]
      out += [state['coin'], int(np.asarray(state['mean']).reshape(-1).tolist()
                                 == np.asarray(calls[0][0]).reshape(-1).tolist())]
    return out, loc.samples

  def oracle():
    eps = T.lift(1e-2)
    out = [T.add(T.mul(T.div(M.tsum(train.terms[:, i]), 3),
                       1. - 2 * 1e-2), eps) for i in range(n)]
    buf = [list(v) for v in init.terms]
    S = list(s.terms)
    for r in range(rounds):
      idx = sorted(picks[r])
      X = []
      for k, j in enumerate(idx):
        c = re.terms[r, k, 0]
        X.append([T.add(T.mul(c, f), T.mul(T.sub(1, c), v))
                  for f, v in zip(fresh.terms[r, k], buf[j])])
      for _ in range(pcd):
        X = [_move(v, a.terms[r], S[k // batch]) for k, v in enumerate(X)]
        S = [T.add(v, 1) for v in S]
      for j, v in zip(idx, X):
        buf[j] = v
      out += [data.terms[r], X, [T.const((r + 1) * pcd)] * devs]
    return out + [T.div(1, 4), T.const(1)], X
  return [eager.Contract('negatives drawn from and returned to the buffer', fn,
                         (init, fresh, re, a, data, s, train), oracle)]


def slots(n, batch, devs, size, picks):
  """picks[0] advance together, in the order the generator gives them; then one
  entry after the other is advanced alone, which shows what its slot holds.
  Fresh states and coin flips are those of the round, so the order in which the
  entries are laid out over the batch does not matter."""
  rounds = len(picks)
  init = Sym('i', (size, n), isint=True)
  fresh = Sym('f', (rounds, n), isint=True)
  re = Sym('re', (rounds,), dtype=np.int32, lo=0, hi=1, isint=True)
  a = Sym('a', (rounds, n), isint=True)
  train = Sym('tr', (2, n), lo=0, hi=1)

  def fn(init, fresh, re, a, train):
    import jax
    import jax.numpy as jnp
    import types
    from discs.common import utils
    ini, fr, ret, tr = map(_raw, (init, fresh, re, train))
    if ini.dtype != object:
      ini, fr, ret = (np.array(v, np.float32) for v in (ini, fr, ret))
    state = dict(r=-1)

    def binomial(n=1, p=None, size=None):
      if n != 1:
        raise T.Unsupported('binomial with n = %r' % (n,))
      size = tuple(np.atleast_1d(size))
      r = state['r']
      if r < 0:
        return ini.copy()
      if not (isinstance(p, np.ndarray) and p.ndim):
        out = np.empty(size, ret.dtype)
        out[...] = ret[r]
        return out
      out = np.empty(size, fr.dtype)
      out[...] = fr[r]
      return out

    choice, permutation = nprand.picker(size, lambda: picks[state['r']])
    cfg = Q.config('ebm', pcd_steps=1, buffer_size=size, reinit_freq=0.25)
    out = []
    with L.quiet(), nprand.patched(
        binomial=binomial, choice=choice, permutation=permutation):
      for r in range(rounds):
        dv = devs if r == 0 else 1
        with Q.devices(dv):
          if r == 0:
            t = Q.trainer('ebm', cfg, n, tr)
          state['r'] = r
          b = len(picks[r]) // dv
          p = dict(a=jnp.stack([a[r]] * dv), b=jnp.zeros((dv, n)))
          loc = utils.SamplerState(step=jnp.zeros((dv,), jnp.int32),
                                   samples=jnp.zeros((dv, b, n)),
                                   sampler_state=jnp.zeros((dv,)))
          (_, neg), loc = t.batch_processing(
              loc, types.SimpleNamespace(params=p), jax.random.PRNGKey(r),
              jnp.zeros((dv, b, n)))
          out.append(neg if r else jnp.sum(neg, (0, 1)))
    return out

  def oracle():
    buf = [list(v) for v in init.terms]
    out = []
    for r in range(rounds):
      c = re.terms[r]
      X = []
      for j in picks[r]:
        v = [T.add(T.mul(c, f), T.mul(T.sub(1, c), w))
             for f, w in zip(fresh.terms[r], buf[j])]
        buf[j] = _move(v, a.terms[r], T.const(0))
        X.append(buf[j])
      out.append([[X[0]]] if r else
                 [M.tsum([v[i] for v in X]) for i in range(n)])
    return out
  return [eager.Contract('every chain returns to its own slot', fn,
                         (init, fresh, re, a, train), oracle)]


def configs(tier):
  # sites, batch, devices, steps per round, rounds
  out = [dict(case='rbm', args=a) for a in (
      (2, 2, 1, 1, 1), (1, 2, 2, 2, 2), (2, 1, 2, 3, 1), (1, 1, 1, 2, 3))]
  # sites, batch, devices, steps, buffer, entries of each round
  out += [dict(case='ebm', args=a) for a in (
      (2, 2, 1, 1, 4, ((2, 0), (0, 3))), (1, 1, 2, 2, 3, ((2, 1), (1, 2))),
      (2, 1, 1, 1, 3, ((1,), (1,), (2,))), (2, 2, 2, 1, 5, ((4, 0, 3, 1),)))]
  # sites, batch, devices, buffer, entries of each round
  out += [dict(case='slots', args=a) for a in (
      (2, 2, 1, 4, ((2, 0), (0,), (2,), (3,))),
      (1, 3, 1, 4, ((3, 1, 0), (0,), (1,), (2,), (3,))),
      (1, 2, 2, 5, ((4, 0, 3, 1), (0,), (1,), (3,), (4,))))]
  if tier == 'thorough':
    out += [dict(case='rbm', args=(3, 2, 2, 3, 2)),
            dict(case='ebm', args=(2, 2, 2, 2, 6, ((5, 4, 3, 0), (1, 0, 5, 2))))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
