"""Transition kernels of the samplers, extracted symbolically from the code."""
from collections import defaultdict
from fractions import Fraction
import importlib
import itertools
import math
import random
import time

import numpy as np
import jax
import jax.numpy as jnp
import ml_collections

from symx import explore as X
from symx import interp as I
from symx import rnd
from symx import smt
from symx import stubs
from symx import terms as T

MODULES = dict(rw='randomwalk', gibbs='gibbs', gwg='gwg', dlmc='dlmc',
               dmala='dmala', pafs='path_auxiliary', hb='hammingball',
               bg='blockgibbs')

DEFAULT_OPTS = dict(adaptive=False, target_acceptance_rate=0.574,
                    balancing_fn_type='SQRT', num_flips=1, block_size=2,
                    use_fast_path=True, approx_with_grad=True,
                    schedule_step=100, n=3, reset_z_est=20,
                    solver='interpolate')


def build_sampler(name, C, shape, opts):
  o = dict(DEFAULT_OPTS)
  o.update(opts)
  co = o.pop('co_opt_prob', False)
  cfg = ml_collections.ConfigDict(dict(
      model=dict(shape=tuple(shape), num_categories=C),
      sampler=dict(name=name, **o),
      experiment=dict(co_opt_prob=co)))
  mod = importlib.import_module('discs.samplers.' + MODULES[name])
  return mod.build_sampler(cfg)


def spec(x):
  return jax.ShapeDtypeStruct(jnp.shape(x), jnp.result_type(x))


class Kernel:
  """Symbolic one-step kernel of a sampler on an uninterpreted model."""

  def __init__(self, name, C, shape, B=1, opts=None, mask=None, need_state=False,
               steps_lo=1):
    self.name, self.C, self.shape, self.B = name, C, tuple(shape), B
    self.opts = dict(opts or {})
    self.mask = mask
    self.D = int(np.prod(shape))
    self.sampler = build_sampler(name, C, shape, self.opts)
    self.model = stubs.StubModel(shape, C)
    st = self.sampler.make_init_state(jax.random.PRNGKey(0))
    self.st_keys = sorted(st)
    stspec = {k: spec(v) for k, v in st.items()}
    for k in ('log_tau', 'log_z'):
      if k in stspec:
        stspec[k] = jax.ShapeDtypeStruct((), np.float32)
    self.stspec = stspec
    xspec = jax.ShapeDtypeStruct((B,) + self.shape, np.int32)
    mspec = [jax.ShapeDtypeStruct(np.shape(mask), np.float32)] \
        if mask is not None else []

    def fn(k, x, p, stt, *m):
      if m:
        return self.sampler.step(self.model, k, x, p, stt, m[0])
      return self.sampler.step(self.model, k, x, p, stt)

    kw = {} if need_state else dict(keep=(0,))
    self.need_state = need_state
    self.tr = I.Traced(fn, jax.ShapeDtypeStruct((2,), np.uint32), xspec,
                       self.model.params_spec(), stspec, *mspec, **kw)
    self.funcs = self.tr.funcs
    self.stsym = {}
    for k in st:
      a = I.obj(())
      if k == 'radius':
        a[()] = T.var('radius', lo=1, hi=self.D)
      elif k == 'index':
        a[()] = T.var('index', isint=True, lo=0, hi=self.D - 1)
      elif k == 'steps':
        a[()] = T.var('steps', isint=True, lo=steps_lo)
      elif k == 'num_ll_calls':
        a[()] = T.var('num_ll_calls', isint=True, lo=0)
      else:
        a[()] = T.var(k)
      self.stsym[k] = a
    self.paths = 0

  def states(self):
    return list(itertools.product(range(self.C), repeat=self.D * self.B))

  def run(self, x, assume=(), **st):
    """Yields (y tuple, outputs, ctx) over all paths from x."""
    xa = np.array(x, dtype=np.int32).reshape((self.B,) + self.shape)
    sts = dict(self.stsym)
    for k, v in st.items():
      a = I.obj(())
      a[()] = T.lift(v)
      sts[k] = a
    args = [xa, self.model.params_sym(), sts]
    if self.mask is not None:
      args.append(np.asarray(self.mask, np.float32))
    for out, c in X.explore(lambda: self.tr(rnd.key_array('k'), *args), assume):
      self.paths += 1
      y = np.asarray(out[0])
      yield tuple_of(y), out, c

  def weight(self, s):
    r = T.const(1)
    for b in range(self.B):
      r = r * self.model.W(s[b * self.D:(b + 1) * self.D])
    return r


def tuple_of(y):
  out = []
  for v in np.asarray(y).reshape(-1):
    if isinstance(v, T.F):
      if not T.is_const(v):
        raise T.Unsupported('symbolic sample value %r' % v)
      v = v.coef
      out.append(int(v) if v.denominator == 1 else v)
    else:
      out.append(int(v) if float(v) == int(v) else float(v))
  return tuple(out)


# ------------------------------------------------------------------ cells
def canon(b):
  n = T.bnot(b)
  if isinstance(n, T.B) and n.uid < b.uid:
    return n, False
  return b, True


def cells(groups):
  """Partition of the parameter space by the path conditions in `groups`.

  groups: iterable of tuples of B.  Yields (conds, test) with test(tuple of B)
  telling whether the path belongs to the cell.
  """
  atoms = {}
  for g in groups:
    for b in g:
      c, s = canon(b)
      atoms[c.uid] = c
  atoms = list(atoms.values())
  if len(atoms) > 14:
    raise T.Unsupported('%d distinct path conditions' % len(atoms))
  out = []

  def rec(i, conds, val):
    if i == len(atoms):
      out.append((list(conds), dict(val)))
      return
    for v in (True, False):
      lit = atoms[i] if v else T.bnot(atoms[i])
      if X.sat(conds + [lit]):
        val[atoms[i].uid] = v
        rec(i + 1, conds + [lit], val)
        del val[atoms[i].uid]

  rec(0, [], {})
  for conds, val in out:
    def test(g, val=val):
      for b in g:
        c, s = canon(b)
        if val[c.uid] != s:
          return False
      return True
    yield conds, test


def cancel(ls, rs):
  """Removes terms common to both lists (they are hash-consed)."""
  cnt = defaultdict(int)
  byid = {}
  for t in ls:
    cnt[t.uid] += 1
    byid[t.uid] = t
  for t in rs:
    cnt[t.uid] -= 1
    byid[t.uid] = t
  a, b = [], []
  for u, n in cnt.items():
    if n > 0:
      a += [byid[u]] * n
    elif n < 0:
      b += [byid[u]] * (-n)
  return a, b


RATS = [Fraction(3, 4), Fraction(5, 6), Fraction(1), Fraction(7, 6),
        Fraction(5, 4), Fraction(4, 3), Fraction(2, 3), Fraction(3, 2)]


def random_pins(names, rng, bounds=None):
  """Rational valuation of the variables: {name: pin}, {name: float}."""
  pins, env = {}, {}
  for n in sorted(names):
    Bx = T._atom_tab[('var', (n,))]
    if Bx.isint:
      lo = int(Bx.lo or 0)
      hi = int(Bx.hi) if Bx.hi is not None else lo + 4
      v = rng.randint(lo, hi)
      pins[n] = ('val', Fraction(v))
      env[n] = float(v)
    elif Bx.lo is not None or Bx.hi is not None:
      lo = Fraction(Bx.lo if Bx.lo is not None else Bx.hi - 2)
      hi = Fraction(Bx.hi if Bx.hi is not None else lo + 2)
      v = lo + (hi - lo) * Fraction(rng.randint(0, 16), 16)
      pins[n] = ('val', v)
      env[n] = float(v)
    elif Bx.pos:
      v = rng.choice(RATS)
      pins[n] = ('val', v)
      env[n] = float(v)
    else:
      r = rng.choice(RATS)
      if n.startswith('log_'):
        r = 1 / (1 + Fraction(rng.randint(0, 4), 8))
      elif rng.random() < 0.25:
        r = r * r
      pins[n] = ('exp4', r)
      env[n] = 4 * math.log(r)
  return pins, env


def var_names(objs):
  ids = set()
  for o in objs:
    ids |= X.deps(o)
  return {T.BASES[i].args[0] for i in ids}


def decide_equal(ls, rs, conds, rng, tries=60, score=None, budget=20000):
  """Decides sum(ls) == sum(rs) under conds.

  Returns ('unsat', None) | ('sat', env) | ('unknown', None).
  score(env, lhs, rhs) -> float ranks candidate witnesses.
  """
  a, b = cancel(ls, rs)
  if not a and not b:
    v, _ = smt.check([False])
    return v, None
  names = var_names(a + b + list(conds))
  best = None
  for _ in range(tries):
    pins, env = random_pins(names, rng)
    memo = {}
    try:
      if not all(smt.eval_b(c, env, memo) for c in conds):
        continue
    except (ValueError, OverflowError, ZeroDivisionError):
      continue
    try:
      fa = math.fsum(smt.eval_f(t, env, memo) for t in a)
      fb = math.fsum(smt.eval_f(t, env, memo) for t in b)
      mag = math.fsum(abs(smt.eval_f(t, env, memo)) for t in a + b)
    except (ValueError, OverflowError, ZeroDivisionError):
      continue
    if not (math.isfinite(fa) and math.isfinite(fb)):
      continue
    if abs(fa - fb) > 1e-5 * max(mag, 1e-30):
      mm = smt.mp_memo()
      da = sum((smt.eval_f(t, env, mm) for t in a), smt._MB.zero)
      db = sum((smt.eval_f(t, env, mm) for t in b), smt._MB.zero)
      if not abs(da - db) > max(1e-6 * max(abs(da), abs(db)), 1e-70):
        continue
      s = score(env, fa, fb) if score else abs(fa - fb)
      if best is None or s > best[0]:
        best = (s, pins, env)
  if best is None:
    try:
      n = T.renormalize(a + b)
      a2, b2 = cancel(n[:len(a)], n[len(a):])
      if not a2 and not b2:
        v, _ = smt.check([False])
        return v, None
    except T.Unsupported:
      pass
  try:
    sa = T.sum_many(a) if a else T.const(0)
    sb = T.sum_many(b) if b else T.const(0)
  except T.Unsupported:
    if best is None:
      raise
    return 'sat', best[2]   # a candidate only: the replay decides
  if T.sp(sa) or T.sp(sb):
    raise T.Unsupported('non finite kernel sum')
  if sa is not sb and best is None:
    T.REDUCE_POS_MIN = True
    try:
      d = T.sub(sa, sb)
      if T.is_const(d) and d.coef == 0:
        sa = sb
    except T.Unsupported:
      pass
    finally:
      T.REDUCE_POS_MIN = False
  if sa is sb:
    v, _ = smt.check([False])
    return v, None
  save, T.oracle = T.oracle, None
  try:
    ne = T.bnot(T.eq(sa, sb))
  finally:
    T.oracle = save
  if best is not None and best[0] < VISIBLE:
    w = wide_witness(a, b, conds, names, rng, best[2], score)
    if w is not None and w[0] > best[0]:
      best = w
  if best is not None:
    v, m = smt.check(list(conds) + [ne], timeout=budget, pins=best[1])
    if v == 'sat':
      return 'sat', best[2]
    return ('sat', best[2]) if v == 'unknown' else ('unknown', best[2])
  v, m = smt.check(list(conds) + [ne], timeout=budget)
  if v == 'unsat':
    return v, None
  w = wide_witness(a, b, conds, names, rng, m, score)
  if w is not None:
    v2, _ = smt.check(list(conds) + [ne], timeout=budget, pins=w[1])
    if v2 in ('sat', 'unknown'):
      return 'sat', w[2]
  if v == 'sat' and not _confirm(m, a, b, conds, names):
    return 'unknown', None
  return v, m


VISIBLE = 0.02     # standard deviations per step that a replay can measure
SCALES = (0, 1, 5, 20, 60, 150, 600, 2000)


def wide_pins(names, rng, m=None):
  """A valuation far from the origin: table entries around a common offset."""
  pins, env = random_pins(names, rng)
  off = rng.choice(SCALES) * rng.choice((-1, 1))
  spread = rng.choice(SCALES[1:])
  near = m is not None and rng.random() < .3
  for n in names:
    Bx = T._atom_tab[('var', (n,))]
    if pins[n][0] != 'exp4' or n.startswith('log_'):
      continue
    o = off if n[0] == 'L' or rng.random() < .3 else 0
    v = o + spread * rng.uniform(-1, 1)
    if near and n in m:
      v = max(-2400., min(2400., float(m[n]))) + spread * rng.choice((0, -1, 1)) * rng.random()
    v = max(-2400., min(2400., v))
    r = Fraction(math.exp(abs(v) / 4)).limit_denominator(64)
    r = r if v >= 0 else 1 / r
    pins[n] = ('exp4', r)
    mm = smt.mp_memo()['backend']
    env[n] = 4 * float(mm.log(mm.num(r)))
  return pins, env


def wide_witness(a, b, conds, names, rng, m=None, score=None, tries=600,
                 secs=20):
  """The most visible difference among valuations of all magnitudes, if a
  replay can see it; confirmed with enough digits to be no rounding effect."""
  best = None
  end = time.time() + secs

  def at(env, mm):
    if not all(smt.eval_b(c, env, mm) for c in conds):
      return None
    zero = mm['backend'].zero
    da = sum((smt.eval_f(t, env, mm) for t in a), zero)
    db = sum((smt.eval_f(t, env, mm) for t in b), zero)
    d = abs(da - db)
    top = max(abs(da), abs(db))
    if not d > 1e-6 * top:
      return None
    # a difference is visible where it is large by itself and as a share
    s = float(min(d, 1) * d / top) if score is None else score(env, da, db, mm)
    return s if math.isfinite(s) else None

  for _ in range(tries):
    if time.time() > end:
      break
    pins, env = wide_pins(names, rng, m)
    try:
      s = at(env, smt.mp_memo())
    except Exception:  # pylint: disable=broad-except
      continue
    if s is not None and (best is None or s > best[0]):
      best = (s, pins, env)
  if best is None or best[0] < VISIBLE / 4:
    return None
  try:
    s = at(best[2], smt.mp_memo(4000))
  except Exception:  # pylint: disable=broad-except
    return None
  if s is None or s < best[0] / 2:
    return None
  return best


def _confirm(env, a, b, conds, names):
  """A free model treats exp/log as uninterpreted functions: keep it only when
  exact evaluation confirms the difference."""
  if env is None or any(n not in env for n in names):
    return False
  mm = smt.mp_memo()
  try:
    if not all(smt.eval_b(c, env, mm) for c in conds):
      return False
    da = sum((smt.eval_f(t, env, mm) for t in a), smt._MB.zero)
    db = sum((smt.eval_f(t, env, mm) for t in b), smt._MB.zero)
    return bool(abs(da - db) > 1e-6 * max(abs(da), abs(db)))
  except Exception:  # pylint: disable=broad-except
    return False
