"""Checks on one sampler step beyond its transition law: sample space, mask,
carried state, cost accounting, reported acceptance, random keys."""
import itertools
import math
import random
import re
from fractions import Fraction

import numpy as np

from symx import kernels as K
from symx import reversible as R
from symx import smt
from symx import terms as T

_MH = re.compile(r'^U\[k(\d+)/(.*)\]\[(\d+)\]$')


def _kernel(cfg, need_state=True):
  k = K.Kernel(cfg['name'], cfg['C'], cfg['shape'], cfg.get('B', 1),
               cfg.get('opts'), mask=cfg.get('mask'), need_state=need_state,
               steps_lo=cfg.get('steps_lo', 1))
  return k


def _model(conds, extra, names=()):
  """Valuation satisfying conds + extra: pinned search first, then free."""
  v, m = smt.check(list(conds) + list(extra), timeout=8000)
  return v, m


def _scalar(v):
  v = np.asarray(v)
  v = v.reshape(-1)[0] if v.shape else v[()]
  return T.lift(v.item() if hasattr(v, 'item') and not isinstance(v, T.F) else v)


def find_env(fails, conds, rng, names, tries=80):
  """Random rational valuation on which `fails(env)` and the conds hold."""
  for _ in range(tries):
    _, env = K.random_pins(names, rng)
    memo = {}
    try:
      if all(smt.eval_b(c, env, memo) for c in conds) and fails(env, memo):
        return env
    except (ValueError, OverflowError, ZeroDivisionError):
      continue
  return None


def prove_equal(res, a, b, conds, rng, what, rec):
  """Obligation a == b under conds; candidates get rec(env)."""
  res['obligations'] += 1
  for z in (a, b):
    if T.sp(z):
      if a == b:
        res['discharged'] += 1
        return
      env = find_env(lambda e, m: True, conds, rng, K.var_names(list(conds)))
      res['candidates'].append(rec(env or {}))
      return
  v, env = K.decide_equal([a], [b], list(conds), rng)
  if v == 'unsat':
    res['discharged'] += 1
    if len(res['samples']) < 3:
      res['samples'].append(dict(obligation=what, term=T.show(a)[:240],
                                 verdict='unsat'))
  elif v == 'sat':
    res['candidates'].append(rec(env))
  else:
    res['unknown'] += 1


def likely_env(p, conds, rng, names, env, tries=400):
  """Among valuations with the conds, one that makes p large."""
  best = (-1.0, env)
  if env is not None:
    try:
      best = (float(smt.eval_f(p, env, smt.mp_memo())), env)
    except Exception:  # pylint: disable=broad-except
      pass
  for i in range(tries):
    if best[0] > .01:
      break
    _, e = K.wide_pins(names, rng, env) if i % 4 else K.random_pins(names, rng)
    mm = smt.mp_memo()
    try:
      if all(smt.eval_b(c, e, mm) for c in conds):
        v = float(smt.eval_f(p, e, mm))
        if v > best[0]:
          best = (v, e)
    except Exception:  # pylint: disable=broad-except
      continue
  return best[1]


def prove_holds(res, b, conds, rng, what, rec, prefer=None):
  """Obligation: boolean b follows from conds.  With `prefer`, a
  counterexample where that term is large."""
  res['obligations'] += 1
  if b is True:
    smt.check([False])
    res['discharged'] += 1
    return
  nb = (not b) if not isinstance(b, T.B) else T.bnot(b)
  v, m = smt.check(list(conds) + [nb], timeout=15000)
  if v == 'unsat':
    res['discharged'] += 1
    if len(res['samples']) < 3 and isinstance(b, T.B):
      res['samples'].append(dict(obligation=what, term=T.showB(b)[:240],
                                 verdict='unsat'))
    return
  names = K.var_names([x for x in list(conds) + [nb] if isinstance(x, T.B)])
  env = None
  if v == 'sat' and m is not None:
    try:
      memo = {}
      if all(smt.eval_b(x, m, memo) for x in list(conds) + [nb]
             if isinstance(x, T.B)):
        env = m
    except Exception:  # pylint: disable=broad-except
      env = None
  if env is None:
    env = find_env(lambda e, mm: (not smt.eval_b(b, e, mm))
                   if isinstance(b, T.B) else True, conds, rng, names, 3000)
  if prefer is not None:
    env = likely_env(prefer, conds, rng,
                     sorted(set(names) | set(K.var_names([prefer]))), env)
  if env is not None:
    res['candidates'].append(rec(env))
  else:
    res['unknown'] += 1


def too_many(res, n=3):
  return len(res['candidates']) >= n


# ------------------------------------------------------------------ S10
def closure(cfg, res):
  k = _kernel(cfg, need_state=False)
  rng = random.Random(cfg.get('seed', 1))
  res['functions'] = sorted(k.funcs)
  aval = k.tr.jaxpr.out_avals[0]
  res['obligations'] += 1
  if tuple(aval.shape) != (k.B,) + k.shape or aval.dtype != np.dtype('int32'):
    rec = R.db_record(k, cfg, k.states()[0], k.states()[0], {})
    rec['kind'] = 'closure'
    res['candidates'].append(rec)
    return
  res['discharged'] += 1
  mask = None if cfg.get('mask') is None else np.asarray(cfg['mask']).reshape(-1)
  for x in R._starts(k, cfg):
    for y, o, c in k.run(x, **cfg.get('fix', {})):
      ok = all(isinstance(v, int) and 0 <= v < k.C for v in y)
      if mask is not None:
        ok = ok and all(y[b * k.D + i] == x[b * k.D + i]
                        for b in range(k.B) for i in range(k.D) if not mask[i])
      p = c.prob_F()
      if ok:
        res['obligations'] += 1
        # the path is inside the space whatever its probability
        res['discharged'] += 1
        continue

      def rec(env, x=x, y=y):
        r = R.db_record(k, cfg, x, x, env)
        r['kind'] = 'closure'
        r['outside'] = [float(v) for v in y]
        return r
      # reachable with positive probability?
      prove_holds(res, T.le(p, T.const(0)), c.conds, rng, 'unreachable', rec,
                  prefer=p)
      if too_many(res):
        break
  res['paths'] += k.paths
  if len(res['samples']) < 2:
    res['samples'].append(dict(obligation='every reachable next state lies in '
                               'the sample space and agrees with the mask',
                               paths=k.paths, verdict='unsat'))


def replay_closure(rec):
  import jax
  import jax.numpy as jnp
  s = K.build_sampler(rec['name'], rec['C'], tuple(rec['shape']), rec['opts'])
  m = R.TableModel(rec['C'], rec['shape'], rec['L'], rec['G'], rec['Gr'])
  st = R.real_state(s, rec['state'])
  x = jnp.array(rec['x'], jnp.int32).reshape((rec['B'],) + tuple(rec['shape']))
  args = [] if rec.get('mask') is None else [jnp.array(rec['mask'], jnp.float32)]
  y = s.step(m, jax.random.PRNGKey(1), x, {}, dict(st), *args)[0]
  if tuple(y.shape) != tuple(x.shape) or y.dtype != jnp.int32:
    return True, dict(shape=list(y.shape), dtype=str(y.dtype))
  cnt, n = R.real_counts(rec, tuple(rec['x']), 200000, seed=3)
  D = int(np.prod(rec['shape']))
  mask = None if rec.get('mask') is None else np.asarray(rec['mask']).reshape(-1)
  for yy in cnt:
    for j, v in enumerate(yy):
      bad = not (isinstance(v, int) and 0 <= v < rec['C'])
      if mask is not None and not mask[j % D] and v != rec['x'][j]:
        bad = True
      if bad:
        return True, dict(start=rec['x'], reached=list(yy), count=cnt[yy], n=n)
  return False, dict(reason='not observed in %d steps' % n)


# ------------------------------------------------------------------ state
def mh_bounds(k, c):
  """Acceptance probabilities per chain from the last uniform comparison."""
  last = None
  for uid in c.ub:
    m = _MH.match(T.BASES[uid].args[0])
    if m and m.group(2) == str(k.B):
      last = (m.group(1), m.group(2))
  if last is None:
    return [T.const(1)] * k.B
  out = [T.const(1)] * k.B
  for uid, (lows, ups) in c.ub.items():
    m = _MH.match(T.BASES[uid].args[0])
    if m and (m.group(1), m.group(2)) == last:
      bd = (list(ups) + list(lows))
      if len(bd) != 1:
        raise T.Unsupported('acceptance uniform compared %d times' % len(bd))
      out[int(m.group(3))] = T.fmin(T.const(1), bd[0])
  return out


def mean(xs):
  return T.mul(T.sum_many(xs) if len(xs) > 1 else xs[0], Fraction(1, len(xs)))


def _rec(k, cfg, x, env, kind, **kw):
  r = R.db_record(k, cfg, x, x, env)
  r['kind'] = kind
  r['state'].setdefault('steps', next(
      (v for n, v in env.items() if n.rstrip("'") == 'steps'), None))
  r.update(kw)
  return r


def acceptance(cfg, res):
  """Reported acceptance = mean acceptance probability of the proposal."""
  k = _kernel(cfg)
  rng = random.Random(cfg.get('seed', 1))
  res['functions'] = sorted(k.funcs)
  mh = cfg['name'] not in ('gibbs', 'bg', 'hb')
  for x in R._starts(k, cfg):
    for y, o, c in k.run(x, **cfg.get('fix', {})):
      a = _scalar(o[2])
      want = mean(mh_bounds(k, c)) if mh else T.const(1)
      prove_equal(res, a, want, c.conds, rng, 'reported acceptance',
                  lambda env, x=x: _rec(k, cfg, x, env, 'acceptance'))
      if too_many(res):
        return
  res['paths'] += k.paths


def _sym_rows(rec, need_state=True):
  cfg = dict(name=rec['name'], C=rec['C'], shape=tuple(rec['shape']),
             B=rec['B'], opts=rec['opts'], mask=rec.get('mask'))
  k = _kernel(cfg, need_state)
  return k, list(k.run(tuple(rec['x'])))


def _real_steps(rec, N=200000, seed=9):
  """Vectorised real steps: (y, state dict, acc) arrays."""
  import jax
  import jax.numpy as jnp
  s = K.build_sampler(rec['name'], rec['C'], tuple(rec['shape']), rec['opts'])
  m = R.TableModel(rec['C'], rec['shape'], rec['L'], rec['G'], rec['Gr'])
  st = R.real_state(s, rec['state'])
  x = jnp.array(rec['x'], jnp.int32).reshape((rec['B'],) + tuple(rec['shape']))
  args = [] if rec.get('mask') is None else [jnp.array(rec['mask'], jnp.float32)]

  def one(key):
    y, st2, acc = s.step(m, key, x, {}, dict(st), *args)
    return y.reshape(-1), st2, jnp.asarray(acc, jnp.float32)

  keys = jax.random.split(jax.random.PRNGKey(seed), N)
  return jax.jit(jax.vmap(one))(keys), st


def replay_acceptance(rec):
  """Mean reported acceptance of the real code vs the mean acceptance
  probability implied by its own accept/reject comparison."""
  k, paths = _sym_rows(rec)
  env = R.env_tab(k, rec)
  env.setdefault('steps', 1.0)
  env.setdefault('num_ll_calls', 0.0)
  mh = rec['name'] not in ('gibbs', 'bg', 'hb')
  memo, want, tot = {}, 0.0, 0.0
  pred = {}
  for y, o, c in paths:
    if all(smt.eval_b(b, env, memo) for b in c.conds):
      p = smt.eval_f(c.prob_F(), env, memo)
      w = smt.eval_f(mean(mh_bounds(k, c)), env, memo) if mh else 1.0
      want += p * w
      tot += p
      pred[y] = pred.get(y, 0.0) + p
  if abs(tot - 1) > 1e-4:
    return False, dict(reason='row does not sum to one')
  (ys, st, acc), _ = _real_steps(rec)
  acc = np.asarray(acc, np.float64)
  n = len(acc)
  # the real transition frequencies must match the encoding
  u, cn = np.unique(np.asarray(ys), axis=0, return_counts=True)
  for a, b in zip(u, cn):
    p = pred.get(tuple(int(v) for v in a), 0.0)
    if abs(b / n - p) / math.sqrt(max(p * (1 - p), 1e-6) / n) > 7:
      return False, dict(reason='encoding mismatch')
  m, sd = acc.mean(), acc.std()
  if not math.isfinite(m):
    return True, dict(reported=str(m), expected=want)
  d = abs(m - want)
  bad = d > 6 * sd / math.sqrt(n) + 1e-3
  return bool(bad), dict(mean_reported=m, mean_acceptance_probability=want, n=n)


def jump_rate(k, x):
  """log of the batch mean of the summed balancing weights at x."""
  fn = dict(K.DEFAULT_OPTS, **k.opts)['balancing_fn_type']
  tot = []
  for b in range(k.B):
    s = tuple(x[b * k.D:(b + 1) * k.D])
    for i in range(k.D):
      if k.C == 2:
        ds = [T.mul(T.var('G%s[%d]' % (s, i)), Fraction(1 - 2 * s[i]))]
      else:
        g = [T.var('G%s[%d]' % (s, i * k.C + c)) for c in range(k.C)]
        ds = [T.sub(v, g[s[i]]) for v in g]
      for d in ds:
        t = T.exp(d)
        tot.append(T.exp(T.mul(d, Fraction(1, 2))) if fn == 'SQRT' else
                   T.div(t, T.add(t, T.const(1))) if fn == 'RATIO' else
                   T.fmax(t, T.const(1)) if fn == 'MAX' else
                   T.fmin(t, T.const(1)))
  return T.log(T.mul(T.sum_many(tot) if len(tot) > 1 else tot[0],
                     Fraction(1, k.B)))


def adaptation(cfg, res):
  """Adaptation state: finite, in range, moved by acceptance - target."""
  k = _kernel(cfg)
  rng = random.Random(cfg.get('seed', 1))
  res['functions'] = sorted(k.funcs)
  o_ = dict(K.DEFAULT_OPTS)
  o_.update(k.opts)
  target = T.lift_const(float(np.float32(o_['target_acceptance_rate'])))
  adaptive = o_['adaptive'] and not (cfg['name'] == 'gwg' and k.C > 2)
  fix = cfg.get('fix', {})
  assume = []
  if 'radius' in k.stsym and adaptive:
    # the right-hand side proved below stays in range whatever its argument
    u = T.var('any_real')
    w = T.fmin(T.fmax(u, T.const(1)), T.const(k.D))
    prove_holds(res, T.band(T.le(T.const(1), w), T.le(w, T.const(k.D))), [],
                rng, '1 <= clip(v, 1, sites) <= sites', lambda env: {})
  if 'log_tau' in k.stsym and 'log_z' in k.stsym and o_['adaptive']:
    # the invariant is inductive: log_tau >= -log_z before the step
    assume.append(T.le(T.neg(k.stsym['log_z'][()]), k.stsym['log_tau'][()]))
  for x in R._starts(k, cfg):
    for y, o, c in k.run(x, assume, **fix):
      st = o[1]

      def rec(env, x=x):
        return _rec(k, cfg, x, env, 'adaptation')
      if 'radius' in k.stsym:
        r0 = T.lift(fix['radius']) if 'radius' in fix else k.stsym['radius'][()]
        r1 = _scalar(st['radius'])
        if adaptive:
          a = mean(mh_bounds(k, c))
          want = T.fmin(T.fmax(T.add(r0, T.sub(a, target)),
                               T.const(1)), T.const(k.D))
          prove_equal(res, r1, want, c.conds, rng,
                      'radius = clip(radius + acceptance - target, 1, sites)',
                      rec)
        else:
          prove_equal(res, r1, r0, c.conds, rng, 'radius unchanged', rec)
      if 'log_tau' in k.stsym and o_['adaptive'] and not o_.get('co_opt_prob'):
        # every logarithm taken in the update is of a positive number
        for f, n in c.defs:
          if f.rand:
            continue
          prove_holds(res, T.lt(T.const(0), f), c.conds[:n], rng,
                      'argument of log is positive', rec)
          if too_many(res):
            return
        lt, lz = _scalar(st['log_tau']), _scalar(st['log_z'])
        if T.sp(lt) or T.sp(lz):
          res['candidates'].append(rec({}))
        else:
          prove_holds(res, T.le(T.const(0), T.add(lt, lz)), c.conds, rng,
                      'expected number of flips stays at least one', rec)
          s1 = T.add(T.lift(fix['steps']) if 'steps' in fix
                     else k.stsym['steps'][()], T.const(1))
          lt0, lz0 = k.stsym['log_tau'][()], k.stsym['log_z'][()]
          every = int(o_['reset_z_est'])
          due = T.lt(s1, T.const(int(o_['schedule_step'])))
          again = T.eq(T.rem_trunc(s1, T.const(every)), T.const(0)) \
              if every > 0 else T.eq(s1, T.const(1))
          prove_equal(res, lz, T.ite(T.bor(due, again), jump_rate(k, x), lz0),
                      c.conds, rng, 'total jump rate re-estimated when due, '
                      'kept otherwise', rec)
          a = mean(mh_bounds(k, c))
          n1 = T.add(T.exp(T.add(lt0, lz)),
                     T.mul(T.sub(a, target), Fraction(3)))
          prove_equal(res, T.exp(T.add(lt, lz)), T.fmax(n1, T.const(1)),
                      c.conds, rng, 'expected number of flips moves by '
                      '3 (acceptance - target), at least one', rec)
      if too_many(res):
        return
  res['paths'] += k.paths


def replay_adaptation(rec):
  (ys, st, acc), st0 = _real_steps(rec, 20000)
  o_ = dict(K.DEFAULT_OPTS)
  o_.update(rec['opts'])
  D = int(np.prod(rec['shape']))
  for n in ('radius', 'log_tau', 'log_z'):
    if n in st:
      v = np.asarray(st[n], np.float64)
      if not np.all(np.isfinite(v)):
        return True, dict(state=n, value='not finite', acceptance=float(
            np.asarray(acc)[~np.isfinite(v)][0]))
  if 'log_tau' in st and o_['adaptive'] and not o_.get('co_opt_prob'):
    s = np.asarray(st['log_tau'], np.float64) + np.asarray(st['log_z'], np.float64)
    if s.min() < -1e-3:
      return True, dict(expected_flips=float(np.exp(s.min())))
    step = int(st0['steps']) + 1
    if step > 1:
      C = rec['C']
      env = {}
      for i, z in enumerate(itertools.product(range(C), repeat=D)):
        for j, g in enumerate(rec['G'][i]):
          env['G%s[%d]' % (z, j)] = g

      class Kx:
        pass
      kx = Kx()
      kx.opts, kx.B, kx.D, kx.C = rec['opts'], rec['B'], D, C
      rate = float(smt.eval_f(jump_rate(kx, tuple(rec['x'])), env, {}))
      every = int(o_['reset_z_est'])
      due = step < o_['schedule_step'] or (
          step % every == 0 if every > 0 else step == 1)
      lz = rate if due else float(st0['log_z'])
      got = np.asarray(st['log_z'], np.float64)
      i = int(np.argmax(np.abs(got - lz)))
      if abs(got[i] - lz) > 1e-3 * (1 + abs(lz)):
        return True, dict(step=step, log_rate=got[i], expected=lz)
      want = np.log(np.maximum(np.exp(float(st0['log_tau']) + lz) + 3 * (
          np.asarray(acc, np.float64) - o_['target_acceptance_rate']), 1))
      i = int(np.argmax(np.abs(want - s)))
      if abs(want[i] - s[i]) > 1e-2:
        return True, dict(step=step, acceptance=float(np.asarray(acc)[i]),
                          log_flips=s[i], expected=want[i])
  if 'radius' in st:
    r1 = np.asarray(st['radius'], np.float64)
    r0 = float(st0['radius'])
    if r1.min() < 1 - 1e-5 or r1.max() > D + 1e-5:
      return True, dict(radius_min=r1.min(), radius_max=r1.max(), sites=D)
    adaptive = o_['adaptive'] and not (rec['name'] == 'gwg' and rec['C'] > 2)
    if not adaptive:
      return bool(np.any(np.abs(r1 - r0) > 1e-6)), dict(radius=r1[:4].tolist())
    # a step with acceptance a must move the radius by a - target
    a = np.asarray(acc, np.float64)
    want = np.clip(r0 + a - o_['target_acceptance_rate'], 1, D)
    bad = np.abs(want - r1) > 1e-3
    if bad.any():
      i = int(np.argmax(bad))
      return True, dict(radius_before=r0, acceptance=a[i], radius_after=r1[i],
                        expected=want[i])
  return False, dict(reason='not reproduced')


def accounting(cfg, res):
  """num_ll_calls grows by the model evaluations made; steps by one."""
  k = _kernel(cfg)
  rng = random.Random(cfg.get('seed', 1))
  res['functions'] = sorted(k.funcs)
  for x in R._starts(k, cfg):
    for y, o, c in k.run(x, **cfg.get('fix', {})):
      st = o[1]
      n = Fraction(0)
      for op, rows in c.events:
        n += {'forward': Fraction(rows, k.B), 'vg': Fraction(2 * rows, k.B),
              'lr': Fraction(1)}[op]

      def rec(env, x=x, n=n):
        return _rec(k, cfg, x, env, 'accounting', evaluations=float(n))
      prove_equal(res, _scalar(st['num_ll_calls']),
                  T.add(k.stsym['num_ll_calls'][()], T.const(n)), c.conds, rng,
                  'evaluation count', rec)
      prove_equal(res, _scalar(st['steps']),
                  T.add(k.stsym['steps'][()], T.const(1)), c.conds, rng,
                  'step count', rec)
      if too_many(res):
        return
  res['paths'] += k.paths


def replay_accounting(rec):
  """Runs the real step eagerly with a counting model."""
  import jax
  import jax.numpy as jnp
  cnt = [0.0]
  B = rec['B']

  class M(R.TableModel):
    def forward(self, p, x):
      jax.debug.callback(lambda n=x.shape[0]: cnt.__setitem__(
          0, cnt[0] + n / B))
      return super().forward(p, x)

    def get_value_and_grad(self, p, x):
      jax.debug.callback(lambda n=x.shape[0]: cnt.__setitem__(
          0, cnt[0] + 2 * n / B))
      return super().get_value_and_grad(p, x)

    def logratio_in_neighborhood(self, p, x):
      jax.debug.callback(lambda: cnt.__setitem__(0, cnt[0] + 1))
      return super().logratio_in_neighborhood(p, x)

  s = K.build_sampler(rec['name'], rec['C'], tuple(rec['shape']), rec['opts'])
  m = M(rec['C'], rec['shape'], rec['L'], rec['G'], rec['Gr'])
  st = R.real_state(s, rec['state'])
  x = jnp.array(rec['x'], jnp.int32).reshape((B,) + tuple(rec['shape']))
  args = [] if rec.get('mask') is None else [jnp.array(rec['mask'], jnp.float32)]
  before = (int(st['num_ll_calls']), int(st['steps']))
  out = s.step(m, jax.random.PRNGKey(3), x, {}, dict(st), *args)
  jax.block_until_ready(out[0])
  jax.effects_barrier()
  d = int(out[1]['num_ll_calls']) - before[0]
  ds = int(out[1]['steps']) - before[1]
  return bool(abs(d - cnt[0]) > 1e-6 or ds != 1), dict(
      counted=d, evaluations=cnt[0], steps_delta=ds)


# ------------------------------------------------------------------ scan
def coverage(cfg, res):
  """Systematic scan: the first ceil(D / block) steps visit every site, and so
  do any D consecutive steps later on (D / block when the block divides D)."""
  z3 = smt.z3
  k = _kernel(cfg)
  res['functions'] = sorted(k.funcs)
  D = k.D
  b = cfg.get('opts', {}).get('block_size', K.DEFAULT_OPTS['block_size']) \
      if cfg['name'] != 'gibbs' else 1
  trans, upd = {}, {}
  x = (0,) * D
  for i in range(D):
    for y, o, c in k.run(x, index=i):
      n = _scalar(o[1]['index'])
      if not T.is_const(n):
        raise T.Unsupported('symbolic next index')
      trans.setdefault(i, set()).add(int(n.coef))
      upd.setdefault(i, set()).update(j for j in range(D) if y[j] != x[j])
  res['paths'] += k.paths
  init = int(np.asarray(k.sampler.make_init_state(None)['index']))
  first = -(-D // b)
  for starts, steps in (([init], first), (None, first if D % b == 0 else D)):
    _coverage(cfg, res, k, x, trans, upd, init, starts, steps)


def _coverage(cfg, res, k, x, trans, upd, init, starts, steps):
  z3 = smt.z3
  D = k.D
  s = z3.Solver()
  idx = [z3.Int('i%d' % t) for t in range(steps)]
  site = z3.Int('site')
  s.add(idx[0] >= 0, idx[0] < D, site >= 0, site < D)
  # reachable start: some power of the index map applied to the initial 0
  reach, todo = {init}, [init]
  while todo:
    for j in trans.get(todo.pop(), ()):
      if j not in reach:
        reach.add(j)
        todo.append(j)
  s.add(z3.Or([idx[0] == r for r in (starts or sorted(reach))]))
  for t in range(steps - 1):
    s.add(z3.Or([z3.And(idx[t] == i, z3.Or([idx[t + 1] == j for j in js]))
                 for i, js in trans.items()]))
  for t in range(steps):
    s.add(z3.Not(z3.Or([z3.And(idx[t] == i, site == j)
                        for i, js in upd.items() for j in js])))
  res['obligations'] += 1
  import time
  t0 = time.time()
  v = s.check()
  smt.stats.queries += 1
  smt.stats.solver_s += time.time() - t0
  if v == z3.unsat:
    smt.stats.unsat += 1
    res['discharged'] += 1
    res['samples'].append(dict(
        obligation='every site is visited within %d steps' % steps,
        index_map={str(i): sorted(j) for i, j in trans.items()},
        verdict='unsat'))
  elif v == z3.sat:
    smt.stats.sat += 1
    m = s.model()
    r = R.db_record(k, cfg, x, x, {})
    r.update(kind='coverage', index=m[idx[0]].as_long(),
             site=m.eval(site, model_completion=True).as_long(), steps=steps)
    res['candidates'].append(r)
  else:
    res['unknown'] += 1


def replay_coverage(rec):
  """Runs the real sampler from the witness index and looks for any change of
  the witness site over many repetitions."""
  import jax
  import jax.numpy as jnp
  s = K.build_sampler(rec['name'], rec['C'], tuple(rec['shape']), rec['opts'])
  D = int(np.prod(rec['shape']))
  n = rec['C'] ** D
  m = R.TableModel(rec['C'], rec['shape'], [0.0] * n, [[0.0] * len(rec['G'][0])] * n,
                   [[0.0] * len(rec['G'][0])] * n)
  st = dict(s.make_init_state(jax.random.PRNGKey(0)))
  st['index'] = jnp.asarray(rec['index'], jnp.int32)

  def run(key):
    x = jnp.zeros((1,) + tuple(rec['shape']), jnp.int32)
    stt = dict(st)
    ch = jnp.zeros((), bool)
    for t in range(rec['steps']):
      key, k = jax.random.split(key)
      y, stt, _ = s.step(m, k, x, {}, stt)
      ch = ch | (y.reshape(-1)[rec['site']] != x.reshape(-1)[rec['site']])
      x = y
    return ch

  ch = np.asarray(jax.jit(jax.vmap(run))(jax.random.split(
      jax.random.PRNGKey(5), 5000)))
  return bool(not ch.any()), dict(site=rec['site'], start_index=rec['index'],
                                  runs=5000, runs_that_touch_it=int(ch.sum()))


# ------------------------------------------------------------------ keys
def _key_sort():
  z3 = smt.z3
  Kd = z3.Datatype('Key')
  Kd.declare('root', ('name', z3.IntSort()))
  Kd.declare('split', ('parent', Kd), ('num', z3.IntSort()), ('pos', z3.IntSort()))
  Kd.declare('fold', ('of', Kd), ('data', z3.IntSort()))
  return Kd.create()


_KS = None
_roots = {}


def key_z3(k):
  """z3 term of a symbolic key (free constructors: distinct derivations give
  distinct keys)."""
  global _KS
  z3 = smt.z3
  if _KS is None:
    _KS = _key_sort()
  if k[0] == 'split':
    _, parent, shape, jx = k
    pos = int(np.ravel_multi_index(jx, shape)) if shape else 0
    return _KS.split(key_z3(parent), int(np.prod(shape)), pos)
  if k[0] == 'fold':
    return _KS.fold(key_z3(k[1]), int(k[2]))
  return _KS.root(_roots.setdefault(k, len(_roots)))


def keys(cfg, res):
  """No two random draws of a step consume the same key."""
  k = _kernel(cfg, need_state=False)
  res['functions'] = sorted(k.funcs)
  done = set()
  for x in R._starts(k, cfg)[:cfg.get('nstarts', 4)]:
    for y, o, c in k.run(x, **cfg.get('fix', {})):
      check_draws(c, res, done, lambda kk, x=x: _rec(k, cfg, x, {}, 'keys',
                                                     key=repr(kk)),
                  splits=True)
      if too_many(res):
        return
  res['paths'] += k.paths


def check_draws(c, res, done, rec, splits=False):
  """Draws use distinct keys; with splits also none of which keys are derived."""
  z3 = smt.z3
  par = [kk for kk, us in c.draws.items()
         if any(u[0] in ('split', 'fold') for u in us)] if splits else []
  ds = [(kk, u) for kk, us in c.draws.items() for u in us
        if u[0] not in ('split', 'fold')]
  sig = tuple((repr(kk), u) for kk, u in ds)
  if sig in done:
    return
  done.add(sig)
  terms = [key_z3(kk) for kk, u in ds]
  res['obligations'] += 1
  if len(terms) < 2 and not par:
    res['discharged'] += 1
    return
  s = z3.Solver()
  bad = [z3.Not(z3.Distinct(*terms))] if len(terms) > 1 else []
  bad += [key_z3(p) == t for p in par for t in terms]
  s.add(z3.Or(*bad) if bad else z3.BoolVal(False))
  v = s.check()
  smt.stats.queries += 1
  if v == z3.unsat:
    smt.stats.unsat += 1
    res['discharged'] += 1
    if len(res['samples']) < 2:
      res['samples'].append(dict(obligation='all draws use distinct keys',
                                 draws=[repr(t)[:120] for t in terms[:6]],
                                 verdict='unsat'))
  else:
    smt.stats.sat += 1
    cnt = {}
    for kk in [q for q, u in ds] + par:
      cnt[kk] = cnt.get(kk, 0) + 1
    res['candidates'].append(rec(max(cnt, key=lambda q: cnt[q])))


def replay_keys(rec):
  """Counts real draws per concrete key value with a recording jax.random."""
  import jax
  import jax.numpy as jnp
  s = K.build_sampler(rec['name'], rec['C'], tuple(rec['shape']), rec['opts'])
  m = R.TableModel(rec['C'], rec['shape'], rec['L'], rec['G'], rec['Gr'])
  st = R.real_state(s, rec['state'])
  x = jnp.array(rec['x'], jnp.int32).reshape((rec['B'],) + tuple(rec['shape']))
  args = [] if rec.get('mask') is None else [jnp.array(rec['mask'], jnp.float32)]
  return draws_twice(lambda: s.step(m, jax.random.PRNGKey(12), x, {}, dict(st),
                                    *args), splits=True)


DRAWS = ('uniform', 'bernoulli', 'categorical', 'gumbel', 'randint', 'choice',
         'permutation', 'normal')


def draws_twice(fn, splits=False):
  """Runs fn with jax.random draws recorded; True when a key value is drawn
  from more than once (outermost draw calls only)."""
  import jax
  log, depth, saved = [], [0], {}

  def wrap(name, old):
    def w(key, *a, **kw):
      if depth[0] == 0:
        def put(kv, name=name):
          for row in np.asarray(kv).reshape(-1, 2):
            log.append((name, tuple(int(v) for v in row)))
        jax.debug.callback(put, key)
      depth[0] += 1
      try:
        return old(key, *a, **kw)
      finally:
        depth[0] -= 1
    return w

  for n in DRAWS + (('split', 'fold_in') if splits else ()):
    saved[n] = getattr(jax.random, n)
    setattr(jax.random, n, wrap(n, saved[n]))
  try:
    jax.clear_caches()
    out = fn()
    jax.block_until_ready(out)
    jax.effects_barrier()
  finally:
    for n, f in saved.items():
      setattr(jax.random, n, f)
    jax.clear_caches()
  cnt = {}
  for n, kv in log:
    cnt.setdefault(kv, []).append(n)
  dup = {str(kv): ns for kv, ns in cnt.items() if len(ns) > 1
         and set(ns) - {'split', 'fold_in'}}
  return bool(dup), dict(keys_used_more_than_once=dup, draws=len(log))


REPLAYS = dict(closure=replay_closure, acceptance=replay_acceptance,
               adaptation=replay_adaptation, accounting=replay_accounting,
               coverage=replay_coverage, keys=replay_keys)
RUNS = dict(closure=closure, acceptance=acceptance, adaptation=adaptation,
            accounting=accounting, coverage=coverage, keys=keys)
