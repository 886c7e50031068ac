"""Reversibility / exact conditional checks for sampler kernels."""
import itertools
import math
import random

import numpy as np

from symx import explore as X
from symx import kernels as K
from symx import smt
from symx import terms as T


def _starts(k, cfg):
  st = cfg.get('starts')
  if st is None:
    return k.states()
  return [tuple(s) for s in st]


def rows(k, starts, res, **st):
  """{x: [(y, conds, prob F, prefix...)]}"""
  out = {}
  for x in starts:
    r = []
    for y, o, c in k.run(x, **st):
      r.append((y, tuple(c.conds), c.prob_F()))
    out[x] = r
  res['paths'] = res.get('paths', 0) + k.paths
  return out


def sanity(rws, rng, res):
  """Row sums at a random valuation (guards against lost paths)."""
  for x, r in rws.items():
    objs = [p for _, _, p in r] + [b for _, cs, _ in r for b in cs]
    names = K.var_names(objs)
    _, env = K.random_pins(names, rng)
    memo = {}
    tot = 0.0
    for y, cs, p in r:
      if all(smt.eval_b(b, env, memo) for b in cs):
        tot += smt.eval_f(p, env, memo)
    if not math.isfinite(tot) or abs(tot - 1) > 1e-6:
      memo = smt.mp_memo()
      tot = float(sum((smt.eval_f(p, env, memo) for y, cs, p in r
                       if all(smt.eval_b(b, env, memo) for b in cs)),
                      smt._MB.zero))
    if not math.isfinite(tot) or abs(tot - 1) > 1e-6:
      # a row that does not sum to one means an encoding error
      res.setdefault('errors', []).append(
          'row %r sums to %r' % (x, tot))
      return
  res['rows_checked'] = res.get('rows_checked', 0) + len(rws)


def full_env(k, env, rng):
  """Complete valuation for every table entry of the model (missing -> random)."""
  return env


def witness_ok(k, ls):
  """Reachability witness: the kernel entry can be positive."""
  if not ls:
    return True
  t = ls[0]
  if t.pos:
    return True
  v, _ = smt.check([T.lt(T.const(0), t)], timeout=2000, want_model=False)
  return v == 'sat'


def score_db(px, py):
  return None


def reversible(cfg, res):
  rng = random.Random(cfg.get('seed', 1))
  k = K.Kernel(cfg['name'], cfg['C'], cfg['shape'], cfg.get('B', 1),
               cfg.get('opts'), mask=cfg.get('mask'))
  res['functions'] = sorted(k.funcs)
  starts = _starts(k, cfg)
  rws = rows(k, starts, res, **cfg.get('fix', {}))
  sanity(rws, rng, res)
  by = {x: {} for x in rws}
  for x, r in rws.items():
    for y, cs, p in r:
      by[x].setdefault(y, []).append((cs, p))
  inset = set(starts)
  for x in starts:
    for y in by[x]:
      if y == x or y not in inset:
        continue
      if y < x and x in by[y]:
        continue     # handled from the other side
      wx, wy = k.weight(x), k.weight(y)
      fw = by[x][y]
      bw = by[y].get(x, [])
      allg = [cs for cs, p in fw] + [cs for cs, p in bw]
      for conds, test in K.cells(allg):
        ls = [T.mul(p, wx) for cs, p in fw if test(cs)]
        rs = [T.mul(p, wy) for cs, p in bw if test(cs)]
        if not ls and not rs:
          continue
        res['obligations'] += 1
        if res['obligations'] % 16 == 1:
          if not witness_ok(k, ls or rs):
            res['vacuous'] = res.get('vacuous', 0) + 1
        pfw = [p for cs, p in fw if test(cs)]
        pbw = [p for cs, p in bw if test(cs)]

        def score(env, fa, fb, memo=None):
          memo = {} if memo is None else memo
          px = sum(smt.eval_f(p, env, memo) for p in pfw)
          py = sum(smt.eval_f(p, env, memo) for p in pbw)
          ex, ey = smt.eval_f(wx, env, memo), smt.eval_f(wy, env, memo)
          top = max(ex, ey)
          ex, ey = float(ex / top), float(ey / top)
          px, py = float(px), float(py)
          var = (ex * ex * max(px * (1 - px), 1e-9)
                 + ey * ey * max(py * (1 - py), 1e-9))
          return abs(ex * px - ey * py) / math.sqrt(var)

        v, env = K.decide_equal(ls, rs, conds, rng, score=score)
        if v == 'unsat':
          res['discharged'] += 1
          if len(res['samples']) < 2:
            res['samples'].append({
                'obligation': 'pi(x)K(x,y) = pi(y)K(y,x), x=%s y=%s' % (x, y),
                'flow': T.show(T.sum_many(ls) if len(ls) < 20 else ls[0])[:300],
                'verdict': 'unsat'})
        elif v == 'sat':
          rec = db_record(k, cfg, x, y, env)
          res['candidates'].append(rec)
          if len(res['candidates']) >= 3:
            return
        else:
          res['unknown'] += 1


def tables(k, env, rng=None):
  """Model tables from a valuation; missing entries get fixed pseudo-random
  values."""
  rng = rng or random.Random(7)
  sts = list(itertools.product(range(k.C), repeat=k.D))
  L, G, Gr = [], [], []
  width = k.D if k.C == 2 else k.D * k.C
  for s in sts:
    L.append(env.get('L%s' % (s,), rng.uniform(-1, 1)))
    G.append([env.get('G%s[%d]' % (s, i), rng.uniform(-1, 1))
              for i in range(width)])
    Gr.append([env.get('Gr%s[%d]' % (s, i), rng.uniform(-1, 1))
               for i in range(width)])
  return L, G, Gr


def db_record(k, cfg, x, y, env):
  env = {n.rstrip("'"): v for n, v in env.items()}
  L, G, Gr = tables(k, env)
  st = {n: env.get(n) for n in k.st_keys}
  for n, v in cfg.get('fix', {}).items():
    st[n] = v
  return dict(kind='detailed_balance', name=k.name, C=k.C, shape=list(k.shape),
              B=k.B, opts=k.opts, mask=cfg.get('mask'), x=list(x), y=list(y),
              L=L, G=G, Gr=Gr, state=st)


class TableModel:
  """Concrete counterpart of the uninterpreted model."""

  def __init__(self, C, shape, L, G, Gr):
    import jax.numpy as jnp
    self.C, self.shape = C, tuple(shape)
    self.D = int(np.prod(shape))
    self.num_categories = C
    self.L = jnp.array(L, jnp.float32)
    self.G = jnp.array(G, jnp.float32)
    self.Gr = jnp.array(Gr, jnp.float32)
    self.pw = jnp.array([C ** (self.D - 1 - i) for i in range(self.D)],
                        jnp.int32)

  def _idx(self, x):
    import jax.numpy as jnp
    if x.ndim == len(self.shape) + 2:
      x = jnp.argmax(x, axis=-1)
    x = jnp.reshape(x, (x.shape[0], -1))
    x = jnp.round(x).astype(jnp.int32)
    return jnp.sum(x * self.pw, axis=-1)

  def forward(self, params, x):
    return self.L[self._idx(x)]

  def get_value_and_grad(self, params, x):
    import jax.numpy as jnp
    x = x.astype(jnp.float32)
    i = self._idx(x)
    return self.L[i], jnp.reshape(self.G[i], x.shape)

  def logratio_in_neighborhood(self, params, x):
    import jax.numpy as jnp
    x = x.astype(jnp.float32)
    i = self._idx(x)
    return self.L[i], jnp.reshape(self.Gr[i], x.shape), 1, None


def real_state(sampler, st, keep_int=('index', 'steps', 'num_ll_calls')):
  import jax
  import jax.numpy as jnp
  s = sampler.make_init_state(jax.random.PRNGKey(0))
  for n in s:
    v = st.get(n)
    if v is None:
      v = 1 if n == 'steps' else (-1.0 if n == 'log_tau' else None)
    if v is None:
      continue
    s[n] = (jnp.asarray(int(round(v)), jnp.int32) if n in keep_int
            else jnp.asarray(v, jnp.float32))
  return s


def real_counts(rec, x, N=200000, seed=0, chunk=50000):
  """Empirical one-step distribution of the unmodified sampler from x."""
  import jax
  import jax.numpy as jnp
  s = K.build_sampler(rec['name'], rec['C'], tuple(rec['shape']), rec['opts'])
  m = TableModel(rec['C'], rec['shape'], rec['L'], rec['G'], rec['Gr'])
  st = real_state(s, rec['state'])
  xa = jnp.array(x, jnp.int32).reshape((rec['B'],) + tuple(rec['shape']))
  mask = rec.get('mask')

  def one(key):
    if mask is not None:
      out = s.step(m, key, xa, {}, dict(st), jnp.array(mask, jnp.float32))
    else:
      out = s.step(m, key, xa, {}, dict(st))
    y = jnp.reshape(out[0], (-1,))
    return y

  f = jax.jit(jax.vmap(one))
  cnt = {}
  key = jax.random.PRNGKey(seed)
  done = 0
  while done < N:
    key, sub = jax.random.split(key)
    ys = np.asarray(f(jax.random.split(sub, chunk)))
    u, c = np.unique(ys, axis=0, return_counts=True)
    for a, b in zip(u, c):
      t = tuple(float(v) if float(v) != int(v) else int(v) for v in a)
      cnt[t] = cnt.get(t, 0) + int(b)
    done += chunk
  return cnt, done


def replay_db(rec):
  """Estimates both probability flows with the real code."""
  B, D = rec['B'], int(np.prod(rec['shape']))
  C = rec['C']

  def w(s):
    t = 0.0
    for b in range(B):
      i = 0
      for v in s[b * D:(b + 1) * D]:
        i = i * C + v
      t += rec['L'][i]
    return t

  x, y = tuple(rec['x']), tuple(rec['y'])
  top = max(w(x), w(y))
  wx, wy = math.exp(w(x) - top), math.exp(w(y) - top)
  best = 0.0
  for N in (200000, 1000000):
    cx, n = real_counts(rec, x, N, seed=11)
    cy, _ = real_counts(rec, y, N, seed=12)
    px, py = cx.get(y, 0) / n, cy.get(x, 0) / n
    fx, fy = wx * px, wy * py
    se = math.sqrt((wx ** 2 * max(px * (1 - px), 1e-9)
                    + wy ** 2 * max(py * (1 - py), 1e-9)) / n)
    z = abs(fx - fy) / se
    if z > 6:
      return True, dict(K_xy=px, K_yx=py, flow_xy=fx, flow_yx=fy, z=z, n=n)
    best = max(best, z)
  return False, dict(z=best)


# ------------------------------------------------------------------ exact
def block_of(cfg, k, index):
  if cfg['name'] == 'gibbs':
    n = 1
  else:
    n = k.opts.get('block_size', K.DEFAULT_OPTS['block_size'])
  return [i for i in range(index, index + n) if i < k.D]


def slice_states(k, s, block):
  for vals in itertools.product(range(k.C), repeat=len(block)):
    y = list(s)
    for i, v in zip(block, vals):
      y[i] = v
    yield tuple(y)


def conditional(cfg, res):
  """K(x, .) is the exact conditional of the addressed block."""
  rng = random.Random(cfg.get('seed', 1))
  k = K.Kernel(cfg['name'], cfg['C'], cfg['shape'], cfg.get('B', 1),
               cfg.get('opts'))
  res['functions'] = sorted(k.funcs)
  D = k.D
  for index in cfg.get('indices', range(D)):
    starts = _starts(k, cfg)
    rws = rows(k, starts, res, index=index)
    sanity(rws, rng, res)
    blk = block_of(cfg, k, index)
    for x in starts:
      chains = [x[b * D:(b + 1) * D] for b in range(k.B)]
      target = {}
      for combo in itertools.product(
          *[list(slice_states(k, c, blk)) for c in chains]):
        y = tuple(itertools.chain(*combo))
        t = T.const(1)
        for c, yc in zip(chains, combo):
          z = T.sum_many([k.model.W(s) for s in slice_states(k, c, blk)])
          t = T.mul(t, T.div(k.model.W(yc), z))
        target[y] = t
      got = {}
      for y, cs, p in rws[x]:
        got.setdefault(y, []).append((cs, p))
      for y in set(target) | set(got):
        fw = got.get(y, [])
        for conds, test in K.cells([cs for cs, p in fw] or [()]):
          ls = [p for cs, p in fw if test(cs)]
          rs = [target[y]] if y in target else []
          res['obligations'] += 1
          v, env = K.decide_equal(ls, rs, conds, rng)
          if v == 'unsat':
            res['discharged'] += 1
            if len(res['samples']) < 2:
              res['samples'].append(dict(
                  obligation='K(x=%s,y=%s | index=%d) = conditional' % (
                      x, y, index), term=T.show(rs[0] if rs else T.const(0))[:200],
                  verdict='unsat'))
          elif v == 'sat':
            r = db_record(k, cfg, x, y, env)
            r['kind'] = 'conditional'
            r['state']['index'] = index
            r['expected'] = smt.eval_f(target[y], env_tab(k, r)) \
                if y in target else 0.0
            res['candidates'].append(r)
            if len(res['candidates']) >= 3:
              return
          else:
            res['unknown'] += 1


def env_tab(k, rec):
  env = {}
  for i, s in enumerate(itertools.product(range(k.C), repeat=k.D)):
    env['L%s' % (s,)] = rec['L'][i]
    for j, g in enumerate(rec['G'][i]):
      env['G%s[%d]' % (s, j)] = g
    for j, g in enumerate(rec['Gr'][i]):
      env['Gr%s[%d]' % (s, j)] = g
  for n, v in rec['state'].items():
    if v is not None:
      env[n] = v
      b = k.stsym.get(n)
      if b is not None:
        for nm in K.var_names([b[()]]):
          env[nm] = v
  for n, v in (('steps', 1.0), ('num_ll_calls', 0.0)):
    if n in k.stsym:
      for nm in K.var_names([k.stsym[n][()]]):
        env.setdefault(nm, v)
  return env


def replay_prob(rec):
  """The real probability of x -> y differs from rec['expected']."""
  x, y = tuple(rec['x']), tuple(rec['y'])
  e = rec['expected']
  z = 0.0
  for N in (200000, 1000000):
    cx, n = real_counts(rec, x, N, seed=21)
    p = cx.get(y, 0) / n
    se = math.sqrt(max(e * (1 - e), p * (1 - p), 1e-9) / n)
    z = abs(p - e) / se
    if z > 6:
      return True, dict(expected=e, observed=p, z=z, n=n)
  return False, dict(z=z, expected=e)


def validate(cfg, res, N=40000):
  """Translator validation: symbolic row vs empirical row of the real code."""
  rng = random.Random(cfg.get('seed', 1) + 5)
  k = K.Kernel(cfg['name'], cfg['C'], cfg['shape'], cfg.get('B', 1),
               cfg.get('opts'), mask=cfg.get('mask'))
  sts = k.states()
  x = sts[rng.randrange(len(sts))]
  names = set()
  out = list(k.run(x, **cfg.get('fix', {})))
  for y, o, c in out:
    names |= K.var_names([c.prob_F()] + list(c.conds))
  _, env = K.random_pins(names, rng)
  env.setdefault('steps', 1.0)
  rec = db_record(k, cfg, x, x, env)
  env2 = env_tab(k, rec)
  pred = {}
  memo = {}
  for y, o, c in out:
    if all(smt.eval_b(b, env2, memo) for b in c.conds):
      pred[y] = pred.get(y, 0.0) + smt.eval_f(c.prob_F(), env2, memo)
  cnt, n = real_counts(rec, x, N, seed=31, chunk=N)
  worst = 0.0
  for y in set(pred) | set(cnt):
    p, o = pred.get(y, 0.0), cnt.get(y, 0) / n
    z = abs(p - o) / math.sqrt(max(p * (1 - p), 1e-7) / n)
    worst = max(worst, z)
  res['validated'] += n
  res['notes'].append('validation: %d real transitions, worst z %.2f' % (
      n, worst))
  if worst > 7:
    res['errors'].append('translator validation failed: z=%.1f' % worst)


# ------------------------------------------------------------------ invariance
def invariant(cfg, res):
  """Reversible, or (failing that) pi K = pi."""
  r2 = dict(res, obligations=0, discharged=0, unknown=0, candidates=[],
            samples=[])
  r2['paths'] = 0
  reversible(cfg, r2)
  if not r2['candidates'] and not r2['unknown']:
    for kk in ('obligations', 'discharged', 'paths'):
      res[kk] += r2[kk]
    res['functions'] = r2['functions']
    res['samples'] += r2['samples']
    res['errors'] = r2['errors']
    return
  rng = random.Random(cfg.get('seed', 1))
  k = K.Kernel(cfg['name'], cfg['C'], cfg['shape'], 1, cfg.get('opts'))
  res['functions'] = sorted(k.funcs)
  rws = rows(k, k.states(), res)
  allg = [cs for r in rws.values() for y, cs, p in r]
  for conds, test in K.cells(allg):
    for y in k.states():
      ls, rs = [], [k.weight(y)]
      for x, r in rws.items():
        for yy, cs, p in r:
          if yy == y and test(cs):
            ls.append(T.mul(p, k.weight(x)))
      res['obligations'] += 1
      v, env = K.decide_equal(ls, rs, conds, rng)
      if v == 'unsat':
        res['discharged'] += 1
      elif v == 'sat':
        rec = db_record(k, cfg, y, y, env)
        rec['kind'] = 'invariance'
        res['candidates'].append(rec)
        if len(res['candidates']) >= 2:
          return
      else:
        res['unknown'] += 1


def replay_inv(rec):
  C, D = rec['C'], int(np.prod(rec['shape']))
  sts = list(itertools.product(range(C), repeat=D))
  top = max(rec["L"])
  w = [math.exp(l - top) for l in rec["L"]]
  tot = sum(w)
  y = tuple(rec['y'])
  est, var = 0.0, 0.0
  n = 1
  for s, ws in zip(sts, w):
    c, n = real_counts(rec, s, 200000, seed=41)
    p = c.get(y, 0) / n
    est += ws / tot * p
    var += (ws / tot) ** 2 * max(p * (1 - p), 1e-9) / n
  target = w[sts.index(y)] / tot
  z = abs(est - target) / math.sqrt(var)
  return z > 6, dict(after_one_step=est, target=target, z=z, n=n)


# ------------------------------------------------------------------ chains
def independent(cfg, res):
  """Batch of two: joint kernel factorises (or at least its marginals do)."""
  rng = random.Random(cfg.get('seed', 1))
  fix = cfg.get('fix', {})
  k2 = K.Kernel(cfg['name'], cfg['C'], cfg['shape'], 2, cfg.get('opts'))
  k1 = K.Kernel(cfg['name'], cfg['C'], cfg['shape'], 1, cfg.get('opts'))
  res['functions'] = sorted(k2.funcs)
  D = k1.D
  one = rows(k1, k1.states(), res, **fix)
  two_starts = _starts(k2, cfg)
  two = rows(k2, two_starts, res, **fix)
  sanity(two, rng, res)
  for x in two_starts:
    x1, x2 = x[:D], x[D:]
    joint = {}
    for y, cs, p in two[x]:
      joint.setdefault(y, []).append((cs, p))
    allg = [cs for y, cs, p in two[x]] + [cs for y, cs, p in one[x1]] + [
        cs for y, cs, p in one[x2]]
    ys = set(joint) | {a[0] + b[0] for a in one[x1] for b in one[x2]}
    for conds, test in K.cells(allg):
      bad = None
      n0 = 0
      for y in sorted(ys):
        ls = [p for cs, p in joint.get(y, []) if test(cs)]
        rs = [T.mul(p, q) for yy, cs, p in one[x1] if yy == y[:D] and test(cs)
              for zz, ds, q in one[x2] if zz == y[D:] and test(ds)]
        if not ls and not rs:
          continue
        n0 += 1
        v, env = K.decide_equal(ls, rs, conds, rng)
        if v != 'unsat':
          bad = (y, v, env)
          break
      if bad is None:
        res['obligations'] += n0
        res['discharged'] += n0
        if len(res['samples']) < 2:
          res['samples'].append(dict(
              obligation='K2(%s,.) = K1 x K1' % (x,), entries=n0,
              verdict='unsat'))
        continue
      if cfg['name'] != 'hb':
        # every sampler but hamming ball moves its chains independently
        y, v, env = bad
        res['obligations'] += n0
        res['discharged'] += n0 - 1
        if v == 'sat':
          r = db_record(k2, cfg, x, y, env)
          r['kind'] = 'joint'
          res['candidates'].append(r)
          if len(res['candidates']) >= 3:
            return
        else:
          res['unknown'] += 1
        continue
      # marginals of each chain
      for b in range(2):
        xs = (x1, x2)[b]
        for yb in k1.states():
          ls = [p for y, cs, p in two[x] if y[b * D:(b + 1) * D] == yb
                and test(cs)]
          rs = [p for y, cs, p in one[xs] if y == yb and test(cs)]
          if not ls and not rs:
            continue
          res['obligations'] += 1
          v, env = K.decide_equal(ls, rs, conds, rng)
          if v == 'unsat':
            res['discharged'] += 1
          elif v == 'sat':
            r = db_record(k2, cfg, x, tuple(yb), env)
            r['kind'] = 'marginal'
            r['chain'] = b
            memo = {}
            env2 = env_tab(k1, r)
            r['expected'] = math.fsum(smt.eval_f(p, env2, memo) for p in rs)
            res['candidates'].append(r)
            if len(res['candidates']) >= 3:
              return
          else:
            res['unknown'] += 1


def replay_marginal(rec):
  D = int(np.prod(rec['shape']))
  b = rec['chain']
  x = tuple(rec['x'])
  yb = tuple(rec['y'])
  z = 0.0
  for N in (200000, 800000):
    c2, n = real_counts(rec, x, N, seed=51)
    p2 = sum(v for y, v in c2.items() if y[b * D:(b + 1) * D] == yb) / n
    r1 = dict(rec, B=1)
    c1, n = real_counts(r1, x[b * D:(b + 1) * D], N, seed=52)
    p1 = c1.get(yb, 0) / n
    se = math.sqrt((max(p1 * (1 - p1), 1e-9) + max(p2 * (1 - p2), 1e-9)) / n)
    z = abs(p1 - p2) / se
    if z > 6:
      return True, dict(batch_of_two=p2, alone=p1, z=z, n=n)
  return False, dict(z=z)


def replay_joint(rec):
  """Joint law of two chains vs the product of their separate laws."""
  D = int(np.prod(rec['shape']))
  x, y = tuple(rec['x']), tuple(rec['y'])
  z = 0.0
  for N in (200000, 800000):
    c2, n = real_counts(rec, x, N, seed=61)
    p = c2.get(y, 0) / n
    r1 = dict(rec, B=1)
    q = []
    for b in range(2):
      c1, n = real_counts(r1, x[b * D:(b + 1) * D], N, seed=62 + b)
      q.append(c1.get(y[b * D:(b + 1) * D], 0) / n)
    e = q[0] * q[1]
    var = (max(p * (1 - p), 1e-9) + q[1] ** 2 * max(q[0] * (1 - q[0]), 1e-9)
           + q[0] ** 2 * max(q[1] * (1 - q[1]), 1e-9)) / n
    z = abs(p - e) / math.sqrt(var)
    if z > 6:
      return True, dict(joint=p, product_of_separate=e, z=z, n=n)
  return False, dict(z=z)
