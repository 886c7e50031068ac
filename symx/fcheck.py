"""Function contracts: real code traced to a jaxpr, run on symbolic inputs and
compared with an oracle term by term."""
import itertools
import math
import random

import numpy as np
import jax
import jax.numpy as jnp

from symx import explore as X
from symx import interp as I
from symx import kernels as K
from symx import rnd
from symx import smt
from symx import statecheck as SC
from symx import terms as T

ASSUMPTIONS = [
    'real arithmetic: float32 rounding is outside the claim',
    'inputs marked symbolic range over all reals (or the stated interval); '
    'shapes, category counts and discrete states are bounded as listed',
]


# ------------------------------------------------------------------ inputs
class Sym:
  """Symbolic array: spec for tracing, terms for execution, values for replay."""

  def __init__(self, name, shape, dtype=np.float32, **kw):
    self.name, self.shape, self.dtype = name, tuple(shape), np.dtype(dtype)
    self.terms = I.obj(self.shape)
    for ix in np.ndindex(*self.shape):
      n = name + ('[%s]' % ','.join(map(str, ix)) if ix else '')
      self.terms[ix] = T.var(n, **kw)

  def spec(self):
    return jax.ShapeDtypeStruct(self.shape, self.dtype)

  def value(self, env):
    out = np.zeros(self.shape, np.float64)
    for ix in np.ndindex(*self.shape):
      if T.is_const(self.terms[ix]):
        out[ix] = float(self.terms[ix].coef)
        continue
      nm = T.BASES[T_id(self.terms[ix])].args[0]
      v = env.get(nm)
      if v is None:
        b = T.BASES[T_id(self.terms[ix])]
        v = float(b.lo if b.lo is not None else (1 if b.pos else 0))
      out[ix] = v
    return jnp.asarray(out.astype(self.dtype))


def T_id(f):
  return f.fac[0][0]


def is_leaf(x):
  return isinstance(x, (Sym, np.ndarray)) or hasattr(x, "terms")


def specs(args):
  def sp(x):
    if hasattr(x, 'terms'):
      return x.spec()
    x = np.asarray(x)
    return jax.ShapeDtypeStruct(x.shape, x.dtype)
  return jax.tree_util.tree_map(sp, args, is_leaf=is_leaf)


def terms_of(args):
  return jax.tree_util.tree_map(
      lambda x: x.terms if hasattr(x, 'terms') else np.asarray(x), args,
      is_leaf=is_leaf)


def values_of(args, env):
  return jax.tree_util.tree_map(
      lambda x: x.value(env) if hasattr(x, 'terms') else jnp.asarray(x), args,
      is_leaf=is_leaf)


def trace(fn, args, key=False):
  """fn(*args) or fn(key, *args) when key."""
  sp = specs(tuple(args))
  if key:
    return I.Traced(fn, jax.ShapeDtypeStruct((2,), np.uint32), *sp)
  return I.Traced(fn, *sp)


def run(tr, args, assume=(), key=False):
  a = terms_of(tuple(args))
  if key:
    return X.explore(lambda: tr(rnd.key_array('k'), *a), assume)
  return X.explore(lambda: tr(*a), assume)


def flat_terms(x):
  """Symbolic output pytree -> list of F."""
  out = []
  for leaf in jax.tree_util.tree_leaves(
      x, is_leaf=lambda v: isinstance(v, np.ndarray)):
    a = I.to_obj(np.asarray(leaf, dtype=object) if not isinstance(
        leaf, np.ndarray) else leaf)
    out += [T.lift(v) if not isinstance(v, T.F) else v for v in a.reshape(-1)]
  return out


def arr(x):
  """Symbolic output leaf -> object array of terms."""
  a = I.to_obj(x)
  o = I.obj(a.shape)
  for ix in np.ndindex(*a.shape):
    v = a[ix]
    o[ix] = v if isinstance(v, T.F) else T.lift(v)
  return o


# ------------------------------------------------------------------ contracts
def contract(res, cfg, fn, args, oracle, label, assume=(), rng=None, slot=0,
             under=None, key=False, rebuild=None, tol=2e-3):
  """Every output entry of fn(*args) equals oracle(outputs) entrywise.

  oracle(path_outputs) -> pytree of terms of the same flat length.
  """
  rng = rng or random.Random(cfg.get('seed', 1))
  tr = trace(fn, args, key)
  res['functions'] = sorted(set(res['functions']) | tr.funcs)
  res['neqns'] = res.get('neqns', 0) + tr.neqns()
  first = []
  for out, c in run(tr, args, assume, key):
    res['paths'] += 1
    got = flat_terms(out)
    if len(first) < 8:
      first.append((got, list(c.conds)))
    want = flat_terms(oracle(out))
    if len(got) != len(want):
      res['obligations'] += 1
      res['candidates'].append(dict(
          kind='contract', case=cfg['case'], slot=slot, label=label, env={},
          shape=[len(got), len(want)]))
      return
    for i, (g, w) in enumerate(zip(got, want)):
      def rec(env, i=i, w=w):
        return dict(kind='contract', case=cfg['case'], slot=slot, index=i,
                    label=label, env={k: float(v) for k, v in env.items()},
                    want=_num(w, env))
      if under is not None:
        g, w = under(g), under(w)
      SC.prove_equal(res, g, w, c.conds, rng, label, rec)
      if SC.too_many(res):
        return
  if not key and not res['candidates']:
    _validate(res, fn, args, first, rebuild, max(tol, 5e-3), label)


def _validate(res, fn, args, paths, rebuild, tol, label):
  """Translator validation: the encoded path at one point vs the real code."""
  env = _generic_env(args)
  for got, conds in paths:
    e = dict(env)
    for n in K.var_names(got + list(conds)):
      if n not in e:
        e.update(K.random_pins([n], random.Random(5))[1])
    try:
      if not all(smt.eval_b(b, e, {}) for b in conds):
        continue
      memo = {}
      sym = [float(smt.eval_f(g, e, memo)) for g in got]
    except (ValueError, OverflowError, ZeroDivisionError, KeyError):
      continue
    out = fn(*(rebuild(e) if rebuild else values_of(args, e)))
    real = np.concatenate([np.asarray(v, np.float64).reshape(-1)
                           for v in jax.tree_util.tree_leaves(out)] + [np.zeros(0)])
    bad = [i for i, (a, b) in enumerate(zip(sym, real)) if math.isfinite(a)
           and math.isfinite(b) and abs(a - b) > tol * max(1.0, abs(a))]
    if bad or len(sym) != real.size:
      i = bad[0] if bad else -1
      res['errors'].append('translator validation failed (%s): entry %d' % (
          label, i) + (': encoded %g, real %g' % (sym[i], real[i]) if bad else ''))
    else:
      res['validated'] += 1
    return


def _num(w, env):
  if T.sp(w):
    return float(w)
  e = dict(env)
  for n in K.var_names([w]):
    e.setdefault(n, 0.0)
  try:
    return float(smt.eval_f(w, e, {}))
  except (ValueError, OverflowError, ZeroDivisionError):
    return float('nan')


class Contract:
  """One contract of a case, so that run and replay share its construction."""

  def __init__(self, label, fn, args, oracle, assume=(), tol=2e-3,
               under=None, key=False, rebuild=None):
    """rebuild: env -> concrete arguments for the replay;
    under: injective map applied to both sides before deciding (T.exp);
    key: fn takes a random key first."""
    self.under, self.key, self.rebuild = under, key, rebuild
    self.label, self.fn, self.args = label, fn, tuple(args)
    self.oracle, self.assume, self.tol = oracle, list(assume), tol


def run_case(module, cfg, res):
  """cfg['case'] names a function of the check module returning Contracts."""
  cs = getattr(module, cfg['case'])(*cfg.get('args', ()))
  rng = random.Random(cfg.get('seed', 1))
  for i, c in enumerate(cs):
    if isinstance(c, Contract):
      contract(res, cfg, c.fn, c.args, c.oracle, c.label, c.assume, rng, i,
               c.under, c.key, c.rebuild, c.tol)
    else:
      c.run(res, cfg, i, rng)
    for r in res['candidates']:
      r.setdefault('args', list(cfg.get('args', ())))
    if SC.too_many(res):
      return


def replay_case(module, rec):
  if rec.get('kind') == 'crash':
    return _replay_crash(module, rec)
  args = _tup(rec.get('args', ()))
  c = getattr(module, rec['case'])(*args)[rec['slot']]
  if not isinstance(c, Contract):
    return c.replay(rec)
  vals = c.rebuild(rec['env']) if c.rebuild else values_of(
      c.args, rec['env'])
  out = c.fn(*([jax.random.PRNGKey(3)] if c.key else []), *vals)
  got = np.concatenate([np.asarray(v, np.float64).reshape(-1)
                        for v in jax.tree_util.tree_leaves(out)])
  if 'index' not in rec:
    return got.size != rec['shape'][1], dict(size=got.size, expected=rec['shape'][1])
  g, w = float(got[rec['index']]), rec['want']
  if math.isnan(w):
    return False, dict(reason='oracle value not finite', got=g)
  bad = not math.isfinite(g) or abs(g - w) > c.tol * max(1.0, abs(w))
  return bool(bad), dict(contract=rec['label'], index=rec['index'], got=g,
                         expected=w)


def _tup(a):
  return tuple(_tup(x) if isinstance(x, (list, tuple)) else x for x in a)


def crash_record(cfg, e):
  return dict(kind='crash', case=cfg['case'], args=list(cfg.get('args', ())),
              error='%s: %s' % (type(e).__name__, str(e)[:300]))


def _replay_crash(module, rec):
  """The real code must raise on a concrete input of the case."""
  try:
    cs = getattr(module, rec['case'])(*_tup(rec['args']))
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    if any('/repo/' in f.filename for f in tb):
      return True, dict(exception='%s: %s' % (type(e).__name__, str(e)[:300]))
    raise
  for c in cs:
    try:
      if isinstance(c, Contract):
        c.fn(*([jax.random.PRNGKey(3)] if c.key else []),
             *values_of(c.args, _generic_env(c.args)))
      else:
        c.smoke()
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      tb = traceback.extract_tb(e.__traceback__)
      if any('/repo/' in f.filename for f in tb):
        return True, dict(contract=c.label, exception='%s: %s' % (
            type(e).__name__, str(e)[:300]))
      return False, dict(reason='raised outside the repository: %r' % (e,))
  return False, dict(reason='the real code does not raise')


def _generic_env(args):
  r = random.Random(7)
  names = []
  for a in jax.tree_util.tree_leaves(args, is_leaf=is_leaf):
    if hasattr(a, 'terms'):
      names += sorted(K.var_names(list(a.terms.reshape(-1))))
  return K.random_pins(names, r)[1]


# ------------------------------------------------------------------ laws
class Law:
  """A random function: probability of each outcome equals the oracle's.

  fn(key, *args) is explored over all random outcomes; outcome(out) -> hashable;
  want(outcome) -> F.  Every outcome of `space` and nothing else is reachable.
  """

  def __init__(self, label, fn, args, outcome, want, space, assume=(),
               real_outcome=None, n=200000, value=None, want_value=None):
    self.value, self.want_value = value, want_value
    self.label, self.fn, self.args = label, fn, tuple(args)
    self.outcome, self.want, self.space = outcome, want, list(space)
    self.assume = list(assume)
    self.real_outcome = real_outcome or (lambda o: tuple(
        np.asarray(o).reshape(-1).astype(int).tolist()))
    self.n = n

  def run(self, res, cfg, slot, rng):
    tr = trace(self.fn, self.args, key=True)
    res['functions'] = sorted(set(res['functions']) | tr.funcs)
    res['neqns'] = res.get('neqns', 0) + tr.neqns()
    paths = []
    for out, c in run(tr, self.args, self.assume, key=True):
      res['paths'] += 1
      o = self.outcome(out)
      paths.append((o, c))
      if self.value is not None and o in self.space:
        for j, (g, w) in enumerate(zip(self.value(out), self.want_value(o))):
          def vrec(env, o=o, j=j, w=w):
            return dict(kind='lawvalue', case=cfg['case'], slot=slot, j=j,
                        label=self.label, outcome=list(o),
                        want=_num(w, env),
                        env={k: float(v) for k, v in env.items()})
          SC.prove_equal(res, g, w, c.conds, rng, self.label + ' value', vrec)
          if SC.too_many(res):
            return
    for conds, test in K.cells([tuple(c.conds) for _, c in paths]):
      tot = {}
      for o, c in paths:
        if test(c.conds):
          tot.setdefault(o, []).append(c.prob_F())
      for o in set(tot) | set(self.space):
        def rec(env, o=o):
          return dict(kind='law', case=cfg['case'], slot=slot, label=self.label,
                      outcome=list(o) if isinstance(o, tuple) else o,
                      env={k: float(v) for k, v in env.items()})
        res['obligations'] += 1
        w = self.want(o) if o in self.space else T.const(0)
        v, env = K.decide_equal(tot.get(o, [T.const(0)]), [w], list(conds), rng)
        if v == 'unsat':
          res['discharged'] += 1
          if len(res['samples']) < 3:
            res['samples'].append(dict(obligation='%s: P(%s)' % (self.label, o),
                                       term=T.show(w)[:200], verdict='unsat'))
        elif v == 'sat':
          res['candidates'].append(rec(env))
        else:
          res['unknown'] += 1
        if SC.too_many(res):
          return

  def replay(self, rec):
    env = dict(rec['env'])
    names = []
    for a in jax.tree_util.tree_leaves(self.args, is_leaf=is_leaf):
      if hasattr(a, 'terms'):
        names += sorted(K.var_names(list(a.terms.reshape(-1))))
    for n in names:
      env.setdefault(n, 0.0)
    vals = values_of(self.args, env)
    if rec['kind'] == 'lawvalue':
      return self._replay_value(rec, vals)
    keys = jax.random.split(jax.random.PRNGKey(11), self.n)
    outs = jax.jit(jax.vmap(lambda k: self.fn(k, *vals)))(keys)
    leaves = [np.asarray(v).reshape(self.n, -1)
              for v in jax.tree_util.tree_leaves(outs)]
    u, cnt = np.unique(np.concatenate(leaves, 1), axis=0, return_counts=True)
    o = tuple(rec['outcome'])
    n = sum(int(c) for a, c in zip(u, cnt) if self.real_outcome(a) == o)
    p = float(smt.eval_f(self.want(o), env, {})) if o in self.space else 0.0
    f = n / self.n
    z = abs(f - p) / math.sqrt(max(p * (1 - p), 1.0 / self.n) / self.n)
    return bool(z > 7), dict(contract=self.label, outcome=list(o), frequency=f,
                             probability=p, z=z)

  def _replay_value(self, rec, vals):
    """Find keys giving the outcome and compare the value they return."""
    f = jax.jit(lambda k: self.fn(k, *vals))
    for i in range(3000):
      out = f(jax.random.PRNGKey(i))
      first = jax.tree_util.tree_leaves(out)[0]
      if self.real_outcome(np.asarray(first)) != tuple(rec['outcome']):
        continue
      g = float(np.asarray(self.value(out)[rec['j']], np.float64))
      w = rec['want']
      if not abs(g - w) <= 2e-3 * max(1.0, abs(w)):
        return True, dict(contract=self.label, outcome=rec['outcome'], got=g,
                          expected=w, key=i)
    return False, dict(reason='no key showed the difference')

  def smoke(self):
    vals = values_of(self.args, _generic_env(self.args))
    self.fn(jax.random.PRNGKey(0), *vals)


def ints(out):
  return tuple(K.tuple_of(np.asarray(out)))


# ------------------------------------------------------------------ calculus
def diff(f, name, memo=None):
  """d f / d (variable `name`), exactly, on the term representation."""
  memo = {} if memo is None else memo
  f = T.lift(f)
  if T.is_const(f):
    return T.const(0)
  r = memo.get(f.uid)
  if r is not None:
    return r
  tot = []
  for i, (b, e) in enumerate(f.fac):
    db = _dbase(b, name, memo)
    if T.is_const(db) and db.coef == 0:
      continue
    rest = T.mul(f, T.base_F(T.BASES[b], -1))
    tot.append(T.mul(T.mul(rest, T.const(e) if not isinstance(e, T.F) else e),
                     db))
  r = T.sum_many(tot) if tot else T.const(0)
  memo[f.uid] = r
  return r


def _dmono(m, name, memo):
  tot = []
  for i, (b, e) in enumerate(m):
    db = _dbase(b, name, memo)
    if T.is_const(db) and db.coef == 0:
      continue
    rest = T.const(e)
    for j, (b2, e2) in enumerate(m):
      rest = T.mul(rest, T.base_F(T.BASES[b2], e2 - 1 if j == i else e2)
                   if (e2 - 1 if j == i else e2) != 0 else T.const(1))
    tot.append(T.mul(rest, db))
  return T.sum_many(tot) if len(tot) > 1 else (tot[0] if tot else T.const(0))


def _dbase(b, name, memo):
  Bx = T.BASES[b] if isinstance(b, int) else b
  key = ('b', Bx.id)
  if key in memo:
    return memo[key]
  if Bx.is_poly:
    tot = []
    for m, c in Bx.terms:
      d = _dmono(m, name, memo)
      if not (T.is_const(d) and d.coef == 0):
        tot.append(T.mul(d, T.const(c)))
    r = T.sum_many(tot) if len(tot) > 1 else (tot[0] if tot else T.const(0))
  elif Bx.kind == 'var':
    r = T.const(1 if Bx.args[0] == name else 0)
  elif Bx.kind in ('e', 'num'):
    r = T.const(0)
  elif Bx.kind == 'E':
    d = _dmono(Bx.args, name, memo)
    r = T.mul(T.base_F(Bx), d) if not (T.is_const(d) and d.coef == 0) else d
  elif Bx.kind == 'log':
    g = T._F_by_uid[Bx.args[0]]
    d = diff(g, name, memo)
    r = d if (T.is_const(d) and d.coef == 0) else T.div(d, g)
  elif Bx.kind in ('min', 'max'):
    x, y = (T._F_by_uid[u] for u in Bx.args)
    dx, dy = diff(x, name, memo), diff(y, name, memo)
    if dx is dy:
      r = dx
    else:
      c = T.lt(x, y) if Bx.kind == 'min' else T.lt(y, x)
      r = T.ite(c, dx, dy)
  elif Bx.kind == 'ite':
    c = T._B_by_uid[Bx.args[0]]
    x, y = (T._F_by_uid[u] for u in Bx.args[1:])
    r = T.ite(c, diff(x, name, memo), diff(y, name, memo))
  elif Bx.kind == 'uf' and Bx.args[0] == 'lgamma':
    g = T._F_by_uid[Bx.args[1]]
    d = diff(g, name, memo)
    r = d if (T.is_const(d) and d.coef == 0) else T.mul(
        d, T.uf('digamma', g))
  else:
    raise T.Unsupported('derivative of %s' % Bx.kind)
  memo[key] = r
  return r


def varname(f):
  return T.BASES[f.fac[0][0]].args[0]
