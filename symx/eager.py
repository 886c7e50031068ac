"""Symbolic execution of Python code that calls JAX, statement by statement.

Unlike interp.Traced, nothing is staged: a JAX trace whose values are arrays of
terms runs the real Python code once per path.  Values that do not depend on a
symbolic input stay concrete, Python control flow on a symbolic value forks.
"""
import contextlib
import types

import numpy as np
import jax
import jax.numpy as jnp
from jax import core

from symx import explore as X
from symx import interp as I
from symx import rnd
from symx import terms as T

_state = types.SimpleNamespace(main=None, interp=None, neqns=0, funcs=set(), kept=[])


def _kept(i):
  return _state.kept[i]


def parse(text):
  """Number written as text -> number; str() of a symbolic value -> it."""
  text = text.strip()
  if text.startswith('<sym '):
    return _state.kept[int(text[5:-1])]
  return float(text)


class SymTracer(core.Tracer):
  """Array of terms."""
  __slots__ = ['val', '_av']

  def __init__(self, trace, val, aval):
    self._trace = trace
    self.val = val
    self._av = aval

  @property
  def aval(self):
    return self._av

  def full_lower(self):
    return self

  def _scalar(self):
    if self.val.size != 1:
      raise TypeError('only size-1 arrays convert to Python scalars')
    return I.scalar(self.val)

  def __bool__(self):
    v = self._scalar()
    if isinstance(v, T.F):
      v = T.bnot(T.eq(v, T.const(0)))
    return bool(X.decide_bool(v)) if isinstance(v, T.B) else bool(v)

  def __int__(self):
    v = I.num(self._scalar())
    if np.issubdtype(self._av.dtype, np.floating):
      return X.truncate(v)
    return int(X.concretize(v))

  def __index__(self):
    if np.issubdtype(self._av.dtype, np.floating):
      raise TypeError('a real number is no index')
    return int(X.concretize(I.num(self._scalar())))

  __trunc__ = __int__

  def __reduce_ex__(self, _):
    _state.kept.append(self)
    return _kept, (len(_state.kept) - 1,)

  def __float__(self):
    if np.issubdtype(self._av.dtype, np.integer):
      return float(int(self))
    raise T.Unsupported('float() of a symbolic value')

  def item(self, *a):
    return self

  def tolist(self):
    return self

  def __array__(self, dtype=None, *a, **k):
    return self.val

  def block_until_ready(self):
    return self

  def __repr__(self):
    _state.kept.append(self)
    return '<sym %d>' % (len(_state.kept) - 1)

  def __format__(self, spec):
    return repr(self)


def _aval(x):
  return core.raise_to_shaped(core.get_aval(x))


class SymTrace(core.Trace):

  def pure(self, val):
    if jax.dtypes.issubdtype(getattr(val, 'dtype', None) or np.int32,
                             jax.dtypes.extended):
      return SymTracer(self, val, _aval(val))
    return SymTracer(self, np.asarray(val), _aval(val))

  lift = pure

  def sublift(self, t):
    return SymTracer(self, t.val, t.aval)

  def process_primitive(self, prim, tracers, params):
    with core.eval_context():
      return self._prim(prim, tracers, params)

  def _prim(self, prim, tracers, params):
    ins = [t.val for t in tracers]
    _state.neqns += 1
    if prim.name == 'device_put':
      return tracers[0] if I.is_obj(ins[0]) else jnp.asarray(ins[0])
    if not any(I.is_obj(v) for v in ins) and not _needs_symbols(prim, params):
      r = prim.bind(*[jnp.asarray(v) if isinstance(v, np.ndarray) else v
                      for v in ins], **params)
      return r
    r = prim.abstract_eval(*[t.aval for t in tracers], **params)
    avals = r[0] if isinstance(r, tuple) and len(r) == 2 and isinstance(
        r[1], (set, frozenset)) or _effects(r) else r
    if not prim.multiple_results:
      avals = [avals]
    eqn = types.SimpleNamespace(
        primitive=prim, params=params,
        invars=[types.SimpleNamespace(aval=t.aval) for t in tracers],
        outvars=[types.SimpleNamespace(aval=a) for a in avals])
    h = I.HANDLERS.get(prim.name)
    if h is None:
      raise T.Unsupported('primitive %s' % prim.name)
    outs = [self._out(o, a) for o, a in zip(
        I.narrow(eqn, list(h(eqn, ins, _state.interp))), avals)]
    return outs if prim.multiple_results else outs[0]

  def _out(self, o, aval):
    if not isinstance(o, np.ndarray):
      if isinstance(o, (T.F, T.B, I.KeyPart)):
        v = I.obj(())
        v[()] = o
        o = v
      else:
        o = np.asarray(o)
    if I.is_obj(o):
      return SymTracer(self, o, core.ShapedArray(
          aval.shape, aval.dtype, weak_type=getattr(aval, 'weak_type', False)))
    return jnp.asarray(o, aval.dtype)

  def process_custom_jvp_call(self, prim, fun, jvp, tracers, *, symbolic_zeros):
    return fun.call_wrapped(*tracers)

  def process_custom_vjp_call(self, prim, fun, fwd, bwd, tracers, *, out_trees,
                              symbolic_zeros):
    return fun.call_wrapped(*tracers)

  def process_call(self, prim, f, tracers, params):
    return f.call_wrapped(*tracers)


def _effects(r):
  return isinstance(r, tuple) and len(r) == 2 and 'ffect' in type(r[1]).__name__


_uses = {}


def _needs_symbols(prim, params):
  """Does the primitive draw random numbers (possibly inside a sub-jaxpr)?"""
  if prim.name in ('vrand', 'vmodel'):
    return True
  for v in params.values():
    for w in (v if isinstance(v, (tuple, list)) else (v,)):
      j = w.jaxpr if isinstance(w, core.ClosedJaxpr) else w
      if isinstance(j, core.Jaxpr):
        r = _uses.get(id(j))
        if r is None:
          r = any(_needs_symbols(e.primitive, e.params) for e in j.eqns)
          _uses[id(j)] = (r, j)
        else:
          r = r[0]
        if r:
          return True
  return False


def _accept_terms(fn):
  """Array constructors also take the object arrays np.array() makes of terms."""
  def f(x, *a, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
      return wrap(x)
    return fn(x, *a, **k)
  return f


@contextlib.contextmanager
def _running(random):
  with core.new_main(SymTrace, dynamic=True) as main:
    old = _state.main, _state.interp, T.truth
    T.truth = X.decide_bool
    _state.kept = []
    _state.main, _state.interp = main, I.Interp()
    fns = jax.device_put, jnp.array, jnp.asarray
    jax.device_put, jnp.array, jnp.asarray = map(_accept_terms, fns)
    try:
      if random:
        with rnd.active():
          yield main
      else:
        yield main
    finally:
      _state.main, _state.interp, T.truth = old
      jax.device_put, jnp.array, jnp.asarray = fns


def wrap(terms, dtype=np.float32):
  """Array of terms -> value the running code can use."""
  trace = _state.main.with_cur_sublevel()
  a = I.to_obj(terms)
  return SymTracer(trace, a, core.ShapedArray(a.shape, np.dtype(dtype)))


def wrap_tree(args):
  """Pytree with Sym leaves -> pytree of tracers."""
  return jax.tree_util.tree_map(
      lambda x: wrap(x.terms, x.dtype) if hasattr(x, 'terms') else x, args,
      is_leaf=lambda x: hasattr(x, 'terms'))


def terms_of(x):
  """Result of the running code -> object array of terms (or native array)."""
  if isinstance(x, SymTracer):
    return x.val
  if isinstance(x, (list, tuple)) and any(isinstance(v, SymTracer) for v in x):
    return I._stack([terms_of(v) for v in x], None)
  return np.asarray(x)


def same(a, b):
  """Python truth of a == b for scalars (forks when it is open)."""
  def t(x):
    return I.num(x._scalar()) if isinstance(x, SymTracer) else T.lift_const(
        float(x))
  if not (isinstance(a, SymTracer) or isinstance(b, SymTracer)):
    return bool(a == b)
  a, b = t(a), t(b)
  memo = X.ctx.__dict__.setdefault('same', {})
  k = (a.uid, b.uid)
  if k not in memo:
    v = T.eq(a, b)
    memo[k] = memo[k[::-1]] = (
        bool(X.decide_bool(v)) if isinstance(v, T.B) else bool(v))
  return memo[k]


def key(name='k'):
  return wrap(rnd.key_array(name), np.uint32)


def explore(fn, assume=(), random=True, max_paths=20000):
  """Yields (fn(), ctx) over all paths of the Python code."""
  def body():
    with _running(random):
      return fn()
  return X.explore(body, assume, max_paths)


def flat(x):
  """Output pytree -> list of leaves (term, or native number)."""
  if isinstance(x, dict):
    return [v for k in sorted(x) for v in flat(x[k])]
  if isinstance(x, (list, tuple)):
    return [v for y in x for v in flat(y)]
  if x is None:
    return []
  a = x.val if isinstance(x, SymTracer) else np.asarray(x)
  return list(a.reshape(-1))


class Contract:
  """fn(*args) run eagerly; every output equals the oracle's, path by path.

  fn gets tracers (or, for the replay, arrays) for the Sym leaves of args and
  returns a pytree; oracle() -> pytree of terms of the same flat length.
  assume: conditions on the inputs.  random: symbolic jax.random.
  """

  def __init__(self, label, fn, args, oracle, assume=(), tol=2e-3, random=False,
               max_paths=4000):
    self.label, self.fn, self.args, self.oracle = label, fn, tuple(args), oracle
    self.assume, self.tol, self.random = list(assume), tol, random
    self.max_paths = max_paths

  def run(self, res, cfg, slot, rng):
    from symx import fcheck as FC
    from symx import statecheck as SC
    n0 = _state.neqns
    first = []
    with watch() as funcs:
      for out, c in explore(lambda: flat(self.fn(*wrap_tree(self.args))),
                            self.assume, self.random, self.max_paths):
        res['paths'] += 1
        got = [v if isinstance(v, T.F) else T.lift(v) if isinstance(
            v, (T.B, bool, np.bool_)) else T.lift_const(float(v)) for v in out]
        if len(first) < 8:
          first.append((got, list(c.conds)))
        want = FC.flat_terms(self.oracle())
        if len(got) != len(want):
          res['obligations'] += 1
          res['candidates'].append(dict(
              kind='eager', case=cfg['case'], slot=slot, label=self.label,
              env=FC._generic_env(self.args), shape=[len(got), len(want)]))
          return
        for i, (g, w) in enumerate(zip(got, want)):
          def rec(env, i=i, w=w):
            return dict(kind='eager', case=cfg['case'], slot=slot, index=i,
                        label=self.label, want=FC._num(w, env),
                        env={k: float(v) for k, v in env.items()})
          SC.prove_equal(res, g, w, c.conds, rng, self.label, rec)
          if SC.too_many(res):
            return
    res['functions'] = sorted(set(res['functions']) | funcs)
    res['neqns'] = res.get('neqns', 0) + _state.neqns - n0
    if not self.random and not res['candidates']:
      FC._validate(res, self._real, self.args, first, None, max(self.tol, 5e-3),
                   self.label)

  def _real(self, *vals):
    return [np.asarray(v, np.float64) for v in flat(self.fn(*vals))]

  def replay(self, rec):
    import math
    from symx import fcheck as FC
    got = self._real(*FC.values_of(self.args, rec['env']))
    if 'index' not in rec:
      return len(got) != rec['shape'][1], dict(size=len(got),
                                               expected=rec['shape'][1])
    g, w = float(got[rec['index']]), rec['want']
    if math.isnan(w):
      return False, dict(reason='oracle value not finite', got=g)
    bad = not math.isfinite(g) or abs(g - w) > self.tol * max(1.0, abs(w))
    return bool(bad), dict(contract=self.label, index=rec['index'], got=g,
                           expected=w)

  def smoke(self):
    from symx import fcheck as FC
    self.fn(*FC.values_of(self.args, FC._generic_env(self.args)))


class Keys:
  """fn(*args): no two random draws of the whole run consume the same key."""

  def __init__(self, label, fn, args=(), least=1, max_paths=200):
    self.label, self.fn, self.args = label, fn, tuple(args)
    self.least, self.max_paths = least, max_paths

  def run(self, res, cfg, slot, rng):
    from symx import fcheck as FC
    from symx import statecheck as SC
    n0 = _state.neqns
    done = set()
    with watch() as funcs:
      for _, c in explore(lambda: self.fn(*wrap_tree(self.args)), (), True,
                          self.max_paths):
        res['paths'] += 1
        n = sum(u[0] not in ('split', 'fold') for us in c.draws.values()
                for u in us)
        if n < self.least:
          raise T.Unsupported('only %d random draws seen' % n)
        SC.check_draws(c, res, done, lambda kk: dict(
            kind='eager', case=cfg['case'], slot=slot, label=self.label,
            env=FC._generic_env(self.args), key=repr(kk)[:300]))
        if SC.too_many(res):
          return
    res['functions'] = sorted(set(res['functions']) | funcs)
    res['neqns'] = res.get('neqns', 0) + _state.neqns - n0

  def replay(self, rec):
    from symx import fcheck as FC
    from symx import statecheck as SC
    return SC.draws_twice(lambda: self.fn(*FC.values_of(self.args, rec['env'])))

  def smoke(self):
    from symx import fcheck as FC
    self.fn(*FC.values_of(self.args, FC._generic_env(self.args)))


class _Float:
  """Stands for the builtin inside repository modules: float(t) is t."""

  def __new__(cls, v=0.0):
    if isinstance(v, SymTracer):
      v._scalar()  # as float(): only size-1 arrays
      return v
    return float(v)


def _inject(glob, filename):
  """float() of a symbolic value keeps the value in the modules under test."""
  import ast
  glob['__symx__'] = True
  try:
    tree = ast.parse(open(filename).read())
  except (OSError, SyntaxError):
    return
  calls = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)}
  if all(id(n) in calls and isinstance(n.ctx, ast.Load)
         for n in ast.walk(tree)
         if isinstance(n, ast.Name) and n.id == 'float'):
    glob['float'] = _Float


@contextlib.contextmanager
def watch(root='/repo/'):
  """Names of the repository functions executed meanwhile."""
  import sys
  out = set()

  def prof(frame, event, arg):
    if event == 'call':
      co = frame.f_code
      if co.co_filename.startswith(root):
        if '__symx__' not in frame.f_globals:
          _inject(frame.f_globals, co.co_filename)
        out.add('%s:%s' % (co.co_filename[len(root):],
                           co.co_qualname.replace('<locals>.', '')))
  old = sys.getprofile()
  sys.setprofile(prof)
  try:
    yield out
  finally:
    sys.setprofile(old)
