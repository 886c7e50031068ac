"""Interpreter of jaxprs over arrays of symbolic terms."""
from fractions import Fraction
import itertools
import math

import types

import numpy as np
import jax
import jax.numpy as jnp
from jax import core

from symx import explore as X
from symx import rnd
from symx import terms as T
from symx.rnd import KeyPart

F = T.F
B = T.B


# ------------------------------------------------------------------ values
def is_obj(a):
  return isinstance(a, np.ndarray) and a.dtype == object


def _lift_el(v, isbool):
  if isinstance(v, (F, B, KeyPart)):
    return v
  if isbool:
    return bool(v)
  return T.lift(v)


def to_obj(a):
  """Any array -> object array of F / float special / bool / B."""
  if is_obj(a):
    return a
  a = np.asarray(a)
  out = np.empty(a.shape, dtype=object)
  isb = a.dtype == np.bool_
  fl = a.reshape(-1)
  o = out.reshape(-1)
  cache = {}
  for i, v in enumerate(fl.tolist()):
    r = cache.get(v)
    if r is None:
      r = bool(v) if isb else (
          T.lift_const(v) if isinstance(v, float) else T.lift(v))
      cache[v] = r
    o[i] = r
  return out


def obj(shape):
  return np.empty(shape, dtype=object)


def simp(a, dtype):
  """Object array -> native array when every element is concrete (exact)."""
  if not is_obj(a):
    return a
  dtype = np.dtype(dtype)
  vals = []
  for v in a.reshape(-1):
    if isinstance(v, F):
      if v.fac:
        return a
      c = v.coef
      if dtype.kind in 'iub':
        if c.denominator != 1:
          return a
        vals.append(int(c))
      else:
        x = float(c) if abs(c) < 10**38 else None
        if x is None or Fraction(float(np.asarray(x, dtype))) != c:
          return a
        vals.append(x)
    elif isinstance(v, (B, KeyPart)):
      return a
    elif isinstance(v, (bool, np.bool_)):
      vals.append(bool(v))
    elif isinstance(v, float):
      if dtype.kind in 'iub':
        return a
      vals.append(v)
    else:
      vals.append(v)
  try:
    return np.array(vals, dtype=dtype).reshape(a.shape)
  except OverflowError:
    return a


def map1(fn, a, dtype):
  a = to_obj(a)
  out = obj(a.shape)
  s, o = a.reshape(-1), out.reshape(-1)
  for i in range(s.shape[0]):
    o[i] = fn(s[i])
  return simp(out, dtype)


def map2(fn, a, b, dtype):
  a, b = to_obj(a), to_obj(b)
  if a.shape != b.shape:
    a, b = np.broadcast_arrays(a, b)
  out = obj(a.shape)
  s, t, o = a.reshape(-1), b.reshape(-1), out.reshape(-1)
  for i in range(s.shape[0]):
    o[i] = fn(s[i], t[i])
  return simp(out, dtype)


def num(v):
  return T.lift(v) if isinstance(v, (B, bool, np.bool_)) else v


# ------------------------------------------------------------------ helpers
_idx_cache = {}


def _structural(eqn, ins):
  """Runs a data-movement primitive on index arrays and permutes elements."""
  prim = eqn.primitive
  shapes = tuple(x.shape for x in ins)
  key = (prim.name, str(eqn.params), shapes)
  res = _idx_cache.get(key)
  if res is None:
    idxs = []
    off = 0
    for x in ins:
      n = int(np.prod(x.shape)) if x.shape else 1
      idxs.append(jnp.asarray(
          np.arange(off, off + n, dtype=np.int32).reshape(x.shape)))
      off += n
    params = dict(eqn.params)
    res = prim.bind(*idxs, **params)
    res = np.asarray(res[0] if prim.multiple_results else res)
    _idx_cache[key] = res
  if any(is_obj(x) for x in ins):
    flat = np.concatenate([to_obj(x).reshape(-1) for x in ins])
  else:
    flat = np.concatenate([np.asarray(x).reshape(-1) for x in ins])
  out = flat[res.reshape(-1)].reshape(res.shape)
  return out


def _dt(eqn, i=0):
  return eqn.outvars[i].aval.dtype


def _conc_ints(a):
  """Concretises a (possibly symbolic) integer array by forking."""
  if not is_obj(a):
    return np.asarray(a)
  out = np.empty(a.shape, dtype=np.int64)
  s, o = a.reshape(-1), out.reshape(-1)
  for i in range(s.shape[0]):
    o[i] = X.concretize(s[i])
  return out.astype(np.int32)


HANDLERS = {}


def handler(*names):
  def deco(fn):
    for n in names:
      HANDLERS[n] = fn
    return fn
  return deco


EXACT_MAX = 4096  # largest concrete array kept as exact terms
INEXACT = {'exp', 'log', 'log1p', 'expm1', 'sqrt', 'rsqrt', 'cbrt', 'logistic',
           'tanh', 'exp2', 'div'}


def _exactly(name, *arrs):
  """Concrete floats through an inexact operation are kept as exact terms."""
  return name in INEXACT and all(
      a.size <= EXACT_MAX and a.dtype.kind == 'f' and bool(np.all(np.isfinite(a)))
      for a in arrs)


def elementwise1(name, fn, npfn=None):
  def h(eqn, ins, interp):
    a = ins[0]
    if not is_obj(a) and npfn is not None and not _exactly(name, a):
      with np.errstate(all='ignore'):
        return [np.asarray(npfn(a)).astype(_dt(eqn))]
    return [map1(lambda v: fn(num(v)), a, _dt(eqn))]
  HANDLERS[name] = h


def _rounded(name, a, b, r):
  """Did a concrete float operation round?  Then it is kept exact instead."""
  if r.dtype.kind != 'f' or r.size > EXACT_MAX or not np.all(np.isfinite(r)):
    return False
  if _fractional(np.asarray(a), np.asarray(b)):
    return True
  with np.errstate(all='ignore'):
    x, y = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if name == 'mul':
      s = x * y
      err = 0.0
    elif name in ('add', 'add_any', 'sub'):
      y = -y if name == 'sub' else y
      s = x + y
      z = s - x
      err = (x - (s - z)) + (y - z)
    else:
      return False
    return bool(np.any(err != 0) or np.any(s != r.astype(np.float64)))


def _fractional(*arrs):
  """Finite concrete floats, some no short binary fraction.

  Such constants stand for the decimal or quotient they were rounded from, so
  arithmetic on them is done on the exact terms.
  """
  return (all(a.size <= EXACT_MAX and bool(np.all(np.isfinite(a))) for a in arrs)
          and any(a.dtype.kind == 'f' and bool(np.any(1024 * a != np.floor(1024 * a)))
                  for a in arrs))


def elementwise2(name, fn, npfn=None):
  def h(eqn, ins, interp):
    a, b = ins
    if not is_obj(a) and not is_obj(b) and npfn is not None:
      with np.errstate(all='ignore'):
        r = np.asarray(npfn(a, b)).astype(_dt(eqn))
      if not _rounded(name, a, b, r):
        return [r]
    return [map2(lambda u, v: fn(num(u), num(v)), a, b, _dt(eqn))]
  HANDLERS[name] = h


def _jeval(eqn, ins):
  r = eqn.primitive.bind(*[jnp.asarray(x) for x in ins], **eqn.params)
  if not eqn.primitive.multiple_results:
    r = [r]
  return [np.asarray(x) for x in r]


# Float constants computed concretely use float32 numpy; exactness matters only
# for values that are exactly representable (0/1 states, masks).
elementwise2('add', T.add, np.add)
elementwise2('add_any', T.add, np.add)
elementwise2('sub', T.sub, np.subtract)
elementwise2('mul', T.mul, np.multiply)
elementwise1('neg', T.neg, np.negative)
elementwise1('exp', T.exp, np.exp)
elementwise1('exp2', lambda v: T.exp(T.mul(v, T.log(T.const(2)))), np.exp2)


def _log_def(v):
  """log with its definedness obligation (argument > 0) recorded."""
  if isinstance(v, F) and not v.pos and not T.is_const(v) and not v.rand \
      and X.ctx is not None:
    X.ctx.defs.append((v, len(X.ctx.conds)))
  elif isinstance(v, F) and T.is_const(v) and v.coef < 0 and X.ctx is not None:
    X.ctx.defs.append((v, len(X.ctx.conds)))
  return T.log(v)


elementwise1('log', _log_def, np.log)
elementwise1('log1p', lambda v: _log_def(T.add(v, 1)), np.log1p)
elementwise1('expm1', lambda v: T.sub(T.exp(v), 1), np.expm1)
elementwise1('abs', T.absv, np.abs)
elementwise1('sqrt', lambda v: T.powq(v, Fraction(1, 2)), np.sqrt)
elementwise1('rsqrt', lambda v: T.powq(v, Fraction(-1, 2)),
             lambda a: 1 / np.sqrt(a))
elementwise1('cbrt', lambda v: T.powq(v, Fraction(1, 3)), np.cbrt)
elementwise1('square', lambda v: T.mul(v, v), np.square)
elementwise1('logistic',
             lambda v: T.div(T.exp(v), T.add(1, T.exp(v))),
             lambda a: 1 / (1 + np.exp(-a)))
elementwise1('tanh', lambda v: T.sub(1, T.div(2, T.add(1, T.exp(T.mul(v, 2))))),
             np.tanh)
elementwise1('floor', T.floor, np.floor)
elementwise1('ceil', T.ceil, np.ceil)
elementwise1('sign', T.sign, np.sign)
elementwise1('is_finite', lambda v: not T.sp(v), np.isfinite)
elementwise1('stop_gradient', lambda v: v, lambda a: a)
elementwise1('copy', lambda v: v, lambda a: a)
elementwise1('copy_p', lambda v: v, lambda a: a)
elementwise1('optimization_barrier', lambda v: v, lambda a: a)
elementwise1('real', lambda v: v, np.real)
elementwise2('max', T.fmax, np.maximum)
elementwise2('min', T.fmin, np.minimum)


@handler('reduce_precision')
def _h_rp(eqn, ins, interp):
  return [ins[0]]


@handler('div')
def _h_div(eqn, ins, interp):
  a, b = ins
  dt = np.dtype(_dt(eqn))
  if not is_obj(a) and not is_obj(b):
    if dt.kind in 'iu':
      q = np.trunc(np.asarray(a, dtype=np.float64) / np.asarray(b)).astype(dt)
      return [q]
    if not _exactly('div', a, b):
      with np.errstate(all='ignore'):
        return [np.asarray(np.divide(a, b)).astype(dt)]
  if dt.kind in 'iu':
    return [map2(lambda u, v: T.trunc(T.div(num(u), num(v))), a, b, dt)]
  return [map2(lambda u, v: T.div(num(u), num(v)), a, b, dt)]


@handler('rem')
def _h_rem(eqn, ins, interp):
  a, b = ins
  if not is_obj(a) and not is_obj(b):
    return [np.fmod(a, b).astype(_dt(eqn))]
  return [map2(lambda u, v: T.rem_trunc(num(u), num(v)), a, b, _dt(eqn))]


@handler('pow')
def _h_pow(eqn, ins, interp):
  a, b = ins
  if not is_obj(a) and not is_obj(b):
    with np.errstate(all='ignore'):
      return [np.power(a, b).astype(_dt(eqn))]
  def pw(u, v):
    u, v = num(u), num(v)
    if not T.sp(v) and T.is_const(v):
      return T.powq(u, v.coef)
    return T.exp(T.mul(v, T.log(u)))
  return [map2(pw, a, b, _dt(eqn))]


@handler('integer_pow')
def _h_ipow(eqn, ins, interp):
  y = eqn.params['y']
  a = ins[0]
  if not is_obj(a):
    with np.errstate(all='ignore'):
      r = np.power(a.astype(np.float64), y).astype(_dt(eqn))
    if not (_rounded('mul', a, a, r) if y == 2 else _fractional(a)):
      return [r]
  return [map1(lambda v: T.powq(num(v), y), a, _dt(eqn))]


@handler('round')
def _h_round(eqn, ins, interp):
  a = ins[0]
  rm = eqn.params['rounding_method']
  even = 'EVEN' in str(rm)
  if not is_obj(a):
    return _jeval(eqn, ins)
  if even:
    return [map1(lambda v: T.round_even(num(v)), a, _dt(eqn))]
  def away(v):
    v = num(v)
    return T.mul(T.sign(v), T.floor(T.add(T.absv(v), Fraction(1, 2))))
  return [map1(away, a, _dt(eqn))]


def _cmp(name, fn, npfn):
  def h(eqn, ins, interp):
    a, b = ins
    if not is_obj(a) and not is_obj(b):
      return [npfn(a, b)]
    def f(u, v):
      if isinstance(u, KeyPart) or isinstance(v, KeyPart):
        raise T.Unsupported('comparison of PRNG keys')
      r = fn(num(u), num(v))
      if isinstance(r, B) and r.rand:
        r = X.decide_bool(r)
      return r
    return [map2(f, a, b, np.bool_)]
  HANDLERS[name] = h


_cmp('lt', T.lt, np.less)
_cmp('le', T.le, np.less_equal)
_cmp('gt', lambda a, b: T.lt(b, a), np.greater)
_cmp('ge', lambda a, b: T.le(b, a), np.greater_equal)


def _eq(a, b):
  if (T.sp(a) and a != a) or (T.sp(b) and b != b):
    return False
  return T.eq(a, b)


def _ne(a, b):
  # x != x is False for every real (isnan test)
  if T.sp(a) and T.sp(b) and a != a:
    return True
  return T.bnot(_eq(a, b))


_cmp('eq', _eq, np.equal)
_cmp('ne', _ne, np.not_equal)
_cmp('eq_to', _eq, np.equal)
_cmp('le_to', T.le, np.less_equal)
_cmp('lt_to', T.lt, np.less)


def _bool2(name, fn, npfn):
  def h(eqn, ins, interp):
    a, b = ins
    if not is_obj(a) and not is_obj(b):
      return [npfn(a, b)]
    if np.dtype(_dt(eqn)) != np.bool_:
      raise T.Unsupported('bitwise %s on symbolic ints' % name)
    return [map2(fn, a, b, np.bool_)]
  HANDLERS[name] = h


_bool2('and', T.band, np.bitwise_and)
_bool2('or', T.bor, np.bitwise_or)
_bool2('xor', lambda a, b: T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b)),
       np.bitwise_xor)


@handler('not')
def _h_not(eqn, ins, interp):
  if not is_obj(ins[0]):
    return [np.bitwise_not(ins[0])]
  return [map1(T.bnot, ins[0], np.bool_)]


@handler('convert_element_type')
def _h_conv(eqn, ins, interp):
  a = ins[0]
  new = np.dtype(eqn.params['new_dtype'])
  src = np.dtype(eqn.invars[0].aval.dtype)
  if not is_obj(a):
    with np.errstate(all='ignore'):
      return [np.asarray(jnp.asarray(a).astype(new))] if (
          src.kind == 'f' and new.kind in 'iu') else [a.astype(new)]
  if a.size and isinstance(a.reshape(-1)[0], KeyPart):
    return [a]
  if new == np.bool_:
    if src == np.bool_:
      return [a]
    return [map1(lambda v: T.bnot(T.eq(num(v), 0)), a, new)]
  if new.kind in 'iu' and src.kind == 'f':
    def tr(v):
      v = num(v)
      if T.sp(v):
        raise T.Unsupported('non finite to int')
      return T.trunc(v)
    return [map1(tr, a, new)]
  return [map1(num, a, new)]


_WRAPS = {'convert_element_type', 'add', 'sub', 'mul', 'neg', 'integer_pow',
          'reduce_sum', 'dot_general', 'cumsum', 'scatter-add', 'add_any'}


def narrow(eqn, outs):
  """Results of 8 and 16 bit integer arithmetic wrap around."""
  if eqn.primitive.name not in _WRAPS:
    return outs
  outs = list(outs)
  for i, v in enumerate(eqn.outvars):
    dt = getattr(v.aval, 'dtype', None)
    if (eqn.primitive.name not in _WRAPS or not isinstance(dt, np.dtype)
        or dt.kind not in 'iu' or dt.itemsize > 2 or not is_obj(outs[i])):
      continue
    info = np.iinfo(dt)
    lo, n = int(info.min), int(info.max) - int(info.min) + 1

    def wrap(t, lo=lo, n=n):
      t = num(t)
      if T.sp(t):
        return t
      if T.is_const(t):
        return T.const((t.coef - lo) % n + lo)
      if t.rand or all(b is True or T.oracle is not None
                       and isinstance(b, T.B) and T.oracle.decide(b) is True
                       for b in (T.le(T.const(lo), t),
                                 T.le(t, T.const(lo + n - 1)))):
        return t
      return T.add(T.mod_floor(T.sub(t, T.const(lo)), T.const(n)), T.const(lo))
    outs[i] = map1(wrap, outs[i], dt)
  return outs


@handler('clamp')
def _h_clamp(eqn, ins, interp):
  lo, a, hi = ins
  if not any(is_obj(x) for x in ins):
    return [np.minimum(np.maximum(a, lo), hi).astype(_dt(eqn))]
  r = map2(T.fmax, a, np.broadcast_to(to_obj(lo), a.shape), _dt(eqn))
  return [map2(T.fmin, r, np.broadcast_to(to_obj(hi), a.shape), _dt(eqn))]


def select_el(p, cases):
  """p: bool/B/F int; cases list of elements."""
  if isinstance(p, B):
    f, t = cases
    if f is t:
      return f
    if isinstance(f, KeyPart) or isinstance(t, KeyPart):
      return t if X.decide_bool(p) else f
    if T.sp(f) or T.sp(t):
      if T.sp(f) and T.sp(t) and (f == t or (f != f and t != t)):
        return f
      return t if X.decide_bool(p) else f
    return T.ite(p, t, f)
  if isinstance(p, F) and not T.is_const(p):
    return cases[X.concretize(p)]
  if isinstance(p, F):
    p = int(p.coef)
  return cases[int(p)]


@handler('select_n')
def _h_select(eqn, ins, interp):
  p, cases = ins[0], ins[1:]
  if not is_obj(p) and not any(is_obj(c) for c in cases):
    return _np_select(p, cases)
  po = to_obj(p)
  co = [to_obj(c) for c in cases]
  shape = co[0].shape
  if po.shape != shape:
    po = np.broadcast_to(po, shape)
  out = obj(shape)
  o = out.reshape(-1)
  pf = po.reshape(-1)
  cf = [c.reshape(-1) for c in co]
  for i in range(o.shape[0]):
    o[i] = select_el(pf[i], [c[i] for c in cf])
  return [simp(out, _dt(eqn))]


def _np_select(p, cases):
  p = np.broadcast_to(np.asarray(p).astype(np.int64), np.shape(cases[0]))
  return [np.choose(p, [np.asarray(c) for c in cases]).astype(
      np.asarray(cases[0]).dtype)]


for _n in ('reshape', 'transpose', 'broadcast_in_dim', 'squeeze',
           'expand_dims', 'slice', 'rev', 'concatenate', 'broadcast'):
  HANDLERS[_n] = lambda eqn, ins, interp: [_structural(eqn, ins)]


@handler('split')
def _h_split(eqn, ins, interp):
  sizes = eqn.params['sizes']
  ax = eqn.params['axis']
  out = []
  o = 0
  for s in sizes:
    sl = [slice(None)] * ins[0].ndim
    sl[ax] = slice(o, o + s)
    out.append(ins[0][tuple(sl)])
    o += s
  return out


@handler('pad')
def _h_pad(eqn, ins, interp):
  if not any(is_obj(x) for x in ins):
    return _jeval(eqn, ins)
  return [_structural(eqn, ins)]


@handler('iota')
def _h_iota(eqn, ins, interp):
  return _jeval(eqn, ins)


@handler('dynamic_slice')
def _h_dslice(eqn, ins, interp):
  a = ins[0]
  idx = [_conc_ints(i) for i in ins[1:]]
  if not is_obj(a):
    return _jeval(eqn, [a] + idx)
  ss = eqn.params['slice_sizes']
  sl = []
  for d, i in enumerate(idx):
    i = int(i)
    i = max(0, min(i, a.shape[d] - ss[d]))
    sl.append(slice(i, i + ss[d]))
  return [a[tuple(sl)]]


@handler('dynamic_update_slice')
def _h_dus(eqn, ins, interp):
  a, u = ins[0], ins[1]
  idx = [_conc_ints(i) for i in ins[2:]]
  if not is_obj(a) and not is_obj(u):
    return _jeval(eqn, [a, u] + idx)
  a = to_obj(a).copy()
  sl = []
  for d, i in enumerate(idx):
    i = max(0, min(int(i), a.shape[d] - u.shape[d]))
    sl.append(slice(i, i + u.shape[d]))
  a[tuple(sl)] = to_obj(u)
  return [simp(a, _dt(eqn))]


@handler('gather')
def _h_gather(eqn, ins, interp):
  a, idx = ins
  if is_obj(idx):
    r = _sym_gather(eqn, a, idx)
    if r is not None:
      return [r]
    idx = _conc_ints(idx)
  if not is_obj(a):
    return _jeval(eqn, [a, idx])
  n = a.size
  ia = np.arange(n, dtype=np.int32).reshape(a.shape)
  params = dict(eqn.params)
  fv = params.get('fill_value')
  params['fill_value'] = -1
  key = ('gather', str(params), a.shape, idx.tobytes(), idx.shape)
  r = _idx_cache.get(key)
  if r is None:
    r = np.asarray(eqn.primitive.bind(jnp.asarray(ia), jnp.asarray(idx),
                                      **params))
    _idx_cache[key] = r
  out = obj(r.shape)
  af, rf, of = a.reshape(-1), r.reshape(-1), out.reshape(-1)
  dt = np.dtype(_dt(eqn))
  for i in range(rf.shape[0]):
    if rf[i] < 0:
      if dt.kind == 'f':
        of[i] = T.NAN if fv is None else T.lift(float(fv))
      elif dt == np.bool_:
        of[i] = True
      else:
        of[i] = T.const(np.iinfo(dt).min if dt.kind == 'i'
                        else np.iinfo(dt).max) if fv is None else T.const(fv)
    else:
      of[i] = af[rf[i]]
  return [simp(out, dt)]


def _sym_gather(eqn, a, idx):
  """Gather with a few bounded symbolic index variables -> nested ite."""
  return None


def _scatter_positions(eqn, a_shape, idx, u_shape):
  """For each update element: flat operand position or -1 when dropped."""
  key = ('scpos', str(eqn.params.get('dimension_numbers')),
         str(eqn.params.get('mode')), a_shape, idx.tobytes(), idx.shape,
         u_shape)
  r = _idx_cache.get(key)
  if r is not None:
    return r
  nu = int(np.prod(u_shape)) if u_shape else 1
  na = int(np.prod(a_shape)) if a_shape else 1
  dn = eqn.params['dimension_numbers']
  mode = eqn.params['mode']
  from jax import lax
  pos = np.full((nu,), -1, dtype=np.int64)
  # each update element in isolation: scatter-add one-hot updates onto zeros
  base = jnp.zeros(a_shape, jnp.float32)
  def one(j):
    u = jnp.zeros((nu,), jnp.float32).at[j].set(1.0).reshape(u_shape)
    return lax.scatter_add(base, jnp.asarray(idx), u, dn, mode=mode).reshape(-1)
  chunk = max(1, 4000000 // max(na, 1))
  for s in range(0, nu, chunk):
    m = np.asarray(jax.vmap(one)(jnp.arange(s, min(nu, s + chunk))))
    for k in range(m.shape[0]):
      nz = np.nonzero(m[k])[0]
      if nz.size:
        pos[s + k] = nz[0]
  _idx_cache[key] = pos
  return pos


@handler('scatter', 'scatter-add', 'scatter_add', 'scatter-mul', 'scatter_mul',
         'scatter-min', 'scatter-max', 'scatter_min', 'scatter_max')
def _h_scatter(eqn, ins, interp):
  a, idx, u = ins
  if is_obj(idx):
    idx = _conc_ints(idx)
  if not is_obj(a) and not is_obj(u):
    return _jeval(eqn, [a, idx, u])
  idx = np.asarray(idx)
  name = eqn.primitive.name.replace('_', '-')
  pos = _scatter_positions(eqn, a.shape, idx, u.shape)
  out = to_obj(a).copy()
  of = out.reshape(-1)
  uf = to_obj(u).reshape(-1)
  isb = np.dtype(_dt(eqn)) == np.bool_
  op = {'scatter': lambda x, y: y,
        'scatter-add': (lambda x, y: T.bor(x, y)) if isb else
                       (lambda x, y: T.add(num(x), num(y))),
        'scatter-mul': lambda x, y: T.mul(num(x), num(y)),
        'scatter-min': T.fmin, 'scatter-max': T.fmax}[name]
  for j in range(uf.shape[0]):
    if pos[j] >= 0:
      of[pos[j]] = op(of[pos[j]], uf[j])
  out = of.reshape(a.shape)
  return [simp(out, _dt(eqn))]


def _reduce(name, fn, npfn, init):
  def h(eqn, ins, interp):
    a = ins[0]
    axes = tuple(eqn.params['axes'])
    if not is_obj(a):
      if a.size == 0 or any(a.shape[x] == 0 for x in axes):
        return _jeval(eqn, ins)
      if name != 'reduce_sum' or not _fractional(a):
        return [np.asarray(npfn(a, axis=axes)).astype(_dt(eqn))]
    a = to_obj(a)
    keep = [i for i in range(a.ndim) if i not in axes]
    t = a.transpose(keep + list(axes)).reshape(
        tuple(a.shape[i] for i in keep) + (-1,))
    out = obj(t.shape[:-1])
    of = out.reshape(-1)
    tf = t.reshape((-1, t.shape[-1])) if t.ndim > 1 else t.reshape(1, -1)
    for i in range(of.shape[0]):
      of[i] = fn(list(tf[i]))
    return [simp(out, _dt(eqn))]
  HANDLERS[name] = h


def _rsum(xs):
  xs = [num(x) for x in xs]
  if any(T.sp(x) for x in xs):
    r = T.const(0)
    for x in xs:
      r = T.add(r, x)
    return r
  return T.sum_many(xs) if len(xs) > 1 else xs[0]


def _rfold(fn):
  def f(xs):
    r = num(xs[0])
    for x in xs[1:]:
      r = fn(r, num(x))
    return r
  return f


def _rmax(xs):
  xs = [num(x) for x in xs]
  if any(isinstance(x, F) and x.rand for x in xs):
    o = X.gumbel_order(xs, 1)
    if o is not None:
      return xs[o[0]]
  return _rfold(T.fmax)(xs)


_reduce('reduce_sum', _rsum, np.sum, 0)


def _psum(eqn, ins, interp):
  """Sum over the device axis of a vectorised pmap."""
  if eqn.params.get('axis_index_groups') is not None:
    raise T.Unsupported('psum over groups of devices')
  out = []
  for a, v in zip(ins, eqn.invars):
    e = types.SimpleNamespace(params=dict(axes=eqn.params['axes']), invars=[v],
                              outvars=[eqn.outvars[len(out)]],
                              primitive=eqn.primitive)
    if any(not isinstance(x, int) for x in eqn.params['axes']):
      raise T.Unsupported('psum over an unbound device axis')
    a = np.asarray(a)
    out += [np.asarray(a.sum(axis=tuple(eqn.params['axes'])))] if (
        not is_obj(a)) else HANDLERS['reduce_sum'](e, [a], interp)
  return out


HANDLERS['psum'] = _psum
_reduce('reduce_max', _rmax, np.max, None)
_reduce('reduce_min', _rfold(T.fmin), np.min, None)
_reduce('reduce_prod', _rfold(T.mul), np.prod, 1)
_reduce('reduce_and', lambda xs: T.band(*xs), np.all, True)
_reduce('reduce_or', lambda xs: T.bor(*xs), np.any, False)


def _argext(mx):
  def h(eqn, ins, interp):
    a = ins[0]
    ax, = eqn.params['axes']
    if not is_obj(a):
      return [(np.argmax if mx else np.argmin)(a, axis=ax).astype(_dt(eqn))]
    m = np.moveaxis(a, ax, -1)
    out = obj(m.shape[:-1])
    for ix in np.ndindex(*m.shape[:-1]):
      row = [num(v) for v in m[ix]]
      if not mx:
        row = [T.neg(v) for v in row]
      o = None
      if any(isinstance(v, F) and v.rand for v in row):
        o = X.gumbel_order(row, 1)
        if o is None:
          raise T.Unsupported('argmax over random values')
        out[ix] = T.const(o[0])
        continue
      best = row[0]
      bi = T.const(0)
      for k in range(1, len(row)):
        c = T.lt(best, row[k])
        bi = T.ite(c, T.const(k), bi) if isinstance(c, B) else (
            T.const(k) if c else bi)
        best = select_el(c, [best, row[k]]) if isinstance(c, B) else (
            row[k] if c else best)
      out[ix] = bi
    return [simp(out, _dt(eqn))]
  return h


HANDLERS['argmax'] = _argext(True)
HANDLERS['argmin'] = _argext(False)


def _cum(name, fn):
  def h(eqn, ins, interp):
    a = ins[0]
    if not is_obj(a):
      return _jeval(eqn, ins)
    ax = eqn.params['axis']
    rev = eqn.params['reverse']
    m = np.moveaxis(a, ax, 0)
    if rev:
      m = m[::-1]
    out = obj(m.shape)
    for ix in np.ndindex(*m.shape[1:]):
      acc = None
      for k in range(m.shape[0]):
        v = num(m[(k,) + ix])
        acc = v if acc is None else fn(acc, v)
        out[(k,) + ix] = acc
    if rev:
      out = out[::-1]
    return [simp(np.moveaxis(out, 0, ax), _dt(eqn))]
  HANDLERS[name] = h


_cum('cumsum', T.add)
_cum('cumprod', T.mul)
_cum('cummax', T.fmax)
_cum('cummin', T.fmin)
_cum('cumlogsumexp', lambda a, b: T.log(T.add(T.exp(a), T.exp(b))))


@handler('dot_general')
def _h_dot(eqn, ins, interp):
  a, b = ins
  if not is_obj(a) and not is_obj(b) and not _fractional(a, b):
    return _jeval(eqn, ins)
  (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
  a, b = to_obj(a), to_obj(b)
  lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
  rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
  A = a.transpose(list(lb) + lf + list(lc))
  Bm = b.transpose(list(rb) + rf + list(rc))
  bs = tuple(a.shape[i] for i in lb)
  ms = tuple(a.shape[i] for i in lf)
  ns = tuple(b.shape[i] for i in rf)
  K = int(np.prod([a.shape[i] for i in lc])) if lc else 1
  nb = int(np.prod(bs)) if bs else 1
  A = A.reshape(nb, int(np.prod(ms)) if ms else 1, K)
  Bm = Bm.reshape(nb, int(np.prod(ns)) if ns else 1, K)
  out = obj((nb, A.shape[1], Bm.shape[1]))
  for t in range(nb):
    for i in range(A.shape[1]):
      for j in range(Bm.shape[1]):
        out[t, i, j] = _rsum([T.mul(num(A[t, i, k]), num(Bm[t, j, k]))
                              for k in range(K)]) if K else T.const(0)
  return [simp(out.reshape(bs + ms + ns), _dt(eqn))]


@handler('sort')
def _h_sort(eqn, ins, interp):
  if not any(is_obj(x) for x in ins):
    return _jeval(eqn, ins)
  ax = eqn.params['dimension']
  nk = eqn.params['num_keys']
  ms = [np.moveaxis(to_obj(x), ax, -1) for x in ins]
  outs = [obj(m.shape) for m in ms]
  for ix in np.ndindex(*ms[0].shape[:-1]):
    rows = [list(m[ix]) for m in ms]
    n = len(rows[0])
    keyrow = [num(v) for v in rows[0]]
    if nk == 1 and any(isinstance(v, F) and v.rand for v in keyrow):
      o = X.gumbel_order(keyrow)
      if o is None:
        raise T.Unsupported('sort over random values')
      o = o[::-1]   # ascending
      for r, m in zip(rows, outs):
        m[ix] = np.array([None] * n, dtype=object) if n != 1 else [None]
        for k in range(n):
          m[ix + (k,)] = r[o[k]]
      continue
    if nk != 1:
      raise T.Unsupported('multi-key sort')
    rows = [[num(v) for v in r] for r in rows]
    # odd-even transposition network, stable
    for rd in range(n):
      for k in range(rd % 2, n - 1, 2):
        c = T.lt(rows[0][k + 1], rows[0][k])
        if not isinstance(c, B):
          if c:
            for r in rows:
              r[k], r[k + 1] = r[k + 1], r[k]
          continue
        for r in rows:
          x, y = r[k], r[k + 1]
          r[k] = select_el(c, [x, y])
          r[k + 1] = select_el(c, [y, x])
    for r, m in zip(rows, outs):
      for k in range(n):
        m[ix + (k,)] = r[k]
  return [simp(np.moveaxis(m, -1, ax), _dt(eqn, i))
          for i, m in enumerate(outs)]


@handler('top_k')
def _h_topk(eqn, ins, interp):
  a = ins[0]
  k = eqn.params['k']
  if not is_obj(a):
    return _jeval(eqn, ins)
  vals = obj(a.shape[:-1] + (k,))
  idxs = obj(a.shape[:-1] + (k,))
  for ix in np.ndindex(*a.shape[:-1]):
    row = [num(v) for v in a[ix]]
    if any(isinstance(v, F) and v.rand for v in row):
      o = X.gumbel_order(row, k)
      if o is None:
        raise T.Unsupported('top_k over random values')
      for j in range(k):
        vals[ix + (j,)] = row[o[j]]
        idxs[ix + (j,)] = T.const(o[j])
      continue
    ids = [T.const(i) for i in range(len(row))]
    n = len(row)
    for rd in range(n):
      for p in range(rd % 2, n - 1, 2):
        c = T.lt(row[p], row[p + 1])
        for r in (row, ids):
          x, y = r[p], r[p + 1]
          if isinstance(c, B):
            r[p], r[p + 1] = T.ite(c, y, x), T.ite(c, x, y)
          elif c:
            r[p], r[p + 1] = y, x
    for j in range(k):
      vals[ix + (j,)] = row[j]
      idxs[ix + (j,)] = ids[j]
  return [simp(vals, _dt(eqn)), simp(idxs, _dt(eqn, 1))]


def _uf1(name, npfn):
  T.UF_NUM[name] = lambda v: float(npfn(np.float64(v)))
  def h(eqn, ins, interp):
    if not is_obj(ins[0]):
      return _jeval(eqn, ins)
    return [map1(lambda v: T.uf(name, num(v)), ins[0], _dt(eqn))]
  HANDLERS[name] = h


_uf1('erf_inv', lambda v: float(jax.lax.erf_inv(jnp.float32(v))))
_uf1('erf', math.erf)
_uf1('lgamma', math.lgamma)
_lgamma_uf = HANDLERS['lgamma']


@handler('lgamma')
def _h_lgamma(eqn, ins, interp):
  def fact(v):
    v = num(v)
    if isinstance(v, F) and not T.is_const(v):
      return T.uf('lgamma', v)
    n = int(v.coef) if isinstance(v, F) else int(v)
    return T.log(T.const(math.factorial(n - 1)))
  def isint(v):
    if isinstance(v, F):
      return not T.is_const(v) or (v.coef.denominator == 1 and 1 <= v.coef <= 20)
    return float(v) == int(v) and 1 <= v <= 20
  a = to_obj(ins[0])
  if all(isint(v) for v in a.reshape(-1)):
    return [map1(fact, ins[0], _dt(eqn))]
  return _lgamma_uf(eqn, ins, interp)
_uf1('digamma', lambda v: float(jax.lax.digamma(jnp.float32(v))))
_uf1('sin', math.sin)
_uf1('cos', math.cos)


@handler('nextafter')
def _h_nextafter(eqn, ins, interp):
  if any(is_obj(x) for x in ins):
    raise T.Unsupported('nextafter')
  return _jeval(eqn, ins)


# ------------------------------------------------------------------ control
def _inline(key):
  def h(eqn, ins, interp):
    cj = eqn.params[key]
    if isinstance(cj, core.ClosedJaxpr):
      return interp.eval_jaxpr(cj.jaxpr, cj.consts, ins)
    return interp.eval_jaxpr(cj, (), ins)
  return h


_pjit_inline = _inline('jaxpr')


@handler('pjit')
def _h_pjit(eqn, ins, interp):
  if eqn.params.get('name') in ('logaddexp', '_logaddexp') and len(ins) == 2 \
      and any(is_obj(x) for x in ins):
    # jax.numpy.logaddexp: log(exp a + exp b)
    def lae(a, b):
      a, b = num(a), num(b)
      return T.log(T.add(T.exp(a), T.exp(b)))
    return [map2(lae, ins[0], ins[1], _dt(eqn))]
  return _pjit_inline(eqn, ins, interp)


HANDLERS['closed_call'] = _inline('call_jaxpr')
HANDLERS['core_call'] = _inline('call_jaxpr')
HANDLERS['remat'] = _inline('jaxpr')
HANDLERS['checkpoint'] = _inline('jaxpr')
HANDLERS['remat2'] = _inline('jaxpr')
HANDLERS['custom_jvp_call'] = _inline('call_jaxpr')
HANDLERS['custom_vjp_call_jaxpr'] = _inline('fun_jaxpr')
HANDLERS['custom_vjp_call'] = _inline('call_jaxpr')


@handler('xla_pmap')
def _h_pmap(eqn, ins, interp):
  p = eqn.params
  jaxpr = p['call_jaxpr']
  n = p['axis_size']
  mapped = p['in_axes']
  outs = []
  for i in range(n):
    args = [x if m is None else np.take(x, i, axis=m)
            for x, m in zip(ins, mapped)]
    outs.append(interp.eval_jaxpr(jaxpr, (), args))
  res = []
  for k, oa in enumerate(p['out_axes']):
    col = [o[k] for o in outs]
    if oa is None:
      res.append(col[0])
      continue
    if any(is_obj(c) for c in col):
      col = [to_obj(c) for c in col]
    res.append(np.stack(col, axis=oa))
  return res


MAX_LOOP = 400


@handler('scan')
def _h_scan(eqn, ins, interp):
  p = eqn.params
  nc, nk = p['num_consts'], p['num_carry']
  consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
  L = p['length']
  if L > MAX_LOOP:
    raise T.Unsupported('scan of length %d' % L)
  cj = p['jaxpr']
  ny = len(eqn.outvars) - nk
  ys = [[None] * L for _ in range(ny)]
  rng = range(L - 1, -1, -1) if p['reverse'] else range(L)
  for i in rng:
    args = list(consts) + carry + [x[i] if not is_obj(x) else _at(x, i)
                                   for x in xs]
    out = interp.eval_jaxpr(cj.jaxpr, cj.consts, args)
    carry = out[:nk]
    for k in range(ny):
      ys[k][i] = out[nk + k]
  res = list(carry)
  for k in range(ny):
    av = eqn.outvars[nk + k].aval
    res.append(_stack(ys[k], av))
  return res


def _at(x, i):
  r = x[i]
  if not isinstance(r, np.ndarray):
    o = obj(())
    o[()] = r
    return o
  return r


def _stack(cols, av):
  if not cols:
    return np.zeros(av.shape, av.dtype)
  if any(is_obj(c) for c in cols):
    cols = [to_obj(c) for c in cols]
  out = np.empty((len(cols),) + np.shape(cols[0]),
                 dtype=object if is_obj(cols[0]) else np.asarray(cols[0]).dtype)
  for i, c in enumerate(cols):
    out[i] = c if np.shape(c) else (c[()] if isinstance(c, np.ndarray) else c)
  return out


def scalar(a):
  a = a if isinstance(a, np.ndarray) else np.asarray(a)
  return a[()] if a.ndim == 0 else a.reshape(-1)[0]


@handler('while')
def _h_while(eqn, ins, interp):
  p = eqn.params
  cn, bn = p['cond_nconsts'], p['body_nconsts']
  cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
  n = 0
  while True:
    r = interp.eval_jaxpr(p['cond_jaxpr'].jaxpr, p['cond_jaxpr'].consts,
                          list(cc) + carry)[0]
    if not X.decide_bool(scalar(r)):
      return carry
    carry = interp.eval_jaxpr(p['body_jaxpr'].jaxpr, p['body_jaxpr'].consts,
                              list(bc) + carry)
    n += 1
    if n > MAX_LOOP:
      raise T.Unsupported('while loop bound')


@handler('cond')
def _h_cond(eqn, ins, interp):
  br = eqn.params['branches']
  v = scalar(ins[0])
  if isinstance(v, B):
    v = int(X.decide_bool(v))
  elif isinstance(v, F):
    v = X.concretize(v)
  v = max(0, min(int(v), len(br) - 1))
  return interp.eval_jaxpr(br[v].jaxpr, br[v].consts, ins[1:])


# ------------------------------------------------------------------ random
def _key_of(a):
  if not is_obj(a):
    return ('lit',) + tuple(int(x) for x in np.asarray(a).reshape(-1))
  p0, p1 = a.reshape(-1)
  if isinstance(p0, KeyPart) and isinstance(p1, KeyPart) and p0.key == p1.key \
      and (p0.i, p1.i) == (0, 1):
    return p0.key
  raise T.Unsupported('malformed PRNG key %r' % (a,))


def _keyarr(k):
  a = obj((2,))
  a[0], a[1] = KeyPart(k, 0), KeyPart(k, 1)
  return a


@handler('vrand')
def _h_vrand(eqn, ins, interp):
  p = eqn.params
  op, nb, shape = p['op'], p['nb'], p['shape']
  st = dict(p['static'])
  key = ins[0]
  oshape = eqn.outvars[0].aval.shape
  if op == 'seed':
    out = obj(oshape)
    for ix in np.ndindex(*key.shape):
      v = key[ix]
      v = v if isinstance(v, F) else int(v)
      kk = ('seed', v.uid if isinstance(v, F) else v)
      out[ix] = _keyarr(kk)
    if not key.shape:
      return [_keyarr(('seed', int(scalar(key)) if not isinstance(
          scalar(key), F) else scalar(key).uid))]
    return [out]
  kshape = key.shape[:nb]
  out = obj(oshape)
  seen = {}
  for ix in np.ndindex(*kshape):
    k = _key_of(key[ix] if nb else key)
    args = [x[ix] if nb else x for x in ins[1:]]
    args = [x if isinstance(x, np.ndarray) else np.asarray(x) for x in args]
    if op == 'split':
      X.ctx.draws.setdefault(k, []).append(('split', shape))
      r = obj(shape + (2,))
      for jx in np.ndindex(*shape):
        r[jx] = _keyarr(('split', k, shape, jx))
    elif op == 'fold_in':
      d = scalar(args[0])
      d = d.uid if isinstance(d, F) and not T.is_const(d) else (
          int(d.coef) if isinstance(d, F) else int(d))
      r = _keyarr(('fold', k, d))
      X.ctx.draws.setdefault(k, []).append(('fold', d))
    else:
      X.ctx.draws.setdefault(k, []).append((op, shape))
      if k in seen and op not in ('uniform', 'gumbel', 'generic'):
        raise T.Unsupported('one key drawn for several batch entries')
      r = _draw(op, k, shape, args, st, len(X.ctx.draws[k]))
      seen[k] = True
    if r.ndim == 0:
      out[ix] = r[()]
    else:
      out[ix] = r
  return [simp(out, eqn.outvars[0].aval.dtype) if op not in ('split', 'fold_in')
          else out]


def _draw(op, k, shape, args, st, nth):
  r = obj(shape)
  kid = rnd.kid(k)
  ixs = list(np.ndindex(*shape))
  if op in ('uniform', 'gumbel', 'generic'):
    for j, ix in enumerate(ixs):
      nm = 'k%d/%s' % (kid, 'x'.join(map(str, shape)))
      if op == 'generic':
        r[ix] = T.var('%s[%s][%d]' % (st['dist'], nm, j), rand=True)
      else:
        u = T.var('U[%s][%d]' % (nm, j), pos=True, rand=True,
                  val=T._rng.uniform(0.05, 0.95))
        r[ix] = u if op == 'uniform' else T.base_F(
            T.gum_atom(T.BASES[u.fac[0][0]]))
    return r
  if op == 'categorical':
    lg = to_obj(args[0])
    for ix in ixs:
      row = [num(v) for v in lg[ix]]
      w = [T.exp(v) for v in row]
      if any(T.sp(x) for x in w):
        raise T.Unsupported('categorical with non finite logits')
      live = [i for i in range(len(w)) if not (T.is_const(w[i])
                                               and w[i].coef == 0)]
      if not live:
        raise T.Unsupported('categorical with all logits -inf')
      if len(live) == 1:
        r[ix] = T.const(live[0])
        continue
      tot = T.sum_many([w[i] for i in live])
      r[ix] = T.const(X.fork([(i, T.div(w[i], tot), None) for i in live]))
    return r
  if op == 'randint':
    lo = to_obj(args[0])
    hi = to_obj(args[1])
    lo = np.broadcast_to(lo, shape)
    hi = np.broadcast_to(hi, shape)
    for ix in ixs:
      a, b = X.concretize(lo[ix]), X.concretize(hi[ix])
      if b <= a:
        r[ix] = T.const(a)     # jax.random.randint semantics for empty ranges
        continue
      n = b - a
      r[ix] = T.const(X.fork([(a + i, T.const(Fraction(1, n)), None)
                              for i in range(n)]))
    return r
  if op == 'choice':
    n = st['n']
    if args:
      ws = [num(v) for v in to_obj(args[0]).reshape(-1)]
    else:
      ws = [T.const(1)] * n
    left = list(range(n))
    for ix in ixs:
      live = [i for i in left if not (T.is_const(ws[i]) and ws[i].coef == 0)]
      tot = T.sum_many([ws[i] for i in live])
      i = X.fork([(i, T.div(ws[i], tot), None) for i in live])
      r[ix] = T.const(i)
      if not st['replace']:
        left.remove(i)
    return r
  raise T.Unsupported('random op %s' % op)


# ------------------------------------------------------------------ interp
class Interp:

  def __init__(self):
    self.prims = {}

  def eval_jaxpr(self, jaxpr, consts, args):
    env = {}

    def read(v):
      if isinstance(v, core.Literal):
        return np.asarray(v.val, dtype=v.aval.dtype)
      return env[v]

    for v, c in zip(jaxpr.constvars, consts):
      env[v] = c if is_obj(c) else np.asarray(c)
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
      env[v] = a if isinstance(a, np.ndarray) else np.asarray(a)
    for eqn in jaxpr.eqns:
      ins = [read(v) for v in eqn.invars]
      name = eqn.primitive.name
      h = HANDLERS.get(name)
      if h is None:
        if not any(is_obj(x) for x in ins) and not any(
            k in eqn.params for k in ('jaxpr', 'call_jaxpr')):
          outs = _jeval(eqn, ins)
        else:
          raise T.Unsupported('primitive %s' % name)
      else:
        self.prims[name] = self.prims.get(name, 0) + 1
        outs = narrow(eqn, h(eqn, ins, self))
      for v, o in zip(eqn.outvars, outs):
        if not isinstance(o, np.ndarray):
          if isinstance(o, (F, B, KeyPart)):
            oo = obj(())
            oo[()] = o
            o = oo
          else:
            o = np.asarray(o)
        env[v] = o
    return [read(v) for v in jaxpr.outvars]


def source_functions(jaxpr, out=None, root='/repo/'):
  """Names of the repository functions whose operations appear in a jaxpr."""
  from jax._src import source_info_util
  if out is None:
    out = set()
  for e in jaxpr.eqns:
    try:
      for f in source_info_util.user_frames(e.source_info):
        if f.file_name.startswith(root):
          out.add('%s:%s' % (f.file_name[len(root):],
                             f.function_name.replace('<locals>.', '')))
    except Exception:  # source info is best effort
      pass
    for v in e.params.values():
      for w in (v if isinstance(v, (tuple, list)) else (v,)):
        if isinstance(w, core.ClosedJaxpr):
          source_functions(w.jaxpr, out, root)
        elif isinstance(w, core.Jaxpr):
          source_functions(w, out, root)
  return out


class Traced:
  """A function traced once with jax.make_jaxpr, callable on symbolic pytrees."""

  def __init__(self, fn, *args, keep=None):
    """args: example pytrees with array / ShapeDtypeStruct leaves.

    keep: None, or a predicate-free tuple of output positions (of the flattened
    output) that are needed; the rest is removed by dead code elimination.
    """
    flat, self.tree = jax.tree_util.tree_flatten(args)
    def flat_fn(*leaves):
      a = jax.tree_util.tree_unflatten(self.tree, leaves)
      out = fn(*a)
      fl, self.out_tree = jax.tree_util.tree_flatten(out)
      return fl
    specs = [jax.ShapeDtypeStruct(x.shape, x.dtype) for x in flat]
    with rnd.active():
      self.jaxpr = jax.make_jaxpr(flat_fn)(*specs)
    self.interp = Interp()
    self.funcs = source_functions(self.jaxpr.jaxpr)
    if keep is not None:
      from jax.interpreters import partial_eval as pe
      used = [i in keep for i in range(len(self.jaxpr.jaxpr.outvars))]
      j, used_in = pe.dce_jaxpr(self.jaxpr.jaxpr, used, instantiate=True)
      self.jaxpr = core.ClosedJaxpr(j, self.jaxpr.consts)
      self.out_tree = jax.tree_util.tree_structure(
          tuple(range(len(j.outvars))))

  def __call__(self, *args):
    flat, tree = jax.tree_util.tree_flatten(
        args, is_leaf=lambda x: isinstance(x, np.ndarray))
    out = self.interp.eval_jaxpr(self.jaxpr.jaxpr, self.jaxpr.consts, flat)
    return jax.tree_util.tree_unflatten(self.out_tree, out)

  def neqns(self):
    def cnt(j):
      n = 0
      for e in j.eqns:
        n += 1
        for v in e.params.values():
          for w in (v if isinstance(v, (tuple, list)) else (v,)):
            if isinstance(w, core.ClosedJaxpr):
              n += cnt(w.jaxpr)
            elif isinstance(w, core.Jaxpr):
              n += cnt(w)
      return n
    return cnt(self.jaxpr.jaxpr)
