"""Symbolic random numbers: jax.random is patched with a traceable primitive."""
import contextlib
import numpy as np

import jax
import jax.numpy as jnp
from jax import core
from jax.interpreters import batching

ACTIVE = False
_orig = {}

vrand_p = core.Primitive('vrand')
vrand_p.multiple_results = False


@vrand_p.def_abstract_eval
def _abs(key, *args, op, nb, shape, dtype, static):
  kshape = key.shape[:nb]
  if op == 'split':
    return core.ShapedArray(kshape + shape + (2,), np.uint32)
  if op in ('fold_in', 'seed'):
    return core.ShapedArray((kshape if op == 'fold_in' else key.shape) + (2,),
                            np.uint32)
  return core.ShapedArray(kshape + shape, dtype)


def _batch(args, dims, *, op, nb, shape, dtype, static):
  size = next(a.shape[d] for a, d in zip(args, dims)
              if d is not batching.not_mapped)
  new = []
  for a, d in zip(args, dims):
    if d is batching.not_mapped:
      a = jnp.broadcast_to(a, (size,) + a.shape)
    else:
      a = jnp.moveaxis(a, d, 0)
    new.append(a)
  r = vrand_p.bind(*new, op=op, nb=nb + 1, shape=shape, dtype=dtype,
                   static=static)
  return r, 0


batching.primitive_batchers[vrand_p] = _batch


def _bind(op, key, args, shape, dtype, static=()):
  if not hasattr(key, 'shape'):
    key = jnp.asarray(key)
  return vrand_p.bind(key, *args, op=op, nb=0, shape=tuple(int(s) for s in shape),
                      dtype=np.dtype(dtype), static=static)


def _f(dtype):
  try:
    d = np.dtype(jax.dtypes.canonicalize_dtype(dtype))
  except TypeError:
    d = np.dtype('float32')
  return d


def _split(key, num=2):
  shape = (num,) if isinstance(num, (int, np.integer)) else tuple(num)
  return _bind('split', key, (), shape, np.uint32)


def _fold_in(key, data):
  return _bind('fold_in', key, (jnp.asarray(data),), (), np.uint32)


def _prngkey(seed, **kw):
  return vrand_p.bind(jnp.asarray(seed), op='seed', nb=0, shape=(),
                      dtype=np.dtype(np.uint32), static=())


def _uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
  shape = _shape(shape)
  u = _bind('uniform', key, (), shape, _f(dtype))
  if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) \
      and minval == 0 and maxval == 1:
    return u
  return u * (maxval - minval) + minval


def _shape(shape):
  if isinstance(shape, (int, np.integer)):
    return (int(shape),)
  return tuple(shape)


def _bernoulli(key, p=0.5, shape=None):
  p = jnp.asarray(p)
  if not jnp.issubdtype(p.dtype, jnp.floating):
    p = p.astype(jnp.float32)
  if shape is None:
    shape = p.shape
  return _bind('uniform', key, (), _shape(shape), np.float32) < p


def _categorical(key, logits, axis=-1, shape=None):
  logits = jnp.moveaxis(jnp.asarray(logits), axis, -1)
  bs = logits.shape[:-1]
  if shape is None:
    shape = bs
  shape = _shape(shape)
  lg = jnp.broadcast_to(logits, shape + logits.shape[-1:])
  return _bind('categorical', key, (lg,), shape, np.int32)


def _gumbel(key, shape=(), dtype=float):
  return _bind('gumbel', key, (), _shape(shape), _f(dtype))


def _randint(key, shape, minval, maxval, dtype=int):
  return _bind('randint', key, (jnp.asarray(minval), jnp.asarray(maxval)),
               _shape(shape), _f(dtype))


def _choice(key, a, shape=(), replace=True, p=None, axis=0):
  a = jnp.asarray(a)
  if a.ndim == 0:
    a = jnp.arange(int(a))
  n = a.shape[axis]
  shape = _shape(shape)
  args = () if p is None else (jnp.asarray(p),)
  idx = _bind('choice', key, args, shape, np.int32,
              (('n', int(n)), ('replace', bool(replace))))
  return jnp.take(a, idx, axis=axis)


def _permutation(key, x, axis=0, independent=False):
  x = jnp.asarray(x) if not isinstance(x, int) else jnp.arange(x)
  n = x.shape[axis]
  idx = _bind('choice', key, (), (n,), np.int32,
              (('n', int(n)), ('replace', False)))
  return jnp.take(x, idx, axis=axis)


def _generic(name):
  def fn(key, shape=(), dtype=float, *a, **k):
    return _bind('generic', key, (), _shape(shape), np.float32,
                 (('dist', name),))
  return fn


def _normal(key, shape=(), dtype=float):
  return _bind('generic', key, (), _shape(shape), np.float32,
               (('dist', 'normal'),))


_TABLE = dict(split=_split, fold_in=_fold_in, PRNGKey=_prngkey, key=_prngkey,
              uniform=_uniform,
              bernoulli=_bernoulli, categorical=_categorical, gumbel=_gumbel,
              randint=_randint, choice=_choice, permutation=_permutation,
              shuffle=_permutation,
              normal=_normal, exponential=_generic('exponential'),
              logistic=_generic('logistic'), laplace=_generic('laplace'))


def _wrap(name, new, old):
  def fn(*a, **k):
    if ACTIVE:
      return new(*a, **k)
    return old(*a, **k)
  fn.__name__ = name
  return fn


def install():
  if _orig:
    return
  for n, new in _TABLE.items():
    old = getattr(jax.random, n, None)
    if old is None:
      continue
    _orig[n] = old
    setattr(jax.random, n, _wrap(n, new, old))


@contextlib.contextmanager
def active():
  global ACTIVE
  old = ACTIVE
  ACTIVE = True
  try:
    yield
  finally:
    ACTIVE = old


class KeyPart:
  __slots__ = ('key', 'i')

  def __init__(self, key, i):
    self.key = key
    self.i = i

  def __repr__(self):
    return 'KP(%r,%d)' % (self.key, self.i)


_KID = {}


def kid(key):
  if key not in _KID:
    _KID[key] = len(_KID)
  return _KID[key]


def key_array(name):
  a = np.empty((2,), dtype=object)
  k = ('key', name)
  a[0] = KeyPart(k, 0)
  a[1] = KeyPart(k, 1)
  return a


install()
