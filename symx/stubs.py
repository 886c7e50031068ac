"""Uninterpreted energy model: arbitrary log-likelihood and gradient tables."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import core
from jax.interpreters import batching

from symx import explore as X
from symx import interp as I
from symx import terms as T

vmodel_p = core.Primitive('vmodel')
vmodel_p.multiple_results = True

_MODELS = {}


@vmodel_p.def_abstract_eval
def _abs(theta, x, *, mid, op):
  m = _MODELS[mid]
  ll = core.ShapedArray((x.shape[0],), np.float32)
  if op == 'forward':
    return [ll]
  return [ll, core.ShapedArray(x.shape, np.float32)]


def _batch(args, dims, *, mid, op):
  theta, x = args
  dt, dx = dims
  if dt is not batching.not_mapped:
    theta = jnp.moveaxis(theta, dt, 0).reshape(-1)[0:1].reshape(())
  if dx is batching.not_mapped:
    outs = vmodel_p.bind(theta, x, mid=mid, op=op)
    return outs, [batching.not_mapped] * len(outs)
  x = jnp.moveaxis(x, dx, 0)
  b, n = x.shape[0], x.shape[1]
  outs = vmodel_p.bind(theta, x.reshape((b * n,) + x.shape[2:]), mid=mid, op=op)
  return [o.reshape((b, n) + o.shape[1:]) for o in outs], [0] * len(outs)


batching.primitive_batchers[vmodel_p] = _batch


def _handler(eqn, ins, interp):
  theta, x = ins
  m = _MODELS[eqn.params['mid']]
  return m._eval(theta, x, eqn.params['op'])


I.HANDLERS['vmodel'] = _handler


class StubModel:
  """Arbitrary model over {0..C-1}^shape.

  forward -> table L[state]; gradient -> arbitrary table G[state][...].
  """

  def __init__(self, shape, num_categories, name='m', zero_ll=False,
               exact_lr=False):
    self.shape = tuple(shape)
    self.num_categories = num_categories
    self.name = name
    self.mid = len(_MODELS)
    _MODELS[self.mid] = self
    self.theta = T.var('theta')

  # ---- interface used by samplers
  def forward(self, params, x):
    return vmodel_p.bind(params['theta'], x, mid=self.mid, op='forward')[0]

  def get_value_and_grad(self, params, x):
    x = x.astype(jnp.float32)
    ll, g = vmodel_p.bind(params['theta'], x, mid=self.mid, op='vg')
    return ll, g

  def logratio_in_neighborhood(self, params, x):
    x = x.astype(jnp.float32)
    ll, g = vmodel_p.bind(params['theta'], x, mid=self.mid, op='lr')
    return ll, g, 1, None

  def get_init_samples(self, rng, n):
    raise NotImplementedError

  # ---- symbolic semantics
  def state_of(self, row):
    """row: array of one sample -> tuple of ints (or ('raw', ...))."""
    row = np.asarray(row, dtype=object) if I.is_obj(row) else np.asarray(row)
    def c(v):
      if isinstance(v, T.F):
        if not T.is_const(v):
          raise T.Unsupported('symbolic model input %r' % v)
        return v.coef
      if isinstance(v, (T.B,)):
        raise T.Unsupported('symbolic model input %r' % v)
      return T.Fraction(v.item() if hasattr(v, 'item') else v)
    if row.shape == self.shape:
      vals = [c(v) for v in row.reshape(-1)]
      if all(v.denominator == 1 and 0 <= v < self.num_categories for v in vals):
        return tuple(int(v) for v in vals)
      return ('raw',) + tuple(vals)
    if row.shape == self.shape + (self.num_categories,):
      r = row.reshape(-1, self.num_categories)
      out = []
      for i in range(r.shape[0]):
        vals = [c(v) for v in r[i]]
        if sorted(vals) != [0] * (self.num_categories - 1) + [1]:
          return ('rawoh',) + tuple(c(v) for v in row.reshape(-1))
        out.append(vals.index(1))
      return tuple(out)
    raise T.Unsupported('model input shape %r' % (row.shape,))

  def L(self, st):
    return T.var('L%s' % (st,))

  def W(self, st):
    return T.exp(self.L(st))

  def _eval(self, theta, x, op):
    th = I.scalar(theta)
    if th is not self.theta:
      raise AssertionError('model called with foreign parameters')
    n = x.shape[0]
    ll = I.obj((n,))
    X.ctx.events.append((op, n))
    for i in range(n):
      st = self.state_of(x[i])
      ll[i] = self.L(st)
    if op == 'forward':
      return [ll]
    g = I.obj(x.shape)
    for i in range(n):
      st = self.state_of(x[i])
      gi = I.obj(x.shape[1:])
      fl = gi.reshape(-1)
      for k in range(fl.shape[0]):
        fl[k] = T.var('G%s%s[%d]' % ('' if op == 'vg' else 'r', st, k))
      g[i] = fl.reshape(x.shape[1:])
    return [ll, g]

  def params_spec(self):
    return {'theta': jax.ShapeDtypeStruct((), np.float32)}

  def params_sym(self):
    a = I.obj(())
    a[()] = self.theta
    return {'theta': a}
