"""Initial samples: valid, integer, independent, from the stated law."""
import itertools
import sys

import numpy as np

from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _label(out):
  for c in out:
    c['label'] = '%s %s' % (c['case'], c.get('args', ()))
  return out




class Shape:
  """Shape and dtype of the result for every key, by abstract evaluation."""

  def __init__(self, label, fn, args, shape):
    self.label, self.fn, self.args, self.shape = label, fn, tuple(args), tuple(shape)

  def _ok(self, s, d):
    return tuple(s) == self.shape and np.dtype(d).kind in 'iu'

  def run(self, res, cfg, slot, rng):
    tr = F.trace(self.fn, self.args, key=True)
    res['functions'] = sorted(set(res['functions']) | tr.funcs)
    a = tr.jaxpr.out_avals[0]
    res['obligations'] += 1
    if self._ok(a.shape, a.dtype):
      res['discharged'] += 1
    else:
      res['candidates'].append(dict(kind='shape', case=cfg['case'], slot=slot,
                                    label=self.label))

  def replay(self, rec):
    import jax
    v = np.asarray(self.fn(jax.random.PRNGKey(2), *F.values_of(
        self.args, F._generic_env(self.args))))
    return (not self._ok(v.shape, v.dtype)), dict(
        contract=self.label, shape=list(v.shape), dtype=str(v.dtype),
        expected_shape=list(self.shape))

  def smoke(self):
    import jax
    self.fn(jax.random.PRNGKey(2), *F.values_of(self.args,
                                                F._generic_env(self.args)))


def _uniform(label, make, args, n, shape, C):
  D = n * int(np.prod(shape))

  def fn(key, *a):
    return make(*a).get_init_samples(key, n)
  out = [Shape(label + ': shape and dtype', fn, args, (n,) + tuple(shape))]
  if C ** D <= 128:
    out.append(F.Law(label + ': uniform over the sample space', fn, args, F.ints,
                     lambda o: T.div(1, C ** D),
                     list(itertools.product(range(C), repeat=D))))
  return out


def exact(name, args, n):
  C = 2
  if name in ('bernoulli', 'ising'):
    shape = args[0]
    make = lambda: getattr(M, name)(*args)[0]
  elif name in ('categorical', 'potts', 'fhmm'):
    shape, C = args
    make = lambda: getattr(M, name)(*args)[0]
  elif name == 'image':
    shape = (args[0],)
    make = lambda: M.image(*args)[0]
  else:
    shape, C = (args[0],), args[2]
    make = lambda: M.rbm(*args)[0]
  return _uniform(name, make, (), n, shape, C)


def co(kind, nodes, C, n):
  make = lambda: M.co_model(kind, M.co_gen(kind, nodes, nodes, C), penalty=1.0,
                            tolerance=0.1)
  if kind != 'normcut':
    return _uniform(kind, make, (), n, (nodes,), 2)
  fn = lambda key: make().get_init_samples(key, n)
  out = [Shape(kind + ': shape and dtype', fn, (), (n, nodes))]
  space = [s for s in itertools.product(range(C), repeat=nodes)
           if len(set(s)) == C]

  def want(o):
    # every category once, the other nodes uniform, in uniform order
    r = T.const(1)
    for row in np.array(o).reshape(n, nodes):
      cnt = [int((row == c).sum()) for c in range(C)]
      import math
      k = nodes - C
      ways = math.factorial(k)
      for c in cnt:
        ways //= math.factorial(c - 1)
      perms = math.factorial(nodes)
      for c in cnt:
        perms //= math.factorial(c)
      r = T.mul(r, T.div(ways, C ** k * perms))
    return r
  if len(space) ** n <= 128:
    out.append(F.Law('normcut: every category is used, nodes exchangeable', fn,
                     (), F.ints, want,
                     [sum(t, ()) for t in itertools.product(space, repeat=n)]))
  return out


def _mean(shape, C):
  lo = T.Fraction(1, 20)
  if C == 2:
    return Sym('mu', shape, lo=lo, hi=1 - lo)
  return Sym('mu', tuple(shape) + (C,), lo=lo, hi=1 - lo)


def datamean(name, nv, C, n):
  """With a data mean, chains start from the product law it defines."""
  from discs.models import rbm
  from discs.models import resnet
  mu = _mean((nv,), C)

  def make(mu):
    if name == 'rbm':
      return rbm.build_model(M.cfg(num_visible=nv, num_hidden=1, shape=(nv,),
                                   num_categories=C, params=dict(data_mean=mu)))
    return resnet.build_model(M.cfg(num_categories=2, shape=(nv,), n_channels=4,
                                    image_shape=(1, nv, 1), data_mean=mu))
  fn = lambda key, mu: make(mu).get_init_samples(key, n)

  def want(o):
    t = T.const(1)
    for j, v in enumerate(o):
      i = j % nv
      if C == 2:
        m = mu.terms[i]
        t = T.mul(t, m if v else T.sub(1, m))
      else:
        t = T.mul(t, T.div(mu.terms[i, v], M.tsum(mu.terms[i])))
    return t
  return [Shape(name + ': shape and dtype', fn, (mu,), (n, nv)),
          F.Law(name + ': starts from the data mean', fn, (mu,), F.ints, want,
                list(itertools.product(range(C), repeat=n * nv)))]


def configs(tier):
  out = [dict(case='exact', args=a) for a in (
      ('bernoulli', ((2,),), 2), ('bernoulli', ((2, 2),), 1), ('bernoulli', ((3, 2),), 3),
      ('categorical', ((2,), 3), 1), ('categorical', ((1,), 4), 2), ('categorical', ((2, 2), 3), 3),
      ('ising', ((2, 2),), 1), ('ising', ((1, 2),), 2), ('ising', ((3, 2),), 3),
      ('potts', ((2, 2), 3), 1), ('potts', ((1, 2), 3), 2), ('potts', ((3, 2), 4), 3),
      ('fhmm', ((2, 2), 2), 1), ('fhmm', ((2, 1), 3), 2), ('fhmm', ((3, 2), 3), 3),
      ('rbm', (2, 1, 2), 2), ('rbm', (2, 1, 3), 1), ('rbm', (3, 1, 3), 3),
      ('image', (2,), 2))]
  out += [dict(case='co', args=a) for a in (
      ('maxcut', 3, 2, 2), ('mis', 3, 2, 2), ('maxclique', 3, 2, 2), ('mis', 2, 2, 3),
      ('normcut', 3, 2, 1), ('normcut', 3, 3, 1), ('normcut', 2, 2, 2), ('normcut', 4, 3, 1), ('normcut', 5, 3, 4))]
  out += [dict(case='datamean', args=a) for a in (
      ('rbm', 2, 2, 2), ('rbm', 2, 3, 1), ('rbm', 1, 3, 2), ('image', 2, 2, 2), ('image', 3, 2, 1))]
  if tier == 'thorough':
    out += [dict(case='co', args=a) for a in (('normcut', 4, 2, 1), ('normcut', 5, 2, 1))]
  return _label(out)


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
