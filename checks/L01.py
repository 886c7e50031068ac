"""Training updates: contrastive gradient, averaging over devices, EMA, rates."""
import sys
from fractions import Fraction

import numpy as np

from symx import explib as L
from symx import fcheck as F
from symx import learnlib as Q
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]


def _stub_adam(optax):
  """Decoupled weight decay and plain gradient in place of Adam's moments."""
  def adamw(lr, weight_decay=0.0, **kw):
    assert not kw
    return optax.chain(optax.add_decayed_weights(weight_decay),
                       optax.scale_by_learning_rate(lr))

  def adam(lr):
    return optax.scale_by_learning_rate(lr)
  return dict(adamw=adamw, adam=adam)


def update(kind, n, batch, devs, steps, opt, clip):
  """`steps` updates of the real trainer from an arbitrary state."""
  p = dict(a=Sym('a', (n,)), b=Sym('b', (n,)))
  e = dict(a=Sym('ea', (n,)), b=Sym('eb', (n,)))
  xp = Sym('xp', (steps, devs, batch, n), isint=True)
  xn = Sym('xn', (steps, devs, batch, n), isint=True)
  step = Sym('step', (), dtype=np.int32, lo=0, isint=True)
  hp = dict(lr=Sym('lr', (), pos=True), decay=Sym('decay', (), lo=0, hi=1),
            wd=Sym('wd', (), pos=True))

  def fn(p, e, xp, xn, step, hp):
    import jax
    import jax.numpy as jnp
    import optax
    from unittest import mock
    train = Q.load('train')
    cfg = Q.config(kind, optimizer=opt, grad_norm=clip, buffer_size=2)
    with L.settings(cfg.experiment, learning_rate=hp['lr'],
                    ema_decay=hp['decay'], weight_decay=hp['wd']), \
        mock.patch.multiple(optax, **_stub_adam(optax)), Q.devices(devs):
      t = Q.trainer(kind, cfg, n, np.zeros((2, n)))
      s = train.TrainState(step=step, params=p, ema_params=e,
                           opt_state=t.optimizer.init(p))
      s = jax.tree_util.tree_map(lambda v: jnp.stack([v] * devs), s)
      keys = jnp.zeros((devs, 2), jnp.uint32)
      up = jax.pmap(t.global_update_fn, axis_name='shard')
      out = []
      for k in range(steps):
        s, aux = up(s, keys, (xp[k], xn[k]))
        out.append(aux)
    return [[aux['loss'], aux['ll_pos'], aux['ll_neg']] for aux in out], \
        s.step, [s.params[k] for k in 'ab'], [s.ema_params[k] for k in 'ab']

  def oracle(out):
    h = {k: v.terms[()] for k, v in hp.items()}
    P = {k: list(p[k].terms) for k in 'ab'}
    E = {k: list(e[k].terms) for k in 'ab'}
    logs = []
    N = devs * batch
    for k in range(steps):
      def dot(v, x):
        return M.tsum([T.mul(a, b) for a, b in zip(v, x)])

      def rows(s):
        return [list(s.terms[k, d, i]) for d in range(devs) for i in range(batch)]
      ll = {}
      g = dict(a=[T.const(0)] * n, b=[T.const(0)] * n)
      for name, s, sign in (('pos', xp, -1), ('neg', xn, 1)):
        ll[name] = T.div(M.tsum([T.add(dot(P['a'], x), T.mul(
            dot(P['b'], x), dot(P['b'], x))) for x in rows(s)]), N)
        for x in rows(s):
          for i in range(n):
            g['a'][i] = T.add(g['a'][i], T.mul(sign, T.div(x[i], N)))
            g['b'][i] = T.add(g['b'][i], T.mul(
                sign * 2, T.div(T.mul(dot(P['b'], x), x[i]), N)))
      logs.append([T.sub(ll['neg'], ll['pos']), ll['pos'], ll['neg']])
      if clip:
        norm = T.powq(M.tsum([T.mul(v, v) for w in g.values() for v in w]),
                      Fraction(1, 2))
        small = T.lt(norm, T.lift_const(clip))
        g = {w: [T.ite(small, v, T.mul(T.div(v, norm), T.lift_const(clip)))
                 for v in g[w]] for w in g}
      for w in 'ab':
        for i in range(n):
          d = g[w][i]
          if opt == 'adamw':
            d = T.add(d, T.mul(h['wd'], P[w][i]))
          g[w][i] = T.sub(P[w][i], T.mul(h['lr'], d))
      P = g
      first = T.eq(T.add(step.terms[()], k), T.const(0))
      keep = T.ite(first, T.const(0), h['decay'])
      E = {w: [T.add(T.mul(keep, E[w][i]), T.mul(T.sub(1, keep), P[w][i]))
               for i in range(n)] for w in 'ab'}
    rep = lambda D: [[D[w]] * devs for w in 'ab']
    return ([[[v] * devs for v in r] for r in logs],
            [T.add(step.terms[()], steps)] * devs, rep(P), rep(E))
  return [F.Contract('parameters, averages and losses after the updates', fn,
                     (p, e, xp, xn, step, hp), oracle)]


def rates(name, total, frac):
  """Learning rate of every step."""
  lr = Sym('lr', (), pos=True)
  steps = list(range(total + 1))

  def fn(lr):
    import jax.numpy as jnp
    train = Q.load('train')
    cfg = Q.config('rbm', lr_schedule=name, total_train_steps=total,
                   warmup_frac=frac)
    with L.settings(cfg.experiment, learning_rate=lr):
      f = train.build_lr_schedule(cfg.experiment)
      return [f(jnp.asarray(s)) * 1.0 for s in steps]

  def oracle(out):
    warm = int(frac * total)
    r = []
    for s in steps:
      if name == 'constant':
        v = T.const(1)
      elif s < warm:
        v = T.div(s, warm)
      else:
        v = T.sub(1, T.mul(T.div(99, 100), T.div(s - warm, total - warm)))
      r.append(T.mul(v, lr.terms[()]))
    return M.vec(r)
  return [F.Contract('learning rate schedule', fn, (lr,), oracle)]


def configs(tier):
  # model, sites, batch, devices, updates, optimiser, clipping
  q = [('rbm', 2, 1, 1, 1, 'adam', 0.0), ('rbm', 1, 2, 2, 1, 'adamw', 0.0),
       ('ebm', 1, 2, 1, 1, 'adamw', 0.0), ('ebm', 2, 1, 2, 1, 'sgd', 0.0),
       ('rbm', 1, 1, 1, 2, 'adamw', 0.0), ('ebm', 1, 1, 2, 2, 'adam', 0.0),
       ('rbm', 1, 1, 1, 1, 'sgd', 5.0), ('ebm', 1, 1, 2, 1, 'adamw', 1.0)]
  out = [dict(case='update', args=a) for a in q]
  out += [dict(case='rates', args=a) for a in (
      ('constant', 4, .25), ('updown', 8, .25), ('updown', 6, .5))]
  if tier == 'thorough':
    out += [dict(case='update', args=a) for a in (
        ('rbm', 3, 2, 2, 1, 'adamw', 0.0), ('ebm', 2, 2, 2, 1, 'adam', 0.0),
        ('rbm', 2, 1, 1, 1, 'sgd', 2.0), ('rbm', 1, 2, 2, 2, 'adamw', 0.0))]
    out += [dict(case='rates', args=('updown', 24, .25))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
