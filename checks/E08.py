"""What a run writes to disk is what it computed and how it was configured."""
import csv
import os
import pickle
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]
BAL = ['SQRT', 'RATIO', 'MAX', 'MIN']
SUFFIX = dict(SQRT='(sqrt)', RATIO='(ratio)', MAX='(max)', MIN='(min)')


def _int(name, n, lo, hi):
  return Sym(name, (n,), dtype=np.int32, lo=lo, hi=hi, isint=True)


def _saver(cfg, root):
  from discs.common import experiment_saver
  cfg.experiment.save_root = os.path.join(root, 'a', 'b')
  return experiment_saver.build_saver(cfg)


def table(name):
  """One row: sampler with its options, model, run and its four measures."""
  o, q = _int('o', 2, -1, 1), _int('q', 1, -1, 3)
  v = Sym('v', (5,))

  def fn(o, q, v):
    cfg = L.config((3, 2), evaluator='ess_eval', batch_size=7, chain_length=11,
                   ess_ratio=.25, get_additional_metrics=False,
                   model=dict(name='potts', num_categories=5))
    cfg.sampler.name = name
    label = name
    ad = int(o[0])
    if ad >= 0:
      cfg.sampler.adaptive = ad % 2 == 1
      if ad % 2 == 1:
        label = 'a_' + label
    sol = int(o[1])
    if sol >= 0:
      cfg.sampler.solver = ('euler_forward', 'interpolate')[sol % 2]
      if sol % 2 == 0:
        label += 'f'
    bal = int(q[0])
    if bal >= 0:
      cfg.sampler.balancing_fn_type = BAL[bal]
      label += SUFFIX[BAL[bal]]
    with L.scratch() as root, L.quiet():
      sv = _saver(cfg, root)
      for k in range(2):       # a second table replaces the first
        sv.save_results(None, None, [v[i] + k for i in range(4)], v[4])
      with open(os.path.join(cfg.experiment.save_root, 'results.csv')) as f:
        rows = list(csv.DictReader(f))
      r = rows[0]
      num = {k: eager.parse(r[k]) for k in (
          'ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE', 'Time')}
    return [len(rows), int(r['sampler'] == label),
            int((r['model'], r['num_categories'], r['shape'], r['batch_size'],
                 r['chain_length'], r['ess_ratio']) ==
                ('potts', '5', '(3, 2)', '7', '11', '0.25')),
            num['ESS'] - v[0], num['ESS_M-H'] - v[1], num['ESS_T'] - v[2],
            num['ESS_EE'] - v[3], num['Time'] - v[4]]

  def oracle():
    return M.vec([T.const(c) for c in (1, 1, 1, 1, 1, 1, 1, 0)])
  return [eager.Contract('row of the results table', fn, (o, q, v), oracle)]


def files(steps, insts, n):
  t, b = Sym('t', (steps, insts)), Sym('b', (insts,))
  s, z = Sym('s', (insts, n), isint=True), Sym('z', (steps,))
  h = _int('h', 2, 0, 1)

  def fn(t, b, s, z, h):
    import jax.numpy as jnp
    cfg = L.config((n,), model=dict(name='mis'))
    with L.scratch() as root, L.quiet():
      sv = _saver(cfg, root)
      load = lambda k: pickle.load(open(os.path.join(
          cfg.experiment.save_root, k + '.pkl'), 'rb'))
      keep = bool(h[0] == 1)
      sv.save_co_resuts([t[i] for i in range(steps)], b, z[0],
                        s if keep else [])
      co = load('results')
      sv.save_logz([z[i] for i in range(steps)])
      lz = load('logz')
      sv.dump_samples([s * (k + 1) for k in range(steps)])
      sm = load('samples')
      par = dict(w=b, u=dict(q=s)) if keep else b
      sv.dump_params(par)
      pa = load('params')
      top = bool(h[1] == 1)
      sv.save_lm_results(dict(x=z[0]), dict(y=z[1]) if top else [])
      lm = load('results')
      tp = os.path.exists(os.path.join(cfg.experiment.save_root,
                                       'results_topk.pkl'))
      ty = load('results_topk')['y'] if tp else z[1]
    A = lambda q: eager.terms_of(q)
    fl = lambda q: list(np.asarray(A(q)).reshape(-1))
    out = [fl(co['trajectory']), fl(co['best_ratio']),
           fl(co['running_time']), fl(co['best_ratio_mean']),
           fl(co['best_samples'] if 'best_samples' in co else s),
           int(('best_samples' in co) == keep), fl(lz['logz']),
           fl(sm['trajectory']),
           fl(pa['w'] if keep else pa['params']),
           fl(pa['u']['q'] if keep else s), int(tp == top), fl(lm['x']), fl(ty)]
    return [x for q in out for x in (q if isinstance(q, list) else [q])]

  def oracle():
    S, B, Z = list(s.terms.reshape(-1)), list(b.terms), list(z.terms)
    return M.vec(list(t.terms.reshape(-1)) + B + [Z[0]] +
                 [T.div(M.tsum(B), insts)] + S + [T.const(1)] + Z +
                 [T.mul(k + 1, x) for k in range(steps) for x in S] + B + S +
                 [T.const(1), Z[0], Z[1]])
  return [eager.Contract('files of the run', fn, (t, b, s, z, h), oracle)]


def configs(tier):
  out = [dict(case='table', args=(k,)) for k in ('dlmc', 'gwg')]
  out += [dict(case='files', args=a) for a in ((2, 1, 2), (3, 2, 2))]
  if tier == 'thorough':
    out += [dict(case='files', args=a) for a in ((6, 4, 3), (2, 8, 5))]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
