"""Shared run_config / replay for the sampler-kernel checks."""
import math

import numpy as np

from symx import kernels as K
from symx import reversible as R
from symx import statecheck as SC

ASSUMPTIONS = [
    'real arithmetic: float32 rounding is outside the claim; additive guards '
    'below 1e-15 are dropped and exp(c) with c < -1e5 is 0',
    'the target model is uninterpreted: every log-likelihood, gradient and '
    'log-ratio table entry is an independent symbolic real',
    'jax.random draws are ideal: independent uniforms/gumbels/categoricals per '
    'key (stub contract of jax.random); key splits give fresh keys',
    'bounds: batch, categories and shape as listed per configuration; one step '
    'from an arbitrary state (hence any history that reaches it)',
]


def cfg(name, C, shape, B=1, **opts):
  """Configuration record; keyword arguments with a leading _ are meta."""
  meta = {k[1:]: opts.pop(k) for k in list(opts) if k.startswith('_')}
  c = dict(name=name, C=C, shape=tuple(shape), B=B, opts=opts)
  c.update(meta)
  c['label'] = '%s C=%d shape=%s batch=%d %s%s' % (
      name, C, tuple(shape), B,
      ','.join('%s=%s' % kv for kv in sorted(opts.items())),
      ' starts=%d' % len(c['starts']) if c.get('starts') else '')
  if c.get('mask') is not None:
    c['label'] += ' mask=%s' % (np.asarray(c['mask']).tolist(),)
  return c


def corner_starts(C, D, n, seed=3):
  """A deterministic spread of start states for larger shapes."""
  import random
  r = random.Random(seed)
  base = tuple(r.randrange(C) for _ in range(D))
  out = [base]
  for i in (D - 1, 0, D // 2):
    y = list(base)
    y[i] = (y[i] + 1) % C
    out.append(tuple(y))
    if C > 2:
      y = list(base)
      y[i] = (y[i] + C - 1) % C
      out.append(tuple(y))
  y = list(base)
  y[0] = (y[0] + 1) % C
  y[D - 1] = (y[D - 1] + 1) % C
  out.append(tuple(y))
  seen = []
  for s in out:
    if s not in seen:
      seen.append(s)
  return [list(s) for s in seen[:n]]


def crash_record(c, e):
  return dict(kind='crash', name=c['name'], C=c['C'], shape=list(c['shape']),
              B=c.get('B', 1), opts=c.get('opts', {}), mask=c.get('mask'),
              error='%s: %s' % (type(e).__name__, str(e)[:300]))


def replay_crash(rec):
  import random
  r = random.Random(5)
  D = int(np.prod(rec['shape']))
  n = rec['C'] ** D
  if n > 5000:
    return False, dict(reason='too large')
  w = D if rec['C'] == 2 else D * rec['C']
  rec2 = dict(rec, L=[r.uniform(-1, 1) for _ in range(n)],
              G=[[r.uniform(-1, 1) for _ in range(w)] for _ in range(n)],
              Gr=[[r.uniform(-1, 1) for _ in range(w)] for _ in range(n)],
              state={})
  try:
    R.real_counts(rec2, [0] * (D * rec['B']), N=10, chunk=10)
  except Exception as e:  # pylint: disable=broad-except
    return True, dict(exception='%s: %s' % (type(e).__name__, str(e)[:300]))
  return False, dict(reason='the real step does not raise')


REPLAYS = dict(detailed_balance=R.replay_db, crash=replay_crash,
               conditional=R.replay_prob, invariance=R.replay_inv,
               marginal=R.replay_marginal, joint=R.replay_joint)

RUNS = dict(reversible=R.reversible, conditional=R.conditional,
            invariant=R.invariant, independent=R.independent)
REPLAYS.update(SC.REPLAYS)
RUNS.update(SC.RUNS)


def run_config(c, res):
  RUNS[c.get('run', 'reversible')](c, res)
  if c.get('validate'):
    R.validate(c, res)



def replay(rec):
  return REPLAYS[rec['kind']](rec)
