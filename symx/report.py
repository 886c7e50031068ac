"""Check driver: worker pool, replay, evidence, exit codes."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = '/verif'


def new_result(cfg):
  return dict(config=cfg, paths=0, obligations=0, discharged=0, unknown=0,
              samples=[], candidates=[], errors=[], functions=[],
              violations=[], unsupported=None, notes=[], validated=0)


def _stats():
  from symx import smt
  s = smt.stats
  return dict(queries=s.queries, sat=s.sat, unsat=s.unsat, unknown=s.unknown,
              solver_s=s.solver_s, normalised=s.normalised)


def worker(modname, cfg):
  t0 = time.time()
  mod = importlib.import_module(modname)
  from symx import terms as T
  from symx import explore as X
  res = new_result(cfg)
  s0 = _stats()
  try:
    mod.run_config(cfg, res)
  except (T.Unsupported, X.Budget) as e:
    res['unsupported'] = '%s: %s' % (type(e).__name__, str(e)[:300])
    res['trace'] = traceback.format_exc()[-1500:]
  except Exception as e:  # pylint: disable=broad-except
    res['crash'] = '%s: %s' % (type(e).__name__, str(e)[:500])
    res['trace'] = traceback.format_exc()[-3000:]
    # the code under test raising on an input the property covers is itself
    # a candidate violation when the module knows how to replay it
    rec = getattr(mod, 'crash_record', lambda c, e: None)(cfg, e)
    if rec is not None:
      res['candidates'].append(rec)
  for rec in res['candidates'][:4]:
    try:
      ok, obs = mod.replay(rec)
    except Exception as e:  # pylint: disable=broad-except
      ok, obs = False, {'replay_error': '%s: %s' % (type(e).__name__, e),
                        'trace': traceback.format_exc()[-1500:]}
    if ok:
      rec['observed'] = obs
      res['violations'].append(rec)
      break
    res['errors'].append('counterexample did not reproduce: %s %s' % (
        json.dumps({k: v for k, v in rec.items() if k not in ('L', 'G', 'Gr')},
                   default=str)[:600], json.dumps(obs, default=str)[:600]))
  s1 = _stats()
  res['stats'] = {k: s1[k] - s0[k] for k in s1}
  res['wall_s'] = time.time() - t0
  res['candidates'] = len(res['candidates'])
  return res


def _init_worker():
  import signal
  signal.signal(signal.SIGINT, signal.SIG_IGN)
  devnull = os.open(os.devnull, os.O_WRONLY)
  if not os.environ.get('SYMX_DEBUG'):
    os.dup2(devnull, 2)


def main(pid, tier):
  t0 = time.time()
  modname = 'checks.' + pid
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  mod = importlib.import_module(modname)
  cfgs = mod.configs(tier)
  for i, c in enumerate(cfgs):
    c.setdefault('seed', seed * 1000 + i)
    c.setdefault('label', 'config-%d' % i)
  results = []
  nproc = min(int(os.environ.get('SYMX_PROCS', '8')), len(cfgs))
  limit = getattr(mod, 'LIMIT_S', {}).get(tier, 600 if tier == 'quick' else 3000)
  order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get('cost', 1))
  pend_unfinished = []
  if nproc <= 1:
    for i in order:
      results.append(worker(modname, cfgs[i]))
      if results[-1]['violations']:
        break
  else:
    ctx = mp.get_context('spawn')
    ex = cf.ProcessPoolExecutor(nproc, mp_context=ctx, initializer=_init_worker)
    futs = {ex.submit(worker, modname, cfgs[i]): cfgs[i] for i in order}
    try:
      for f in cf.as_completed(futs, timeout=limit):
        try:
          r = f.result()
        except Exception as e:  # pylint: disable=broad-except
          r = new_result(futs[f])
          r['crash'] = 'worker died: %r' % (e,)
        results.append(r)
        if r['violations']:
          break
    except cf.TimeoutError:
      pass
    done = {r['config']['label'] for r in results}
    pend_unfinished = [c['label'] for c in cfgs if c['label'] not in done]
    procs = list((ex._processes or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
      try:
        p.kill()
      except Exception:  # pylint: disable=broad-except
        pass
  return finish(pid, tier, seed, mod, results, pend_unfinished, t0)


def finish(pid, tier, seed, mod, results, unfinished, t0):
  viol = [(r, v) for r in results for v in r['violations']]
  # a config the encoder cannot handle is reported as not explored
  unexplored = [(r['config']['label'], r['unsupported']) for r in results
                if r['unsupported']]
  crashes = [(r['config']['label'], r.get('crash'), r.get('trace'))
             for r in results if r.get('crash') and not r['violations']]
  errors = [(r['config']['label'], e) for r in results for e in r['errors']]
  unknown = sum(r['unknown'] for r in results)
  agg = {}
  for r in results:
    for k, v in r.get('stats', {}).items():
      agg[k] = agg.get(k, 0) + v
  funcs = sorted({f for r in results for f in r['functions']})
  obligations = sum(r['obligations'] for r in results)
  discharged = sum(r['discharged'] for r in results)
  paths = sum(r['paths'] for r in results)
  validated = sum(r['validated'] for r in results)
  samples = []
  for r in results:
    for s in r['samples'][:2]:
      if len(samples) < 12:
        samples.append(dict(config=r['config']['label'], **s))
  vio_out = []
  if viol:
    d = os.path.join(VERIF, 'replays', pid)
    os.makedirs(d, exist_ok=True)
    for i, (r, v) in enumerate(viol[:4]):
      path = os.path.join(d, 'violation-%d.json' % i)
      with open(path, 'w') as f:
        json.dump(dict(property=pid, config=r['config'], record=v), f,
                  indent=1, default=str)
      print('VIOLATION property=%s replay=%s' % (pid, path))
      print('  config: %s' % r['config']['label'])
      print('  observed on the real code: %s' % json.dumps(
          v.get('observed'), default=str)[:800])
      vio_out.append(dict(replay=path, config=r['config']['label'],
                          observed=v.get('observed')))
  for lab, why in unexplored:
    print('NOT-EXPLORED %s: %s' % (lab, why))
  for lab in unfinished:
    if not viol:
      print('NOT-EXPLORED %s: time budget' % lab)
  for lab, c, tr in crashes:
    print('NOT-EXPLORED %s: encoder error %s\n%s' % (lab, c, tr))
  for lab, e in errors:
    print('INCONCLUSIVE %s: %s' % (lab, e))
  if unknown:
    print('INCONCLUSIVE obligations: %d (%s)' % (unknown, '; '.join(
        r['config'].get('label', '') for r in results if r['unknown'])))
  explored = [r for r in results if not r['unsupported'] and not r.get('crash')]
  ev = dict(
      property=pid, tier=tier, seed=seed, level='model_checking',
      wall_s=round(time.time() - t0, 2),
      coverage=dict(
          states=paths,
          transitions=sum(r.get('neqns', 0) for r in results),
          meaning=dict(states='symbolic paths explored',
                       transitions='jaxpr equations executed symbolically'),
          traces_validated_against_impl=validated,
          samples=samples,
          functions_encoded=funcs,
          bounds=[r['config']['label'] for r in explored],
          obligations=obligations, discharged=discharged,
          inconclusive=unknown,
          not_explored=[dict(config=l, reason=w) for l, w in unexplored]
          + [dict(config=l, reason='time budget') for l in unfinished]
          + [dict(config=l, reason='encoder error: %s' % c)
             for l, c, _ in crashes],
          undecided=[dict(config=l, reason=e) for l, e in errors],
          solver=dict(queries=agg.get('queries', 0), sat=agg.get('sat', 0),
                      unsat=agg.get('unsat', 0), unknown=agg.get('unknown', 0),
                      solver_seconds=round(agg.get('solver_s', 0), 2),
                      negation_false_after_normalisation=agg.get(
                          'normalised', 0)),
          violations_found=vio_out,
          per_config=[dict(config=r['config']['label'], paths=r['paths'],
                           obligations=r['obligations'],
                           discharged=r['discharged'],
                           wall_s=round(r['wall_s'], 2))
                      for r in results if 'wall_s' in r],
      ),
      assumptions=getattr(mod, 'ASSUMPTIONS', []),
      violations=len(vio_out),
  )
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  known = known_findings(pid)
  for k in known:
    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  print('%s %s: configs=%d paths=%d obligations=%d discharged=%d queries=%d '
        'solver=%.1fs wall=%.1fs' % (
            pid, tier, len(results), paths, obligations, discharged,
            agg.get('queries', 0), agg.get('solver_s', 0), time.time() - t0))
  if viol:
    return 1
  # "held on everything explored": what could not be explored or decided is
  # printed above and listed in the evidence; no verdict at all is an error
  strict = os.environ.get('SYMX_STRICT')
  if strict and (crashes or errors or unknown or unexplored or unfinished):
    return 2
  if not explored or discharged == 0:
    return 2
  return 0


def known_findings(pid):
  p = os.path.join(VERIF, 'known_findings.json')
  try:
    with open(p) as f:
      return [k for k in json.load(f).get('open', []) if k['property'] == pid]
  except FileNotFoundError:
    return []
