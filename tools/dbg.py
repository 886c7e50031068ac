"""dbg.py CHECK INDEX: prints obligations the solver leaves undecided."""
import sys, importlib
sys.path[:0] = ['/verif', '/repo']
from symx import statecheck as SC, terms as T, report
m = importlib.import_module('checks.' + sys.argv[1])
cs = m.configs('quick')
orig = SC.prove_equal
def pe(res, a, b, conds, rng, what, rec):
  u, n = res['unknown'], len(res['candidates'])
  orig(res, a, b, conds, rng, what, rec)
  if res['unknown'] > u or len(res['candidates']) > n:
    print('UNDECIDED' if res['unknown'] > u else 'CAND', what, '\n A', T.show(a)[:700], '\n B', T.show(b)[:700])
    for c in list(conds)[:8]: print('  if', T.showB(c)[:300] if isinstance(c, T.B) else c)
SC.prove_equal = pe
for i in (map(int, sys.argv[2:]) if len(sys.argv) > 2 else range(len(cs))):
  res = dict(paths=0, obligations=0, discharged=0, unknown=0, candidates=[], samples=[], functions=[], errors=[], neqns=0, validated=0)
  print('==', cs[i]['label'])
  m.run_config(cs[i], res)
  print({k: (v if isinstance(v, int) else len(v)) for k, v in res.items()}, res['errors'][:3])
