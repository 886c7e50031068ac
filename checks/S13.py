"""Systematic scan coverage."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='coverage')
  out = [cfg('gibbs', 2, (d,), 1, **r) for d in (1, 2, 3, 4, 5)]
  out += [cfg('gibbs', 2, (2, 3), 1, **r), cfg('gibbs', 3, (3,), 1, **r)]
  for n in ('bg', 'hb'):
    out += [cfg(n, 2, (d,), 1, block_size=b, **r)
            for d, b in ((3, 1), (4, 2), (5, 2), (5, 3), (6, 3))]
    out += [cfg(n, 3, (3,), 1, block_size=2, **r), cfg(n, 2, (2, 2), 1, block_size=3, **r)]
  if tier == 'thorough':
    out += [cfg('gibbs', 2, (9,), 1, **r)]
    for n in ('bg', 'hb'):
      out += [cfg(n, 2, (d,), 1, block_size=b, **r)
              for d, b in ((7, 2), (7, 3), (8, 4), (9, 4))]
  return out
