"""Cost accounting."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='accounting')
  out = []
  for n in ('rw', 'gibbs', 'bg', 'hb', 'gwg', 'pafs', 'dlmc', 'dmala'):
    out += [cfg(n, 2, (3,), 1, _starts=corner_starts(2, 3, 2), **r),
            cfg(n, 3, (2,), 1, _starts=corner_starts(3, 2, 2), **r),
            cfg(n, 3, (1,), 2, _starts=corner_starts(3, 2, 1), **({'block_size': 1} if n in ('bg', 'hb') else {}), **r)]
    if n in ('rw', 'gwg', 'pafs', 'dlmc', 'dmala'):
      out += [cfg(n, 2, (2,), 1, adaptive=True, _starts=corner_starts(2, 2, 2), **r)]
    if n in ('bg', 'hb'):
      out += [cfg(n, 2, (4,), 1, block_size=3, _starts=corner_starts(2, 4, 1), **r),
              cfg(n, 3, (3,), 1, block_size=1, _starts=corner_starts(3, 3, 1), **r)]
  out += [cfg('pafs', 2, (2,), 1, approx_with_grad=False, _starts=corner_starts(2, 2, 2), **r),
          cfg('gwg', 2, (3,), 1, num_flips=2, _starts=corner_starts(2, 3, 2), **r),
          cfg('pafs', 2, (3,), 1, num_flips=2, _starts=corner_starts(2, 3, 2), **r)]
  if tier == 'thorough':
    out += [cfg('bg', 3, (4,), 2, block_size=2, _starts=corner_starts(3, 8, 1), **r),
            cfg('hb', 4, (4,), 2, block_size=2, _starts=corner_starts(4, 8, 1), **r),
            cfg('gibbs', 5, (3,), 2, _starts=corner_starts(5, 6, 1), **r)]
  return out
