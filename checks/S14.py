"""Random key discipline within a step."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='keys')
  out = []
  for n in ('rw', 'gibbs', 'bg', 'hb', 'gwg', 'pafs', 'dlmc', 'dmala'):
    out += [cfg(n, 2, (2,), 2, _starts=corner_starts(2, 4, 2), **r),
            cfg(n, 3, (1,), 2, _starts=corner_starts(3, 2, 2), **({'block_size': 1} if n in ('bg', 'hb') else {}), **r)]
    if n in ('rw', 'gwg', 'pafs', 'dlmc', 'dmala'):
      out += [cfg(n, 2, (2,), 1, adaptive=True, _starts=corner_starts(2, 2, 2), **r)]
  out += [cfg('pafs', 3, (2,), 1, adaptive=True, _starts=corner_starts(3, 2, 2), **r),
          cfg('gwg', 2, (3,), 1, num_flips=2, _starts=corner_starts(2, 3, 2), **r),
          cfg('pafs', 3, (2,), 1, num_flips=2, _starts=corner_starts(3, 2, 2), **r)]
  if tier == 'thorough':
    out += [cfg(n, 2, (2,), 3, _starts=corner_starts(2, 6, 1), **r)
            for n in ('rw', 'gibbs', 'hb', 'gwg', 'pafs', 'dmala')]
  return out
