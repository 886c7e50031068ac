"""Reported acceptance."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='acceptance')
  out = [cfg(n, 2, (2,), 1, **r) for n in ('rw', 'gibbs', 'bg', 'hb', 'gwg', 'pafs', 'dlmc', 'dmala')]
  out += [cfg(n, 3, (1,), 1, **r) for n in ('rw', 'gwg', 'pafs', 'dlmc', 'dmala')]
  out += [cfg(n, 2, (2,), 2, _starts=corner_starts(2, 4, 3), **r) for n in ('rw', 'gwg', 'pafs', 'dmala')]
  out += [cfg(n, 2, (1,), 2, _starts=corner_starts(2, 2, 3), **r) for n in ('dlmc',)]
  out += [cfg(n, 2, (2,), 1, adaptive=True, **r) for n in ('rw', 'gwg', 'pafs', 'dlmc', 'dmala')]
  out += [cfg('gwg', 2, (3,), 1, num_flips=2, _starts=corner_starts(2, 3, 3), **r),
          cfg('pafs', 2, (3,), 1, num_flips=2, _starts=corner_starts(2, 3, 3), **r)]
  if tier == 'thorough':
    out += [cfg('rw', 3, (2,), 2, _starts=corner_starts(3, 4, 3), **r),
            cfg('pafs', 3, (2,), 2, _starts=corner_starts(3, 4, 2), **r),
            cfg('gwg', 3, (2,), 2, _starts=corner_starts(3, 4, 2), **r)]
  return out
