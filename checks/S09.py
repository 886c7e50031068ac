"""Chains of a batch do not influence one another."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='independent')
  out = [
      cfg('rw', 2, (2,), _starts=corner_starts(2, 4, 4), **r),
      cfg('rw', 3, (1,), **r),
      cfg('gibbs', 3, (2,), _starts=corner_starts(3, 4, 4), **r),
      cfg('bg', 2, (2,), _starts=corner_starts(2, 4, 4), **r),
      cfg('hb', 2, (2,), _starts=corner_starts(2, 4, 3), _fix={'index': 0}, **r),
      cfg('gwg', 2, (2,), num_flips=2, **r),
      cfg('gwg', 3, (2,), _starts=corner_starts(3, 4, 4), **r),
      cfg('gwg', 2, (2,), adaptive=True, **r),
      cfg('pafs', 2, (2,), num_flips=2, **r),
      cfg('pafs', 3, (2,), _starts=corner_starts(3, 4, 3), **r),
      cfg('pafs', 2, (2,), adaptive=True, **r),
      cfg('dlmc', 2, (2,), _starts=corner_starts(2, 4, 4), **r),
      cfg('dlmc', 3, (1,), **r),
      cfg('dmala', 2, (2,), _starts=corner_starts(2, 4, 4), **r),
      cfg('dmala', 3, (1,), **r),
  ]
  if tier == 'thorough':
    out += [
        cfg('rw', 3, (2,), adaptive=True, _starts=corner_starts(3, 4, 4), **r),
        cfg('gibbs', 2, (2, 2), _starts=corner_starts(2, 8, 4), **r),
        cfg('bg', 3, (2,), _starts=corner_starts(3, 4, 3), **r),
        cfg('gwg', 2, (4,), _starts=corner_starts(2, 8, 4), **r),
        cfg('pafs', 2, (3,), num_flips=2, _starts=corner_starts(2, 6, 3), **r),
        cfg('dlmc', 2, (2,), adaptive=True, **r),
        cfg('dmala', 2, (2,), adaptive=True, **r),
    ]
  return out
