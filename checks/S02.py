"""Block Gibbs: exact block conditional."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='conditional')
  out = [
      cfg('bg', 2, (3,), 1, block_size=2, _validate=True, **r),
      cfg('bg', 2, (4,), 1, block_size=3, _starts=corner_starts(2, 4, 5), **r),
      cfg('bg', 3, (2,), 1, block_size=2, **r),
      cfg('bg', 3, (2,), 1, block_size=1, **r),
      cfg('bg', 2, (2,), 2, block_size=2, _starts=corner_starts(2, 4, 6), **r),
      cfg('bg', 3, (2, 2), 1, block_size=2, _starts=corner_starts(3, 4, 4), **r),
      cfg('bg', 3, (3,), 1, block_size=3, _starts=corner_starts(3, 3, 3), **r),
      cfg('bg', 6, (2,), 1, block_size=2, _starts=corner_starts(6, 2, 3), **r),
      cfg('bg', 2, (2, 3), 1, block_size=2, _starts=corner_starts(2, 6, 3), **r),
  ]
  if tier == 'thorough':
    out += [
        cfg('bg', 4, (3,), 1, block_size=2, **r),
        cfg('bg', 2, (5,), 1, block_size=3, _starts=corner_starts(2, 5, 6), **r),
        cfg('bg', 2, (4,), 1, block_size=4, **r),
        cfg('bg', 2, (3,), 2, block_size=2, _starts=corner_starts(2, 6, 6), **r),
        cfg('bg', 3, (5,), 1, block_size=3, _starts=corner_starts(3, 5, 3), **r),
    ]
  return out
