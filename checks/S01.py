"""Gibbs: exact conditional."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='conditional')
  out = [
      cfg('gibbs', 2, (3,), 1, _validate=True, **r),
      cfg('gibbs', 3, (2,), 1, **r),
      cfg('gibbs', 2, (2,), 2, **r),
      cfg('gibbs', 3, (2,), 2, _starts=corner_starts(3, 4, 6), **r),
      cfg('gibbs', 4, (2, 2), 1, _starts=corner_starts(4, 4, 6), **r),
      cfg('gibbs', 2, (2, 3), 3, _starts=corner_starts(2, 18, 3), **r),
      cfg('gibbs', 5, (6,), 1, _starts=corner_starts(5, 6, 3), **r),
      cfg('gibbs', 20, (1,), 1, _starts=[[0], [19], [7]], **r),
      cfg('gibbs', 140, (1,), 1, _starts=[[0], [139]], **r),
  ]
  if tier == 'thorough':
    out += [
        cfg('gibbs', 3, (3,), 1, **r), cfg('gibbs', 2, (4,), 1, **r),
        cfg('gibbs', 3, (1,), 3, **r), cfg('gibbs', 4, (3,), 1, **r),
        cfg('gibbs', 8, (2, 4), 1, _starts=corner_starts(8, 8, 5), **r),
        cfg('gibbs', 2, (16,), 1, _starts=corner_starts(2, 16, 4), **r),
    ]
  return out
