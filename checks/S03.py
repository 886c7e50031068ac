"""Hamming ball: target invariance."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='invariant')
  out = [
      cfg('hb', 2, (3,), 1, block_size=2, _validate=True, **r),
      cfg('hb', 3, (2,), 1, block_size=2, **r),
      cfg('hb', 2, (3,), 1, block_size=3, **r),
      cfg('hb', 2, (2,), 1, block_size=1, **r),
      cfg('hb', 2, (4,), 1, block_size=3, _starts=corner_starts(2, 4, 5), _fix={'index': 0}, **r),
      cfg('hb', 3, (2, 2), 1, block_size=2, _starts=corner_starts(3, 4, 4), _fix={'index': 2}, **r),
      cfg('hb', 4, (2,), 1, block_size=1, **r),
      cfg('hb', 4, (2,), 1, block_size=2, **r),
      cfg('hb', 3, (3,), 1, block_size=2, _fix={'index': 2}, _starts=corner_starts(3, 3, 5), **r),
      cfg('hb', 3, (3,), 1, block_size=2, _fix={'index': 0}, _starts=corner_starts(3, 3, 5), **r),
  ]
  if tier == 'thorough':
    out += [
        cfg('hb', 3, (3,), 1, block_size=3, _starts=corner_starts(3, 3, 6), _fix={'index': 0}, **r),
        cfg('hb', 2, (5,), 1, block_size=4, _starts=corner_starts(2, 5, 6), _fix={'index': 0}, **r),
        cfg('hb', 2, (6,), 1, block_size=2, _starts=corner_starts(2, 6, 5), **r),
    ]
  return out
