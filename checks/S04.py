"""Random walk Metropolis: reversibility."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  out = [
      cfg('rw', 2, (3,), 1, _validate=True),
      cfg('rw', 2, (2,), 2),
      cfg('rw', 3, (2,), 1),
      cfg('rw', 3, (2,), 1, adaptive=True),
      cfg('rw', 2, (2,), 1, adaptive=True),
      cfg('rw', 4, (2,), 1),
      cfg('rw', 2, (2, 2), 1, _starts=corner_starts(2, 4, 5)),
      cfg('rw', 3, (3,), 1, _starts=corner_starts(3, 3, 5)),
      cfg('rw', 2, (5,), 1, _starts=corner_starts(2, 5, 4)),
  ]
  if tier == 'thorough':
    out += [
        cfg('rw', 2, (3,), 2, _starts=corner_starts(2, 6, 6)),
        cfg('rw', 2, (4,), 1), cfg('rw', 3, (3,), 1),
        cfg('rw', 3, (1,), 3), cfg('rw', 2, (7,), 1, _starts=corner_starts(2, 7, 5)),
        cfg('rw', 5, (2,), 1), cfg('rw', 3, (2, 2), 1, adaptive=True, _starts=corner_starts(3, 4, 5)),
    ]
  return out
