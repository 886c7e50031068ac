"""dmala: reversibility."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  n = 'dmala'
  out = [cfg(n, 2, (2,), 1, balancing_fn_type=f, _validate=f == 'SQRT')
         for f in ('SQRT', 'RATIO', 'MAX', 'MIN')]
  out += [cfg(n, 3, (1,), 1, balancing_fn_type=f)
          for f in ('SQRT', 'RATIO', 'MAX', 'MIN')]
  out += [
      cfg(n, 2, (2,), 1, adaptive=True),
      cfg(n, 3, (2,), 1, adaptive=True, _starts=corner_starts(3, 2, 5)),
      cfg(n, 2, (2,), 2, _starts=corner_starts(2, 4, 5)),
      cfg(n, 3, (1,), 2), cfg(n, 4, (2,), 1, _starts=corner_starts(4, 2, 5)),
      cfg(n, 2, (1,), 1, adaptive=True, co_opt_prob=True),
      cfg(n, 3, (1,), 1, adaptive=True, co_opt_prob=True),
      cfg(n, 2, (4,), 1, _starts=corner_starts(2, 4, 3)),
      cfg(n, 2, (2, 2), 1, adaptive=True, _starts=corner_starts(2, 4, 3)),
  ]
  if n == 'dlmc':
    out += [cfg(n, 2, (2,), 1, solver='euler_forward'),
            cfg(n, 3, (2,), 1, solver='euler_forward', _starts=corner_starts(3, 2, 5)),
            cfg(n, 3, (1,), 1, solver='euler_forward', balancing_fn_type='MIN')]
  if tier == 'thorough':
    out += [
        cfg(n, 2, (3,), 1, adaptive=True), cfg(n, 3, (2,), 1),
        cfg(n, 3, (3,), 1, _starts=corner_starts(3, 3, 5)),
        cfg(n, 3, (1,), 3, _starts=corner_starts(3, 3, 4)),
        cfg(n, 2, (2,), 1, adaptive=True, co_opt_prob=True),
        cfg(n, 2, (6,), 1, _starts=corner_starts(2, 6, 3)),
        cfg(n, 3, (2,), 1, balancing_fn_type='RATIO'),
        cfg(n, 3, (2,), 1, balancing_fn_type='MAX', adaptive=True, _starts=corner_starts(3, 2, 5)),
    ]
  return out
