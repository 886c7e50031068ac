"""Gibbs-with-gradients: reversibility."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  out = [cfg('gwg', 2, (3,), 1, balancing_fn_type=f, _validate=f == 'SQRT')
         for f in ('SQRT', 'RATIO', 'MAX', 'MIN')]
  out += [cfg('gwg', 3, (2,), 1, balancing_fn_type=f)
          for f in ('SQRT', 'RATIO', 'MAX', 'MIN')]
  out += [
      cfg('gwg', 2, (2,), 1, num_flips=2),
      cfg('gwg', 2, (3,), 1, num_flips=3, balancing_fn_type='MAX'),
      cfg('gwg', 2, (2,), 1, adaptive=True),
      cfg('gwg', 2, (3,), 1, adaptive=True, balancing_fn_type='RATIO',
          _starts=corner_starts(2, 3, 4)),
      cfg('gwg', 2, (2,), 2),
      cfg('gwg', 3, (1,), 2),
      cfg('gwg', 3, (2,), 2, _starts=corner_starts(3, 4, 5)),
      cfg('gwg', 4, (2, 2), 1, _starts=corner_starts(4, 4, 5)),
      cfg('gwg', 2, (2, 3), 1, _starts=corner_starts(2, 6, 5)),
      cfg('gwg', 2, (3,), 1, _mask=[[1., 0., 1.]]),
      cfg('gwg', 2, (4,), 1, _mask=[1., 1., 0., 1.], num_flips=2,
          _starts=corner_starts(2, 4, 5)),
      cfg('gwg', 2, (10,), 1, _starts=corner_starts(2, 10, 4)),
  ]
  if tier == 'thorough':
    out += [
        cfg('gwg', 2, (3,), 1, adaptive=True), cfg('gwg', 2, (4,), 1, num_flips=2),
        cfg('gwg', 3, (3,), 1), cfg('gwg', 5, (2,), 1),
        cfg('gwg', 3, (1,), 3, balancing_fn_type='MIN'),
        cfg('gwg', 2, (2,), 2, num_flips=2, balancing_fn_type='RATIO'),
        cfg('gwg', 2, (2,), 2, adaptive=True),
        cfg('gwg', 3, (2, 3), 1, _starts=corner_starts(3, 6, 5)),
        cfg('gwg', 2, (4,), 1, num_flips=3, balancing_fn_type='SQRT', _starts=corner_starts(2, 4, 4)),
    ]
  return out
