"""Path auxiliary sampler: reversibility."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  out = [cfg('pafs', 2, (3,), 1, balancing_fn_type=f, num_flips=2, _validate=f == 'SQRT')
         for f in ('SQRT', 'RATIO', 'MAX', 'MIN')]
  out += [
      cfg('pafs', 2, (2,), 1, num_flips=1),
      cfg('pafs', 2, (3,), 1, num_flips=3),
      cfg('pafs', 3, (2,), 1), cfg('pafs', 3, (2,), 1, num_flips=2, balancing_fn_type='RATIO'),
      cfg('pafs', 2, (2,), 1, adaptive=True),
      cfg('pafs', 2, (3,), 1, adaptive=True, balancing_fn_type='MIN'),
      cfg('pafs', 3, (2,), 1, adaptive=True, _starts=corner_starts(3, 2, 5)),
      cfg('pafs', 2, (2,), 2, num_flips=2),
      cfg('pafs', 3, (2,), 2, _starts=corner_starts(3, 4, 4)),
      cfg('pafs', 2, (3,), 1, num_flips=2, approx_with_grad=False),
      cfg('pafs', 3, (2,), 1, num_flips=2, approx_with_grad=False),
      cfg('pafs', 2, (2, 2), 1, num_flips=2, _starts=corner_starts(2, 4, 5)),
      cfg('pafs', 2, (4,), 1, num_flips=2, _mask=[1., 0., 1., 1.], _starts=corner_starts(2, 4, 5)),
      cfg('pafs', 2, (6,), 1, num_flips=2, _starts=corner_starts(2, 6, 5)),
  ]
  if tier == 'thorough':
    out += [
        cfg('pafs', 3, (3,), 1, num_flips=2, _starts=corner_starts(3, 3, 6)),
        cfg('pafs', 2, (4,), 1, num_flips=3, _starts=corner_starts(2, 4, 6)),
        cfg('pafs', 2, (4,), 1, adaptive=True, _starts=corner_starts(2, 4, 4)),
        cfg('pafs', 3, (2,), 1, adaptive=True), cfg('pafs', 4, (2,), 1, num_flips=2),
        cfg('pafs', 2, (3,), 2, num_flips=1, _starts=corner_starts(2, 6, 4)),
        cfg('pafs', 3, (2, 2), 1, num_flips=2, _starts=corner_starts(3, 4, 5)),
    ]
  return out
