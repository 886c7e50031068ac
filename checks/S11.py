"""Adaptation state."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='adaptation')
  a = dict(adaptive=True)
  out = [
      cfg('rw', 2, (2,), 1, **a, **r), cfg('rw', 3, (1,), 2, **a, **r),
      cfg('rw', 2, (2,), 1, **r),
      cfg('gwg', 2, (3,), 1, **a, _starts=corner_starts(2, 3, 4), **r),
      cfg('gwg', 2, (2,), 2, **a, _starts=corner_starts(2, 4, 3), **r),
      cfg('pafs', 2, (3,), 1, **a, _starts=corner_starts(2, 3, 4), **r),
      cfg('pafs', 3, (2,), 1, **a, _starts=corner_starts(3, 2, 4), **r),
      cfg('pafs', 2, (2,), 2, **a, _starts=corner_starts(2, 4, 3), **r),
      cfg('pafs', 2, (3,), 1, num_flips=2, _starts=corner_starts(2, 3, 3), **r),
      cfg('dlmc', 2, (1,), 1, **a, **r), cfg('dlmc', 2, (2,), 1, **a, _starts=corner_starts(2, 2, 2), **r),
      cfg('dlmc', 3, (1,), 1, **a, _starts=corner_starts(3, 1, 2), **r),
      cfg('dlmc', 2, (1,), 1, **a, reset_z_est=-1, **r),
      cfg('dmala', 2, (1,), 1, **a, **r), cfg('dmala', 2, (2,), 1, **a, _starts=corner_starts(2, 2, 2), **r),
      cfg('dmala', 3, (1,), 1, **a, _starts=corner_starts(3, 1, 2), **r),
      cfg('dmala', 2, (1,), 1, **a, reset_z_est=-1, **r),
      cfg('dlmc', 2, (1,), 2, **a, schedule_step=3, reset_z_est=7, _starts=corner_starts(2, 2, 3), **r),
      cfg('dlmc', 2, (1, 2), 1, **a, balancing_fn_type='RATIO', _starts=corner_starts(2, 2, 2), **r),
      cfg('dmala', 2, (1,), 2, **a, schedule_step=3, reset_z_est=7, _starts=corner_starts(2, 2, 3), **r),
      cfg('dmala', 2, (1, 2), 1, **a, balancing_fn_type='RATIO', _starts=corner_starts(2, 2, 2), **r),
      cfg('dmala', 3, (1,), 2, **a, _starts=corner_starts(3, 2, 1), **r),
      cfg('rw', 2, (2, 2), 1, **a, _starts=corner_starts(2, 4, 3), **r),
      cfg('rw', 3, (1, 3), 1, **a, _starts=corner_starts(3, 3, 2), **r),
      cfg('gwg', 2, (2, 2), 1, **a, _starts=corner_starts(2, 4, 2), **r),
      cfg('pafs', 2, (3, 1), 1, **a, _starts=corner_starts(2, 3, 2), **r),
  ]
  if tier == 'thorough':
    out += [cfg('rw', 2, (4,), 1, **a, _starts=corner_starts(2, 4, 3), **r),
            cfg('dlmc', 3, (1,), 2, **a, _starts=corner_starts(3, 2, 1), **r),
            cfg('gwg', 2, (4,), 1, **a, _starts=corner_starts(2, 4, 2), **r),
            cfg('pafs', 2, (4,), 1, **a, _starts=corner_starts(2, 4, 2), **r)]
  return out
