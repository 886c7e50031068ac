"""Sample space closure and masks."""
from symx.kcheck import ASSUMPTIONS, cfg, crash_record, corner_starts, replay, run_config  # noqa


def configs(tier):
  r = dict(_run='closure')
  out = []
  for n in ('rw', 'gibbs', 'bg', 'hb', 'gwg', 'pafs', 'dlmc', 'dmala'):
    out += [cfg(n, 2, (3,), 1, _starts=corner_starts(2, 3, 4), **r),
            cfg(n, 3, (2,), 1, _starts=corner_starts(3, 2, 4), **r),
            cfg(n, 4, (1,), 2, _starts=corner_starts(4, 2, 3), **({'block_size': 1} if n in ('bg', 'hb') else {}), **r)]
  out += [
      cfg('gwg', 2, (3,), 1, num_flips=2, _mask=[1., 0., 1.], **r),
      cfg('gwg', 2, (3,), 1, adaptive=True, _mask=[0., 1., 1.], _starts=corner_starts(2, 3, 3), **r),
      cfg('pafs', 2, (3,), 1, num_flips=2, _mask=[1., 0., 1.], **r),
      cfg('pafs', 2, (3,), 1, _mask=[1., 1., 0.], **r),
      cfg('pafs', 3, (3,), 1, num_flips=2, _mask=[1., 0., 1.], _starts=corner_starts(3, 3, 3), **r),
      cfg('pafs', 2, (3,), 2, _mask=[1., 0., 0.], _starts=corner_starts(2, 6, 3), **r),
      cfg('rw', 3, (2,), 1, adaptive=True, _starts=corner_starts(3, 2, 3), **r),
      cfg('pafs', 2, (3,), 1, adaptive=True, _starts=corner_starts(2, 3, 3), **r),
      cfg('pafs', 3, (2,), 1, adaptive=True, _starts=corner_starts(3, 2, 3), **r),
      cfg('gibbs', 2, (2, 2), 2, _starts=corner_starts(2, 8, 3), **r),
      cfg('bg', 2, (2, 2), 1, block_size=3, _starts=corner_starts(2, 4, 3), **r),
      cfg('hb', 3, (2, 2), 1, block_size=3, _starts=corner_starts(3, 4, 3), **r),
      cfg('gwg', 3, (2, 2), 1, _starts=corner_starts(3, 4, 3), **r),
      cfg('dlmc', 3, (2,), 1, adaptive=True, _starts=corner_starts(3, 2, 3), **r),
      cfg('dmala', 3, (2,), 1, adaptive=True, _starts=corner_starts(3, 2, 3), **r),
  ]
  if tier == 'thorough':
    for n in ('rw', 'gibbs', 'bg', 'hb', 'gwg', 'pafs', 'dlmc', 'dmala'):
      out += [cfg(n, 2, (5,), 1, _starts=corner_starts(2, 5, 3), **r),
              cfg(n, 3, (3,), 1, _starts=corner_starts(3, 3, 3), **r)]
    out += [cfg('gwg', 2, (5,), 1, num_flips=2, _mask=[1., 0., 1., 0., 1.], _starts=corner_starts(2, 5, 3), **r),
            cfg('pafs', 2, (5,), 1, num_flips=3, _mask=[1., 0., 1., 0., 1.], _starts=corner_starts(2, 5, 3), **r)]
  return out
