"""numpy's global generator under control: the functions given are used, every
other source of numpy randomness ends the exploration instead of leaking real
random numbers into it."""
import contextlib
from unittest import mock
import numpy as np
from symx import terms as T

NAMES = ('rand', 'randn', 'random', 'random_sample', 'ranf', 'sample', 'uniform',
         'normal', 'standard_normal', 'randint', 'random_integers', 'choice',
         'permutation', 'shuffle', 'binomial', 'multinomial', 'poisson', 'beta',
         'gamma', 'exponential', 'integers', 'permuted')


def _refuse(name):
  def fn(*a, **k):
    raise T.Unsupported('numpy.random.' + name)
  return fn


@contextlib.contextmanager
def patched(**fns):
  import scipy.stats  # noqa, draws from the generator when first imported
  class Gen:
    pass
  gen = Gen()
  for n in NAMES:
    setattr(gen, n, fns.get(n, _refuse(n)))
  with contextlib.ExitStack() as st:
    for n in NAMES:
      if hasattr(np.random, n):
        st.enter_context(mock.patch.object(np.random, n, getattr(gen, n)))
    st.enter_context(
        mock.patch.object(np.random, 'default_rng', lambda *a, **k: gen))
    st.enter_context(mock.patch.object(np.random, 'seed', lambda *a, **k: None))
    yield gen


def picker(size, get):
  """choice and permutation that select get(), entries of range(size)."""
  def pop(a):
    if isinstance(a, (int, np.integer)):
      a = range(int(a))
    return [int(v) for v in a]

  def choice(a, size_=None, replace=True, p=None, size=None, shuffle=True):
    k = size_ if size is None else size
    sel = list(get())
    if replace or p is not None or pop(a) != list(range(N)) or k is None or int(
        np.prod(k)) != len(sel):
      # not the draw this harness knows how to answer; the real law differs
      raise Mismatch('choice(%d entries, %r, replace=%r)' % (len(pop(a)), k, replace))
    return np.array(sel)

  def permutation(a):
    if pop(a) != list(range(N)):
      raise Mismatch('permutation of %d entries' % len(pop(a)))
    sel = list(get())
    return np.array(sel + [j for j in range(N) if j not in sel])
  N = size
  return choice, permutation


class Mismatch(AssertionError):
  """A draw whose law is not the documented one."""
