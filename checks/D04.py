"""The infilling task: masked words, their positions and the references."""
import json
import os
import sys

import numpy as np

from symx import eager
from symx import explib as L
from symx import fcheck as F
from symx import modlib as M
from symx import nprand
from symx import terms as T
from symx.fcheck import ASSUMPTIONS, Sym, crash_record  # noqa

_me = sys.modules[__name__]
MARK = ['``', "''", '@-@', '@@unknown@@', '@@UNKNOWN@@']


class Tokenizer:
  """Word number i becomes pieces(i) tokens; a mask is one token."""

  def __init__(self, pieces):
    self.pieces = pieces

  def tokenize(self, text):
    out = []
    for w in text.split():
      if w == '[MASK]':
        out.append(w)
      else:
        out += [w] + ['##' + w] * (self.pieces(w) - 1)
    return out


def dataset(tbc, wiki, lo, hi, masks, count, fixed, free=0, twin=0):
  """tbc, wiki: lengths of the lines, None: any length around [lo, hi].

  fixed: the lines keep their order (else any order), single token words;
  free: the sentence whose masks are arbitrary (the others have the last ones);
  twin: lines of unsuitable length and of equal length coincide.
  """
  nt, nw = len(tbc), len(wiki)
  open_ = [x is None for x in tbc + wiki]
  ln = Sym('n', (nt + nw,), dtype=np.int32, lo=lo - 1, hi=hi + 1, isint=True)
  sh = Sym('s', (nt + nw,), dtype=np.int32, lo=0, hi=max(nt, nw) - 1, isint=True)
  pick = Sym('p', (masks,), dtype=np.int32, lo=0, hi=hi - 3, isint=True)
  sub = Sym('t', (hi + 1,), dtype=np.int32, lo=1, hi=2, isint=True)

  def fn(ln, sh, pick, sub):
    from discs.common import utils
    sizes = [int(ln[i]) if o else x for i, (o, x) in enumerate(
        zip(open_, tbc + wiki))]

    def line(k, n):
      w = ['Wo%d_%d' % (k, j) for j in range(n)]
      if twin and not lo <= n <= hi:
        w = ['Wo_%d' % j for j in range(n)]
      elif k % 2 == 0:
        w[0] += '``' if k < nt else '@-@'
        w[-1] += "''" if k < nt else '@@unknown@@'
      elif k >= nt:
        w[0] += '@@UNKNOWN@@'
      return ' '.join(w)
    lines = [line(k, n) for k, n in enumerate(sizes)]
    calls = []

    class Rand:
      shuffled = 0

      def shuffle(self, x):
        base = 0 if self.shuffled == 0 else nt
        self.shuffled += 1
        if fixed:
          return
        rest, out = list(x), []
        for i in range(len(x)):
          j = i if i + 1 == len(x) else int(sh[base + i] % len(rest))
          out.append(rest.pop(min(j, len(rest) - 1)))
        x[:] = out

      def permutation(self, x):
        x = list(range(x)) if isinstance(x, int) else list(x)
        self.shuffle(x)
        return x

      def choice(self, a, size=None, replace=True):
        a = list(range(a)) if isinstance(a, int) else list(a)
        k = len(calls)
        out = []
        for i in range(size):
          j = int(pick[i] % len(a)) if k == free else -1
          out.append(a[j])
          if not replace:
            a.pop(j)
        calls.append(list(out))
        return np.array(out)
    rand = Rand()
    pieces = lambda w: 1 if fixed else int(sub[int(w.split('_')[1].split('`')[
        0].split("'")[0].split('-')[0].split('[')[0].split('@')[0])])
    with L.scratch() as root, L.quiet():
      for f, ls in (('tbc.5k.txt', lines[:nt]), ('wiki103.5k.txt', lines[nt:])):
        with open(os.path.join(root, f), 'w') as h:
          h.write(''.join(l + '\n' for l in ls))
      tok = Tokenizer(pieces)
      with nprand.patched(shuffle=rand.shuffle, choice=rand.choice,
                          permutation=rand.permutation):
        utils.create_infill_dataset(root, tok, masks, num_of_sentences=count,
                                    min_length=lo, max_length=hi)
      read = lambda f: open(os.path.join(root, f)).read().split('\n')[:-1]
      refs = [read('tbc_remove_infill.5k.txt'),
              read('wiki103_remove_infill.5k.txt')]
      with open(os.path.join(root, 'infilling_task.json')) as h:
        data = json.load(h)

    def clean(k, s):
      if k < nt:
        return s.replace('``', '').replace("''", '')
      return s.replace('@@unknown@@', '[UNK]').replace(
          '@@UNKNOWN@@', '[UNK]').replace('@-@', '-')
    fits = [lo <= n <= hi for n in sizes]
    text = {clean(k, s): k for k, s in enumerate(lines)}
    used = [text.get(d['gt_sentence'], -1) for d in data]
    first = min(count, sum(fits[:nt]))
    second = min(2 * count - first, sum(fits[nt:]))
    out = [len(used) - first - second,
           int(-1 not in used and len(set(used)) == len(used)),
           int(all(fits[k] for k in used)),
           int(all(k < nt for k in used[:first])),
           int(all(k >= nt for k in used[first:]))]
    out += [int(sorted(refs[0]) == sorted(
        lines[k] for k in range(nt) if k not in used)),
            int(sorted(refs[1]) == sorted(
                lines[k] for k in range(nt, nt + nw) if k not in used))]
    ok = 0
    for i, d in enumerate(data):
      gt, words = d['gt_sentence'].split(' '), d['sentence'].split(' ')
      at = [j for j, w in enumerate(words) if w == '[MASK]']
      good = len(words) == len(gt) and len(at) == masks and all(
          0 < j < len(gt) - 1 for j in at) and all(
              a == b for j, (a, b) in enumerate(zip(words, gt)) if j not in at)
      pos, where = 1, []
      for w in words:
        if w == '[MASK]':
          where.append(pos)
        pos += 1 if w == '[MASK]' else pieces(w)
      ok += good and where == list(d['infill_pos'])
    return out + [ok - len(data)]

  def oracle():
    return M.vec([T.const(v) for v in (0, 1, 1, 1, 1, 1, 1, 0)])
  return [eager.Contract('masks, positions and references', fn,
                         (ln, sh, pick, sub), oracle, max_paths=20000)]


def configs(tier):
  n = None
  out = [((n, n), (4, n), 4, 5, 1, 1, 1), ((4, 3), (4, n), 4, 5, 1, 1, 1, 1),
         ((4, 4, 4), (4,), 4, 5, 1, 2, 0), ((4,), (4, 3, 4), 4, 5, 1, 2, 0, 1),
         ((5,), (5,), 5, 6, 2, 1, 0), ((6,), (5,), 5, 6, 3, 1, 1),
         ((6,), (6,), 5, 6, 3, 1, 1, 1), ((n, 5, n), (5, n), 5, 5, 1, 2, 1, 2),
         ((n, n), (5, n, n), 5, 5, 1, 1, 1, 0, 1)]
  if tier == 'thorough':
    out += [((n, n), (n, n), 4, 5, 1, 1, 1), ((5, 5), (5, 4), 5, 6, 2, 1, 0, 1),
            ((n, n, n), (5, n), 5, 5, 1, 2, 1, 1)]
  out = [dict(case='dataset', args=a) for a in out]
  for c in out:
    c['label'] = '%s %s' % (c['case'], c['args'])
  return out


def run_config(c, res):
  F.run_case(_me, c, res)


def replay(rec):
  return F.replay_case(_me, rec)
