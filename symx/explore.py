"""Stateless depth-first exploration of symbolic paths."""
from fractions import Fraction

from symx import smt
from symx import terms as T


class Budget(Exception):
  pass


class Infeasible(Exception):
  pass


ctx = None


class Ctx:

  def __init__(self, prefix, assume):
    self.prefix = list(prefix)
    self.taken = []
    self.pending = []
    self.prob = []
    self.conds = list(assume)
    self.ub = {}          # uniform atom id -> [lows], [ups]
    self.gorder = {}      # gumbel atom id -> (group, rank)
    self.gnext = 0
    self.draws = {}       # key term -> list of (op, shape)
    self.events = []
    self.defs = []        # (log argument, number of conds at that point)
    self.notes = []

  def cond_vars(self):
    if getattr(self, '_cvn', -1) != len(self.conds):
      self._cv = frozenset().union(*[deps(c) for c in self.conds]) \
          if self.conds else frozenset()
      self._cvn = len(self.conds)
    return self._cv

  def prob_terms(self):
    """Probability of the path as a list of F factors."""
    out = list(self.prob)
    for uid, (lows, ups) in self.ub.items():
      hi = T.const(1)
      for u in ups:
        hi = T.fmin(hi, u)
      if lows:
        lo = T.const(0)
        for l in lows:
          lo = T.fmax(lo, l)
        lo = T.fmin(lo, T.const(1))
        p = T.sub(hi, lo)
        if ups:
          p = T.fmax(p, T.const(0))
      else:
        p = T.fmax(hi, T.const(0))
      out.append(p)
    return out

  def prob_F(self):
    r = T.const(1)
    for p in self.prob_terms():
      r = T.mul(r, p)
    return r


def fork(options):
  """options: list of (payload, prob F|None, cond B|None); returns payload."""
  c = ctx
  if len(options) == 1:
    k = 0
  else:
    i = len(c.taken)
    if i < len(c.prefix):
      k = c.prefix[i]
    else:
      k = 0
      for j in range(1, len(options)):
        c.pending.append(c.taken + [j])
    c.taken.append(k)
  payload, prob, cond = options[k]
  if prob is not None and not (T.is_const(prob) and prob.coef == 1):
    c.prob.append(prob)
  if isinstance(cond, T.B):
    c.conds.append(cond)
  return payload


_dep_memo = {}


def deps(o):
  """Set of variable atom ids in F/B."""
  key = (isinstance(o, T.B), o.uid)
  r = _dep_memo.get(key)
  if r is not None:
    return r
  out = set()
  if isinstance(o, T.B):
    if o.kind in ('lt0', 'le0', 'eq0', 'lt1', 'le1'):
      out |= deps(T._F_by_uid[o.args[0]])
    else:
      for u in o.args:
        out |= deps(T._B_by_uid[u])
  else:
    for b, e in o.fac:
      out |= _bdeps(b)
  r = frozenset(out)
  _dep_memo[key] = r
  return r


_bdep_memo = {}


def _bdeps(b):
  r = _bdep_memo.get(b)
  if r is not None:
    return r
  Bx = T.BASES[b]
  out = set()
  if Bx.is_poly:
    for m, c in Bx.terms:
      for bb, e in m:
        out |= _bdeps(bb)
  elif Bx.kind == 'var':
    out.add(b)
  elif Bx.kind == 'E':
    for bb, e in Bx.args:
      out |= _bdeps(bb)
  elif Bx.kind in ('min', 'max'):
    for u in Bx.args:
      out |= deps(T._F_by_uid[u])
  elif Bx.kind == 'ite':
    out |= deps(T._B_by_uid[Bx.args[0]])
    for u in Bx.args[1:]:
      out |= deps(T._F_by_uid[u])
  elif Bx.kind in ('floor', 'round', 'log', 'fpow'):
    out |= deps(T._F_by_uid[Bx.args[0]])
  elif Bx.kind == 'uf':
    for u in Bx.args[1:]:
      out |= deps(T._F_by_uid[u])
  elif Bx.kind == 'gum':
    out.add(Bx.args[0])
  r = frozenset(out)
  _bdep_memo[b] = r
  return r


_sat_cache = {}


def sat(bools, timeout=3000):
  """Cached satisfiability; 'unknown' counts as satisfiable."""
  bs = [b for b in bools if isinstance(b, T.B)]
  if any((not isinstance(b, T.B)) and not b for b in bools):
    return False
  if not bs:
    return True
  key = tuple(sorted({b.uid for b in bs}))
  r = _sat_cache.get(key)
  if r is None:
    v, _ = smt.check(bs, timeout=timeout, want_model=False)
    r = v != 'unsat'
    _sat_cache[key] = r
  return r


class Oracle:
  """Entailment from the path condition (only for related variables)."""

  def related(self, o):
    if ctx is None:
      return None
    if getattr(o, 'rand', False):
      return None
    dv = set(deps(o))
    if not dv:
      return None
    known = ctx.cond_vars()
    for v in dv:
      if v not in known:
        Bx = T.BASES[v]
        if Bx.lo is None and Bx.hi is None:
          return None
    out = []
    todo = [c for c in ctx.conds]
    changed = True
    used = set()
    while changed:
      changed = False
      for i, c in enumerate(todo):
        if i in used:
          continue
        dc = deps(c)
        if dc & dv:
          used.add(i)
          out.append(c)
          if not dc <= dv:
            dv |= dc
            changed = True
    return out

  def decide(self, b):
    rel = self.related(b)
    if rel is None:
      return None
    # sample-point filter: if the sample satisfies rel, only one side needs z3
    if not sat(rel + [b]):
      return False
    n = T.bnot(b)
    if not sat(rel + [n]):
      return True
    return None

  def sign(self, f):
    rel = self.related(f)
    if rel is None:
      return None
    save = T.oracle
    T.oracle = None
    try:
      p = T.lt(T.const(0), f)
      n = T.lt(f, T.const(0))
    finally:
      T.oracle = save
    if not sat(rel + [p]):
      return -1 if True else 0
    if not sat(rel + [n]):
      return 1
    return None


T.oracle = Oracle()


def _solve_u(b):
  """For a random comparison: (uniform atom id, is_upper, bound F).

  True branch is U < bound (is_upper) or U > bound.
  """
  f = T._F_by_uid[b.args[0]]
  rb = [(bb, e) for bb, e in f.fac if T.BASES[bb].rand]
  if b.kind in ('lt1', 'le1'):
    if len(rb) != 1:
      raise T.Unsupported('random comparison with %d random factors: %r'
                          % (len(rb), b))
    bb, e = rb[0]
    rest = T.mkF(f.coef, {k: v for k, v in f.fac if k != bb})
    # rest * X**e < 1
    bound = T.powq(rest, Fraction(-1) / Fraction(e))
    upper = e > 0
    return _solve_lin(T.BASES[bb], bound, upper)
  # lt0/le0 : f < 0
  if len(rb) != 1 or rb[0][1] != 1 or any(
      not T.BASES[k].pos for k, v in f.fac if k != rb[0][0]):
    raise T.Unsupported('random comparison: %r' % b)
  return _solve_lin(T.BASES[rb[0][0]], T.const(0), f.coef > 0)


def _solve_lin(Bx, bound, upper):
  """X < bound (upper) with X the random base."""
  if not Bx.is_poly:
    if Bx.kind == 'var':
      return Bx.id, upper, bound
    if Bx.kind == 'E' and len(Bx.args) == 1 and Bx.args[0][1] == 1:
      return _solve_lin(T.BASES[Bx.args[0][0]], T.log(bound), upper)
    if Bx.kind == 'log':
      inner = T._F_by_uid[Bx.args[0]]
      bound = T.exp(bound)
      rb = [(k, v) for k, v in inner.fac if T.BASES[k].rand]
      if len(rb) == 1 and inner.coef > 0:
        rest = T.mkF(inner.coef, {k: v for k, v in inner.fac if k != rb[0][0]})
        e = rb[0][1]
        return _solve_lin(T.BASES[rb[0][0]],
                          T.powq(T.div(bound, rest), Fraction(1) / Fraction(e)),
                          upper if e > 0 else not upper)
    raise T.Unsupported('cannot solve for uniform in %r' % Bx)
  # linear poly in one random base
  lin = {}
  rest = {}
  rbase = None
  for m, c in Bx.terms:
    rb = [(k, e) for k, e in m if T.BASES[k].rand]
    if not rb:
      rest[m] = c
      continue
    if len(rb) != 1 or rb[0][1] != 1 or (rbase not in (None, rb[0][0])):
      raise T.Unsupported('cannot solve for uniform in %r' % Bx)
    rbase = rb[0][0]
    lin[tuple(x for x in m if x[0] != rbase)] = c
  a = T.from_poly(lin)
  r = T.from_poly(rest)
  nb = T.div(T.sub(bound, r), a)
  if a.pos:
    return _solve_lin(T.BASES[rbase], nb, upper)
  if T.neg(a).pos:
    return _solve_lin(T.BASES[rbase], nb, not upper)
  raise T.Unsupported('sign of uniform coefficient unknown in %r' % Bx)


def decide_bool(b):
  """Forks on a symbolic boolean; returns a concrete bool."""
  if not isinstance(b, T.B):
    return bool(b)
  if b.rand:
    if b.kind in ('and', 'or', 'not'):
      vals = [decide_bool(T._B_by_uid[u]) for u in b.args]
      return {'and': all, 'or': any, 'not': lambda v: not v[0]}[b.kind](vals)
    if b.kind == 'eq0':
      return False
    g = _gum_cmp(b)
    if g is not None:
      return g
    uid, upper, bound = _solve_u(b)
    Bx = T.BASES[uid]
    if not Bx.args[0].startswith('U['):
      raise T.Unsupported('comparison on a non-uniform random variable %r' % b)
    lows, ups = ctx.ub.get(uid, ([], []))
    # trivial bounds
    if not T.sp(bound) and T.is_const(bound):
      if bound.coef >= 1:
        return upper
      if bound.coef <= 0:
        return not upper
    if T.sp(bound):
      return upper if bound > 0 else (not upper)
    if any(bound is u for u in ups):
      return upper          # U < bound already known
    if any(bound is l for l in lows):
      return not upper
    k = fork([(True, None, None), (False, None, None)])
    lows, ups = list(lows), list(ups)
    if upper == k:
      ups.append(bound)
    else:
      lows.append(bound)
    ctx.ub[uid] = (lows, ups)
    return k
  r = T.oracle.decide(b)
  if r is not None:
    return r
  n = T.bnot(b)
  return fork([(True, None, b), (False, None, n)])


def concretize(f):
  """Forks over the integer values of f."""
  if isinstance(f, T.B):
    return int(decide_bool(f))
  if not isinstance(f, T.F):
    return int(f)
  if T.is_const(f):
    if f.coef.denominator != 1:
      raise T.Unsupported('non integer index %r' % f)
    return int(f.coef)
  if f.rand:
    raise T.Unsupported('random integer term %r' % f)
  rel = T.oracle.related(f) or []
  key = (f.uid, tuple(sorted(c.uid for c in rel)))
  vals = _conc_cache.get(key)
  if vals is None:
    vals = []
    block = list(rel)
    while True:
      save = T.oracle
      T.oracle = None
      try:
        v, m = smt.check(block + [T.eq(f, f)] + _touch(f), timeout=5000)
      finally:
        T.oracle = save
      if v == 'unsat':
        break
      if v != 'sat':
        raise T.Unsupported('cannot enumerate %r' % f)
      x = smt.eval_f(f, m)
      x = int(round(x))
      if x in vals:
        raise T.Unsupported('enumeration stuck for %r' % f)
      vals.append(x)
      if len(vals) > 40:
        raise T.Unsupported('too many values for %r' % f)
      save = T.oracle
      T.oracle = None
      try:
        block.append(T.bnot(T.eq(f, T.const(x))))
      finally:
        T.oracle = save
    vals.sort()
    _conc_cache[key] = vals
  if not vals:
    raise Infeasible()
  save = T.oracle
  T.oracle = None
  try:
    opts = [(v, None, T.eq(f, T.const(v))) for v in vals]
  finally:
    T.oracle = save
  return fork(opts)


INT_BOUND = 3


def truncate(f):
  """int() of a real: forks over the integer part, bounded by INT_BOUND.

  Larger values are not explored (stated as a bound in DESIGN.md).
  """
  if T.is_const(f):
    return int(T.trunc(f).coef)
  if f.rand:
    raise T.Unsupported('integer part of a random term')
  if T._isint_f(f):
    return concretize(f)
  save = T.oracle
  T.oracle = None
  try:
    opts = []
    for k in range(-INT_BOUND, INT_BOUND + 1):
      lo = T.lt(T.const(k - 1), f) if k <= 0 else T.le(T.const(k), f)
      hi = T.lt(f, T.const(k + 1)) if k >= 0 else T.le(f, T.const(k))
      opts.append((k, None, T.band(lo, hi)))
  finally:
    T.oracle = save
  rel = T.oracle.related(f) or []
  opts = [o for o in opts if o[2] is True or (
      isinstance(o[2], T.B) and sat(list(rel) + [o[2]]))]
  if not opts:
    raise Infeasible()
  return fork(opts)


def _touch(f):
  """A vacuous constraint that makes f's variables part of the model."""
  save = T.oracle
  T.oracle = None
  try:
    b = T._mkB('lt0', (T._reg(f),))
    return [T._mkB('or', tuple(sorted((b.uid, T._mkB('not', (b.uid,)).uid))))]
  finally:
    T.oracle = save


_conc_cache = {}


# ------------------------------------------------------------------ gumbel
def gum_split(f):
  """f = l + s*gum -> (s, gum atom id, l) or None."""
  if not isinstance(f, T.F) or not f.rand:
    return None
  p = T.to_poly(f)
  g = None
  rest = {}
  for m, c in p.items():
    rb = [(b, e) for b, e in m if T.BASES[b].rand]
    if not rb:
      rest[m] = c
      continue
    if (g is not None or len(m) != 1 or m[0][1] != 1
        or T.BASES[m[0][0]].kind != 'gum' or abs(c) != 1):
      return None
    g = (int(c), m[0][0])
  if g is None:
    return None
  return g[0], g[1], T.from_poly(rest)


def _gum_cmp(b):
  """Comparison between gumbel-perturbed values with an established order."""
  f = T._F_by_uid[b.args[0]]
  if b.kind not in ('lt0', 'le0'):
    return None
  p = T.to_poly(f)
  gs = []
  rest = {}
  for m, c in p.items():
    rb = [x for x, e in m if T.BASES[x].rand]
    if not rb:
      rest[m] = c
    elif len(m) == 1 and m[0][1] == 1 and T.BASES[m[0][0]].kind == 'gum':
      gs.append((m[0][0], c))
    else:
      return None
  if not gs:
    return None
  if len(gs) == 2 and gs[0][1] == -gs[1][1]:
    # c*(g1 - g2) + rest < 0
    (g1, c1), (g2, _) = gs
    if c1 < 0:
      g1, g2 = g2, g1
      c1 = -c1
    # (g1 + l1) < (g2 + l2), l1 - l2 = rest/c1
    r = T.div(T.from_poly(rest), c1)
    o1, o2 = ctx.gorder.get(g1), ctx.gorder.get(g2)
    if o1 and o2 and o1[0] == o2[0]:
      if T.sub(T.sub(o1[2], o2[2]), r) is T.const(0):
        return o1[1] > o2[1]   # rank 0 = largest
    if o1 or o2:
      raise T.Unsupported('gumbel comparison without a common order')
    # fresh pair: P(g1 + r < g2) = 1 / (1 + exp(r))
    pr = T.div(T.const(1), T.add(T.const(1), T.exp(r)))
    k = fork([(True, pr, None), (False, T.sub(T.const(1), pr), None)])
    gid = ctx.gnext
    ctx.gnext += 1
    ctx.gorder[g1] = (gid, 1 if k else 0, r)
    ctx.gorder[g2] = (gid, 0 if k else 1, T.const(0))
    return k
  raise T.Unsupported('gumbel comparison %r' % b)


def gumbel_order(elems, k=None):
  """Descending order (indices) of gumbel-perturbed elements; forks.

  elems: list of F each l_i + gum_i (or special -inf / masked).  Returns the
  list of the first k indices in descending order (all by default).
  """
  n = len(elems)
  k = n if k is None else k
  sp = []
  for f in elems:
    g = gum_split(f) if isinstance(f, T.F) else None
    if g is None:
      if isinstance(f, float) and f == T.NINF:
        sp.append((None, None, f))
        continue
      return None
    sp.append(g)
  signs = {s for s, g, l in sp if s is not None}
  if len(signs) != 1:
    return None
  s = signs.pop()
  known = [ctx.gorder.get(g) for _, g, l in sp]
  if s < 0:
    sp = [(1, g, T.neg(l) if not isinstance(l, float) else l) for _, g, l in sp]
  if all(o is not None for o in known) and len({o[0] for o in known}) == 1:
    if all(T.sub(T.sub(known[i][2], known[0][2]), T.sub(sp[i][2], sp[0][2]))
           is T.const(0) for i in range(n)):
      order = sorted(range(n), key=lambda i: known[i][1])
      return order if s > 0 else order[::-1]
  if any(o is not None for o in known):
    raise T.Unsupported('re-ordering gumbels under different locations')
  if s < 0:
    k = n   # need the full order
  w = [T.const(0) if isinstance(l, float) else T.exp(l) for _, g, l in sp]
  left = list(range(n))
  order = []
  while left:
    if len(order) >= k:
      break
    live = [i for i in left if not (T.is_const(w[i]) and w[i].coef == 0)]
    if not live:
      ctx.notes.append('masked-order')
      order.extend(left)
      left = []
      break
    if len(live) == 1 and len(left) == 1:
      i = live[0]
    else:
      tot = T.sum_many([w[i] for i in live])
      i = fork([(i, T.div(w[i], tot), None) for i in live])
    order.append(i)
    left.remove(i)
  if not left:
    gid = ctx.gnext
    ctx.gnext += 1
    for r, i in enumerate(order):
      if sp[i][1] is not None:
        ctx.gorder[sp[i][1]] = (gid, r, sp[i][2])
  else:
    gid = ctx.gnext
    ctx.gnext += 1
    for i in range(n):
      if sp[i][1] is not None:
        r = order.index(i) if i in order else None
        if r is not None:
          ctx.gorder[sp[i][1]] = (gid, r, sp[i][2])
  return order if s > 0 else order[::-1]


def explore(fn, assume=(), max_paths=200000):
  """Runs fn() once per path; yields (result, ctx)."""
  global ctx
  stack = [[]]
  n = 0
  while stack:
    prefix = stack.pop()
    c = Ctx(prefix, assume)
    ctx = c
    try:
      try:
        res = fn()
      except Infeasible:
        stack.extend(c.pending)
        continue
      n += 1
      if n > max_paths:
        raise Budget('more than %d paths' % max_paths)
      stack.extend(c.pending)
      yield res, c
    finally:
      ctx = None
