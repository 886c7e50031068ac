"""Symbolic real/bool terms with a canonical factored form.

A symbolic real is an `F`: coef * prod(base_i ** e_i), where every base is an
Atom (a variable, exp of a monomial, log of a base, min, ite, ...) or a Poly
(a canonical multi-term polynomial over bases).  Everything is hash-consed, so
structurally equal values are the same Python object.

Arithmetic is exact over the reals (coefficients are Fractions).  Exponentials
and logarithms are treated algebraically:
   exp(a+b) = exp(a)exp(b), exp(q log A) = A**q, log(A**q B) = q log A + log B
for A, B > 0.  Float rounding is outside the model.
"""
from fractions import Fraction
import math
import random

INF = float('inf')
NINF = float('-inf')
NAN = float('nan')

TINY = Fraction(1, 10**15)      # additive guard constants below this vanish
BIGNEG = Fraction(-10**5)       # exp(c) with c below this is 0 (mask constants)

_rng = random.Random(20240607)


class Unsupported(Exception):
  pass


# ------------------------------------------------------------------ bases
BASES = []
_atom_tab = {}
_poly_tab = {}
_F_tab = {}
_F_by_uid = {}


def clear_tables():
  """Forget all terms (only legal when no term is kept)."""
  BASES.clear()
  _atom_tab.clear()
  _poly_tab.clear()
  _F_tab.clear()
  _F_by_uid.clear()
  _B_by_uid.clear()
  _add_cache.clear()
  _mul_cache.clear()
  _exp_cache.clear()
  _log_cache.clear()
  _B_tab.clear()
  _guess_cache.clear()
  _var_kinds.clear()
  _init()


class Atom:
  __slots__ = ('id', 'kind', 'args', 'pos', 'val', 'rand', 'nonneg', 'isint',
               'lo', 'hi', 'deps', 'is_poly', 'aux')

  def __repr__(self):
    return show_base(self)


class Poly:
  __slots__ = ('id', 'terms', 'pos', 'val', 'rand', 'nonneg', 'isint', 'deps',
               'is_poly', 'kind', 'aux')

  def __repr__(self):
    return show_base(self)


def _mk_atom(kind, args, pos=False, val=None, rand=False, nonneg=False,
             isint=False, lo=None, hi=None, aux=None):
  key = (kind, args)
  a = _atom_tab.get(key)
  if a is not None:
    return a
  a = Atom()
  a.id = len(BASES)
  a.kind = kind
  a.args = args
  a.pos = pos
  a.nonneg = nonneg or pos
  a.val = val
  a.rand = rand
  a.isint = isint
  a.lo = lo
  a.hi = hi
  a.is_poly = False
  a.aux = aux
  BASES.append(a)
  _atom_tab[key] = a
  return a


_written = {}
truth = None      # decides symbolic conditions while code runs eagerly


def _unwritten(i):
  return _written[i]


class F:
  __slots__ = ('coef', 'fac', 'pos', 'val', 'rand', 'nonneg', 'uid', '__weakref__')

  def __reduce_ex__(self, _):
    _written[self.uid] = self
    return _unwritten, (self.uid,)

  def __repr__(self):
    return show(self)

  def __add__(self, o):
    return add(self, o)

  __radd__ = __add__

  def __mul__(self, o):
    return mul(self, o)

  __rmul__ = __mul__

  def __neg__(self):
    return mul(self, -1)

  def __sub__(self, o):
    return sub(self, o)

  def __rsub__(self, o):
    return sub(o, self)

  def __abs__(self):
    return absv(self)

  def __pow__(self, n):
    return powq(self, n)

  def __truediv__(self, o):
    return div(self, o)

  def __rtruediv__(self, o):
    return div(o, self)

  def __bool__(self):
    if truth is not None:
      return bool(bnot(eq(self, const(0))))
    raise Unsupported('truth value of a symbolic real')

  def __lt__(self, o):
    return lt(self, o)

  def __gt__(self, o):
    return lt(o, self)

  def __le__(self, o):
    return le(self, o)

  def __ge__(self, o):
    return le(o, self)


def _fpow(v, e):
  try:
    if v == 0:
      return 0.0 if e > 0 else (1.0 if e == 0 else INF)
    if e == int(e):
      return v ** int(e)
    return math.pow(v, float(e)) if v > 0 else NAN
  except OverflowError:
    return INF
  except ValueError:
    return NAN


def _norm_e(e):
  if isinstance(e, Fraction) and e.denominator == 1:
    return e.numerator
  return e


def mkF(coef, facdict):
  if coef == 0:
    facdict = {}
  fac = tuple(sorted((b, _norm_e(e)) for b, e in facdict.items() if e != 0))
  if not isinstance(coef, Fraction):
    coef = Fraction(coef)
  key = (coef, fac)
  f = _F_tab.get(key)
  if f is not None:
    return f
  f = F()
  f.coef = coef
  f.fac = fac
  f.uid = len(_F_tab)
  v = float(coef) if abs(coef) < 10**300 else (INF if coef > 0 else NINF)
  pos = coef > 0
  nonneg = coef >= 0
  rand = False
  for b, e in fac:
    B = BASES[b]
    try:
      v *= _fpow(B.val, e)
    except OverflowError:
      v = INF
    if not B.pos:
      if isinstance(e, int) and e % 2 == 0:
        pos = False
      else:
        pos = False
        if not B.nonneg:
          nonneg = False
    rand = rand or B.rand
  f.val = v
  f.pos = pos
  f.nonneg = nonneg
  f.rand = rand
  _F_tab[key] = f
  _F_by_uid[f.uid] = f
  return f


def const(c):
  return mkF(Fraction(c), {})


def is_const(f):
  return not f.fac


def base_F(b, e=1):
  return mkF(Fraction(1), {b.id: e})


_var_kinds = {}


def var(name, pos=False, val=None, rand=False, isint=False, lo=None, hi=None):
  """A real (or int) variable. lo/hi are inclusive bounds known to the solver."""
  kind = (bool(pos), bool(rand), bool(isint), lo, hi)
  while _var_kinds.setdefault(name, kind) != kind:
    name += "'"   # the same name with other bounds is another variable
  if val is None:
    if isint:
      l = 0 if lo is None else int(lo)
      h = l + 5 if hi is None else int(hi)
      val = float(_rng.randint(l, h))
    elif lo is not None or hi is not None:
      l = float(lo) if lo is not None else float(hi) - 1.0
      h = float(hi) if hi is not None else float(lo) + 1.0
      val = _rng.uniform(l, h)
    elif pos:
      val = math.exp(_rng.uniform(-1, 1))
    else:
      val = _rng.uniform(-1.2, 1.2)
  a = _mk_atom('var', (name,), pos=pos or (lo is not None and lo > 0),
               val=val, rand=rand, isint=isint, lo=lo, hi=hi,
               nonneg=(lo is not None and lo >= 0),
               aux='01' if (isint and lo == 0 and hi == 1) else None)
  return base_F(a)


def _init():
  global E_ATOM
  E_ATOM = _mk_atom('e', (), pos=True, val=math.e)


# ------------------------------------------------------------------ polys
def _mono_val(m):
  v = 1.0
  for b, e in m:
    v *= _fpow(BASES[b].val, e)
  return v


MAX_TERMS = 60000


def _mul_mono(m1, m2):
  if not m1:
    return m2
  if not m2:
    return m1
  d = dict(m1)
  for b, e in m2:
    ne = d.get(b, 0) + e
    if ne == 0:
      del d[b]
    else:
      d[b] = 1 if (ne > 1 and BASES[b].aux == '01') else _norm_e(ne)
  return tuple(sorted(d.items()))


def poly_mul(p, q):
  if len(p) * len(q) > MAX_TERMS:
    raise Unsupported('polynomial too large (%d x %d)' % (len(p), len(q)))
  r = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      m = _mul_mono(m1, m2)
      c = r.get(m, 0) + c1 * c2
      if c == 0:
        r.pop(m, None)
      else:
        r[m] = c
  return r


def to_poly(f):
  """Expands f to {monomial: coef}; monomials range over bases.

  Poly bases with positive integer exponent are expanded; others stay opaque.
  """
  m = []
  exps = []
  for b, e in f.fac:
    B = BASES[b]
    if B.is_poly and e > 0:
      n = int(e)  # floor for positive
      if n:
        exps.append((B, n))
      fr = e - n
      if fr:
        m.append((b, _norm_e(fr)))
    else:
      m.append((b, e))
  p = {tuple(m): f.coef}
  for B, n in exps:
    q = dict(B.terms)
    for _ in range(n):
      p = poly_mul(p, q)
  return p


REDUCE_POS_MIN = False
FACTORS = None      # divisors tried on every new polynomial (renormalize)


def renormalize(fs):
  """Rebuilds terms with every polynomial divided by the small polynomials
  that occur in them (a normal form closer to full factorisation)."""
  global FACTORS
  seen, small = set(), []

  def walk(f):
    for b, _ in f.fac:
      wb(BASES[b])

  def wb(Bx):
    if Bx.id in seen:
      return
    seen.add(Bx.id)
    if Bx.is_poly:
      if len(Bx.terms) <= 4 and Bx.pos:
        small.append(Bx)
      for m, _ in Bx.terms:
        for b, _ in m:
          wb(BASES[b])
    elif Bx.kind in ('min', 'max'):
      for u in Bx.args:
        walk(_F_by_uid[u])

  for f in fs:
    walk(f)
  small.sort(key=lambda P: (len(P.terms), P.id))
  caches = [dict(_add_cache), dict(_mul_cache)]
  _add_cache.clear()
  _mul_cache.clear()
  FACTORS = small
  memo = {}

  def rb(Bx):
    r = memo.get(Bx.id)
    if r is not None:
      return r
    if Bx.is_poly:
      r = sum_many([_prod([const(c)] + [powq(rb(BASES[b]), e) for b, e in m])
                    for m, c in Bx.terms])
    elif Bx.kind == 'min':
      r = fmin(*[rf(_F_by_uid[u]) for u in Bx.args])
    elif Bx.kind == 'max':
      r = fmax(*[rf(_F_by_uid[u]) for u in Bx.args])
    else:
      r = base_F(Bx)
    memo[Bx.id] = r
    return r

  def rf(f):
    return _prod([const(f.coef)] + [powq(rb(BASES[b]), e) for b, e in f.fac])

  try:
    return [rf(f) for f in fs]
  finally:
    FACTORS = None
    _add_cache.clear()
    _mul_cache.clear()
    _add_cache.update(caches[0])
    _mul_cache.update(caches[1])


def _prod(xs):
  r = xs[0]
  for x in xs[1:]:
    r = mul(r, x)
  return r


def _reduce_min(p):
  """Uses m**2 = (A+B) m - A B for m = min(A, B) in a polynomial dict."""
  while True:
    hit = None
    for m in p:
      for b, e in m:
        if isinstance(e, int) and e >= 2 and BASES[b].kind == 'min' \
            and (not BASES[b].pos or REDUCE_POS_MIN):
          hit = (m, b, e)
          break
      if hit:
        break
    if not hit:
      return p
    m, b, e = hit
    c = p.pop(m)
    A, Bq = BASES[b].args
    rest = tuple((bb, ee) for bb, ee in m if bb != b)
    rest_f = mkF(c, dict(rest))
    mm = base_F(BASES[b], e - 1)
    m0 = base_F(BASES[b], e - 2) if e > 2 else const(1)
    sA, sB = _F_by_uid[A], _F_by_uid[Bq]
    q = dict(p)
    for piece in (mul(rest_f, mul(mm, sA)), mul(rest_f, mul(mm, sB)),
                  mul(mul(rest_f, m0), mul(mul(sA, sB), -1))):
      for mo, co in to_poly(piece).items():
        cc = q.get(mo, 0) + co
        if cc == 0:
          q.pop(mo, None)
        else:
          q[mo] = cc
    p = q


def _reg(f):
  return f.uid


def from_poly(p, laurent=False):
  p = {m: c for m, c in p.items() if c != 0}
  if any(BASES[b].kind == 'min' for m in p for b, e in m):
    p = _reduce_min(p)
  if not p:
    return const(0)
  if len(p) == 1:
    (m, c), = p.items()
    return mkF(c, dict(m))
  # content
  allb = {b for m in p for b, e in m}
  ds = [dict(m) for m in p]
  common = {}
  for b in allb:
    lo = min(d.get(b, 0) for d in ds)
    if laurent and lo < 0:
      hi = max(d.get(b, 0) for d in ds)
      lo = hi if hi < 0 else 0
    if lo != 0:
      common[b] = lo
  inv = tuple(sorted((b, _norm_e(-e)) for b, e in common.items()))
  items = sorted((_mul_mono(m, inv), c) for m, c in p.items())
  if FACTORS and len(items) <= 200:
    for Q in FACTORS:
      if len(Q.terms) < len(items):
        out = _poly_divide(dict(items), dict(Q.terms))
        if out is not None:
          return mul(mul(from_poly(out), base_F(Q)), mkF(1, common))
  lead = items[0][1]
  items = tuple((m, c / lead) for m, c in items)
  P, sgn = _mk_poly(items)
  fac = dict(common)
  fac[P.id] = fac.get(P.id, 0) + 1
  return mkF(lead * sgn, fac)


def _mk_poly(items):
  """items: sorted tuple of (mono, coef), lead coef 1. Returns (Poly, sign)."""
  got = _poly_tab.get(items)
  if got is not None:
    return got
  v = 0.0
  for m, c in items:
    v += float(c) * _mono_val(m)
  sgn = 1
  its = items
  if v < 0:
    sgn = -1
    its = tuple((m, -c) for m, c in items)
    v = -v
  P = Poly()
  P.id = len(BASES)
  P.terms = its
  P.val = v
  P.is_poly = True
  P.kind = 'poly'
  P.aux = None
  P.isint = False
  P.rand = any(BASES[b].rand for m, c in its for b, e in m)
  def mono_pos(m):
    return all(BASES[b].pos for b, e in m)
  def mono_nonneg(m):
    return all(BASES[b].nonneg or (isinstance(e, int) and e % 2 == 0)
               for b, e in m)
  P.pos = (all(c > 0 and mono_nonneg(m) for m, c in its)
           and any(mono_pos(m) for m, c in its)) or _dominated(its)
  P.nonneg = P.pos or all(c > 0 and mono_nonneg(m) for m, c in its)
  BASES.append(P)
  _poly_tab[items] = (P, sgn)
  return P, sgn


def _gt1(b):
  Bx = BASES[b]
  if Bx.kind == 'E':
    return all(BASES[bb].pos for bb, e in Bx.args)
  return Bx.kind == 'e'


def _dominated(items, depth=0):
  """Positivity by matching: every negative term -c*m has a positive term
  c'*m*g with g a product of factors known to exceed 1."""
  if len(items) > 40:
    return False
  neg_ = [(m, -c) for m, c in items if c < 0]
  if not neg_ or len(neg_) > 8:
    return False
  pos_ = [[m, c] for m, c in items if c > 0]
  if not all(all(BASES[b].pos for b, e in m) for m, c in items):
    return False
  for m, c in neg_:
    inv = tuple((b, _norm_e(-e)) for b, e in m)
    need = c
    for p in pos_:
      if p[1] <= 0:
        continue
      q_ = _mul_mono(p[0], tuple(sorted(inv)))
      if q_ and all(e > 0 and _gt1(b) for b, e in q_):
        t = min(need, p[1])
        need -= t
        p[1] -= t
        if need == 0:
          break
    if need > 0:
      return depth < 3 and _dom_min(items, depth)
  return True


def _dom_min(items, depth):
  """-c*m*min(A,B) >= -c*m*A and >= -c*m*B."""
  for k, (m, c) in enumerate(items):
    if c >= 0:
      continue
    for b, e in m:
      if BASES[b].kind == 'min' and BASES[b].pos and isinstance(e, int) and e == 1:
        rest = mkF(c, {bb: ee for bb, ee in m if bb != b})
        for u in BASES[b].args:
          p = dict(items[:k] + items[k + 1:])
          try:
            q_ = to_poly(mul(rest, _F_by_uid[u]))
          except Unsupported:
            continue
          for mm, cc in q_.items():
            v = p.get(mm, 0) + cc
            if v == 0:
              p.pop(mm, None)
            else:
              p[mm] = v
          its = tuple(sorted(p.items()))
          if its and all(cc > 0 for mm, cc in its):
            return True
          if its and _dominated(its, depth + 1):
            return True
        return False
  return False


# ------------------------------------------------------------------ arith
_add_cache = {}
_mul_cache = {}


def lift(x):
  """Python number -> F (finite) or float special."""
  if isinstance(x, F):
    return x
  if isinstance(x, bool):
    return const(int(x))
  if isinstance(x, (int, Fraction)):
    return const(x)
  if isinstance(x, B):
    return ite(x, const(1), const(0))
  if isinstance(x, float):
    if math.isnan(x) or math.isinf(x):
      return x
    return const(Fraction(x))
  import numpy as np
  if isinstance(x, np.bool_):
    return const(int(x))
  if isinstance(x, np.integer):
    return const(int(x))
  if isinstance(x, np.floating):
    return lift(float(x))
  raise Unsupported('cannot lift %r' % (type(x),))


def sp(x):
  return isinstance(x, float)


_LOGTAB = None


def _logtab():
  global _LOGTAB
  if _LOGTAB is None:
    import numpy as np
    _LOGTAB = {}
    for k in range(2, 65):
      for m in range(1, 17):
        if math.gcd(k, m) == 1 and k != m:
          v = math.log(k / m)
          for t in (np.float32(math.log(k / m)),
                    np.float32(math.log(k)) - np.float32(math.log(m))):
            _LOGTAB.setdefault(float(np.float32(t)), Fraction(k, m))
          _LOGTAB.setdefault(v, Fraction(k, m))
    for k in range(65, 4097):
      _LOGTAB.setdefault(float(np.float32(math.log(k))), Fraction(k))
  return _LOGTAB


_guess_cache = {}


def lift_const(v):
  """Float constant -> F, read as the real number it rounds.

  Values that are the float32 rounding of a short fraction or of the log of a
  small rational are replaced by that number (real-arithmetic reading).
  """
  r = _guess_cache.get(v)
  if r is not None:
    return r
  if math.isnan(v) or math.isinf(v):
    return v
  f = Fraction(v)
  r = None
  if f.denominator > 4096 and abs(v) < 1e6:
    import numpy as np
    t = _logtab()
    w = abs(v)
    if w not in t and float(np.float32(w)) != w:
      k = t.get(float(np.float32(w)))      # float64 logs, up to an ulp
      if k is not None and abs(math.log(k) - w) < 1e-14 * max(1, w):
        t[w] = k
    if w in t:
      r = log(const(t[w]))
      r = r if v > 0 else neg(r)
    else:
      g = f.limit_denominator(1000)
      if g != 0 and (float(np.float32(float(g))) == v or float(g) == v):
        r = const(g)
      else:
        # one or two roundings away from a very short fraction
        g = f.limit_denominator(60)
        if g != 0 and abs(float(g) - v) <= 2.4e-7 * min(1.0, abs(v) * 2):
          r = const(g)
  if r is None:
    r = const(f)
  _guess_cache[v] = r
  return r


def sign_of(f):
  """+1/-1/0 if known, else sign of the sample value (documented heuristics
  are only used for special-value arithmetic)."""
  if sp(f):
    return 1 if f > 0 else (-1 if f < 0 else 0)
  if is_const(f):
    return (f.coef > 0) - (f.coef < 0)
  if f.pos:
    return 1
  if mul(f, -1).pos:
    return -1
  return None


def add(a, b):
  a = lift(a)
  b = lift(b)
  if sp(a) or sp(b):
    if sp(a) and sp(b):
      return a + b
    return a if sp(a) else b
  if a.coef == 0:
    return b
  if b.coef == 0:
    return a
  if not a.fac and not b.fac:
    return const(a.coef + b.coef)
  if not a.fac and abs(a.coef) < TINY:
    return b
  if not b.fac and abs(b.coef) < TINY:
    return a
  if a.fac == b.fac:
    return mkF(a.coef + b.coef, dict(a.fac))
  key = (a.uid, b.uid) if a.uid < b.uid else (b.uid, a.uid)
  r = _add_cache.get(key)
  if r is not None:
    return r
  r = sum_many([a, b])
  _add_cache[key] = r
  return r


def _laurent_mono(m):
  """Splits a monomial into (log-like part, rest)."""
  a, b = [], []
  for x in m:
    Bx = BASES[x[0]]
    (b if Bx.pos or Bx.kind in ('ite',) else a).append(x)
  return tuple(a), b


def _laurent_sum(fs, force=False):
  """Sums of log-domain terms and quotients: sum_k L_k R_k with L_k monomials
  in log-like bases and R_k rational functions; the denominators stay with
  their monomials so that exp of the sum splits into simple factors."""
  den = False
  for f in fs:
    for b, e in f.fac:
      Bx = BASES[b]
      if Bx.is_poly:
        if e < 0:
          if not Bx.pos:
            return None
          den = True
        elif not force and any(BASES[x].is_poly and k < 0
                               for m, c in Bx.terms for x, k in m):
          den = force = True
  if not den:
    return None
  groups = {}
  for f in fs:
    for m, c in to_poly(f).items():
      a, b = _laurent_mono(m)
      if any(e < 0 or not isinstance(e, int) for _, e in a):
        return None
      dn = tuple(x for x in b if x[1] < 0 and BASES[x[0]].is_poly)
      groups.setdefault((a, dn), []).append(mkF(c, dict(b)))
  if len(groups) < 2 or not (force or len({a for a, _ in groups}) > 1):
    return None
  p = {}
  for (a, _), rs in groups.items():
    r = sum_many(rs)
    if r.coef == 0:
      continue
    for m, c in to_poly(r).items():
      p[_mul_mono(a, m)] = p.get(_mul_mono(a, m), 0) + c
  return from_poly(p, laurent=True)


def sum_many(fs):
  """Sum of F's, over a common denominator."""
  fs = [f for f in fs if f.coef != 0]
  if not fs:
    return const(0)
  # group like terms
  g = {}
  for f in fs:
    g[f.fac] = g.get(f.fac, 0) + f.coef
  fs = [mkF(c, dict(k)) for k, c in g.items() if c != 0]
  if not fs:
    return const(0)
  if len(fs) == 1:
    return fs[0]
  r = _laurent_sum(fs)
  if r is not None:
    return r
  # common factor
  allb = {}
  for f in fs:
    for b, e in f.fac:
      allb.setdefault(b, 0)
  common = {}
  for b in allb:
    common[b] = min(dict(f.fac).get(b, 0) for f in fs)
  # Polys: only factor out what is common to all or negative; atoms too
  p = {}
  for f in fs:
    d = dict(f.fac)
    for b, e in common.items():
      ne = d.get(b, 0) - e
      if ne == 0:
        d.pop(b, None)
      else:
        d[b] = ne
    q = to_poly(mkF(f.coef, d))
    for m, c in q.items():
      cc = p.get(m, 0) + c
      if cc == 0:
        p.pop(m, None)
      else:
        p[m] = cc
    if len(p) > MAX_TERMS:
      raise Unsupported('sum too large')
  r = from_poly(p)
  if r.coef == 0:
    return r
  d = dict(r.fac)
  for b, e in common.items():
    if e:
      d[b] = d.get(b, 0) + e
  out = mkF(r.coef, d)
  return _cancel(out)


def _poly_divide(P, Q):
  """Exact division of poly terms (dict) P by Q; None when not divisible.

  Requires non-negative exponents."""
  p = dict(P)
  q = dict(Q)
  for m in list(p) + list(q):
    for b, e in m:
      if e < 0:
        return None
  bases = sorted({b for m in list(p) + list(q) for b, e in m})
  def key(m):
    d = dict(m)
    return tuple(d.get(b, 0) for b in bases)
  qk = sorted(q, key=key, reverse=True)
  lq = qk[0]
  lqd = dict(lq)
  out = {}
  steps = 0
  while p:
    steps += 1
    if steps > 400:
      return None
    lp = max(p, key=key)
    d = dict(lp)
    t = {}
    for b in set(d) | set(lqd):
      e = d.get(b, 0) - lqd.get(b, 0)
      if e < 0:
        return None
      if e:
        t[b] = _norm_e(e)
    t = tuple(sorted(t.items()))
    c = p[lp] / q[lq]
    out[t] = c
    for m, cc in q.items():
      mm = _mul_mono(t, m)
      v = p.get(mm, 0) - c * cc
      if v == 0:
        p.pop(mm, None)
      else:
        p[mm] = v
  return out


def _cancel(f):
  """Cancels Poly factors of the numerator against Poly denominators."""
  neg = [(b, e) for b, e in f.fac if BASES[b].is_poly and e < 0
         and isinstance(e, int)]
  if not neg:
    return f
  posf = [(b, e) for b, e in f.fac if BASES[b].is_poly and e > 0
          and isinstance(e, int)]
  for pb, pe in posf:
    P = BASES[pb]
    for nb, ne in neg:
      Q = BASES[nb]
      if len(Q.terms) > len(P.terms) or len(P.terms) > 60:
        continue
      # cheap test: values
      out = _poly_divide(dict(P.terms), dict(Q.terms))
      if out is not None:
        q = from_poly(out)
        d = dict(f.fac)
        d[pb] = d[pb] - 1
        d[nb] = d[nb] + 1
        return _cancel(mul(mkF(f.coef, d), q))
  return f


def mul(a, b):
  a = lift(a)
  b = lift(b)
  if sp(a) or sp(b):
    if sp(a) and sp(b):
      return a * b
    s, f = (a, b) if sp(a) else (b, a)
    if math.isnan(s):
      return NAN
    if is_const(f) and f.coef == 0:
      return NAN
    sg = sign_of(f)
    if sg is None:
      sg = 1 if f.val > 0 else -1
    return s * sg
  if a.coef == 0 or b.coef == 0:
    return const(0)
  if not a.fac:
    return b if a.coef == 1 else mkF(a.coef * b.coef, dict(b.fac))
  if not b.fac:
    return a if b.coef == 1 else mkF(a.coef * b.coef, dict(a.fac))
  key = (a.uid, b.uid) if a.uid < b.uid else (b.uid, a.uid)
  r = _mul_cache.get(key)
  if r is not None:
    return r
  d = dict(a.fac)
  for bb, e in b.fac:
    ne = d.get(bb, 0) + e
    if ne == 0:
      d.pop(bb, None)
    else:
      d[bb] = _norm_e(ne)
  coef = a.coef * b.coef
  # num atoms with integer exponents fold into coef; ite01**k = ite01
  for bb in list(d):
    Bx = BASES[bb]
    e = d[bb]
    if Bx.kind == 'num' and isinstance(e, int):
      coef *= Bx.args[0] ** e
      del d[bb]
    elif Bx.aux == '01' and isinstance(e, int) and e > 1:
      d[bb] = 1
    elif Bx.kind == 'ite' and isinstance(e, int) and e > 1 and Bx.aux == 'pm1':
      if e % 2:
        d[bb] = 1
      else:
        del d[bb]
    elif Bx.kind == 'min' and not Bx.pos and isinstance(e, int) and e >= 2:
      # reduce via the quadratic relation so that the form stays canonical
      r = _cancel(mul(mkF(coef, {k: v for k, v in d.items() if k != bb}),
                      from_poly({((bb, e),): Fraction(1)})))
      _mul_cache[key] = r
      return r
  r = mkF(coef, d)
  if any(BASES[bb].is_poly and e < 0 for bb, e in r.fac):
    r = _cancel(r)
  _mul_cache[key] = r
  return r


def neg(a):
  return mul(a, -1)


def sub(a, b):
  return add(a, mul(b, -1))


def powq(a, q):
  """a ** q for rational q."""
  a = lift(a)
  q = _norm_e(Fraction(q))
  if sp(a):
    return a ** float(q)
  if q == 0:
    return const(1)
  if is_const(a):
    if isinstance(q, int):
      if a.coef == 0 and q < 0:
        return INF
      return const(a.coef ** q)
    if a.coef == 0:
      return const(0)
    if a.coef < 0:
      return NAN
    # perfect powers
    n, dd = a.coef.numerator, a.coef.denominator
    rt = q.denominator
    def iroot(k):
      r = round(k ** (1.0 / rt))
      for c in (r - 1, r, r + 1):
        if c >= 0 and c ** rt == k:
          return c
      return None
    rn, rd = iroot(n), iroot(dd)
    if rn is not None and rd is not None:
      return const(Fraction(rn, rd) ** q.numerator)
    return mkF(1, {num_atom(a.coef).id: q})
  if isinstance(q, int):
    if q > 1 and any((BASES[b].kind == 'min' and not BASES[b].pos)
                     or BASES[b].kind == 'ite' for b, e in a.fac):
      r = a
      for _ in range(q - 1):
        r = mul(r, a)
      return r
    return mkF(a.coef ** q, {b: _norm_e(e * q) for b, e in a.fac})
  # fractional: a must be >= 0
  out = powq(const(abs(a.coef)), q)
  d = {}
  if a.coef < 0:
    a2 = mkF(-1, dict(a.fac))
    at = _mk_atom('fpow', (_reg(a2), q), val=_fpow(a2.val, q), rand=a2.rand,
                  nonneg=True)
    return mul(out, base_F(at))
  bad = {}
  for b, e in a.fac:
    Bx = BASES[b]
    if Bx.kind == 'min' and Bx.pos:
      eq_ = Fraction(e) * q
      if eq_.denominator == 1:
        d[b] = _norm_e(eq_)
      else:
        x, y = (_F_by_uid[u] for u in Bx.args)
        r0 = fmin(powq(x, abs(eq_)), powq(y, abs(eq_)))
        out = mul(out, r0 if eq_ > 0 else powq(r0, -1))
    elif Bx.pos or (Bx.is_poly):
      d[b] = _norm_e(e * q)
    elif isinstance(e, int) and e % 2 == 0 and _norm_e(e * q * 1) is not None \
        and (Fraction(e) * q).denominator == 1:
      # sqrt(v**2) = |v|**1
      ab = absv(base_F(Bx))
      out = mul(out, powq(ab, Fraction(e) * q))
    elif Bx.nonneg:
      d[b] = _norm_e(e * q)
    else:
      bad[b] = e
  if bad:
    a2 = mkF(1, bad)
    at = _mk_atom('fpow', (_reg(a2), q), val=_fpow(a2.val, q), rand=a2.rand,
                  nonneg=True)
    out = mul(out, base_F(at))
  return mul(out, mkF(1, d))


def num_atom(c):
  return _mk_atom('num', (Fraction(c),), pos=True, val=float(c))


def div(a, b):
  a = lift(a)
  b = lift(b)
  if sp(b):
    if sp(a):
      return a / b if b != 0 else NAN
    return NAN if math.isnan(b) else const(0)
  if sp(a):
    if is_const(b) and b.coef == 0:
      return a
    return mul(a, powq(b, -1))
  if is_const(b):
    if b.coef == 0:
      if is_const(a):
        if a.coef == 0:
          return NAN
        return INF if a.coef > 0 else NINF
      return INF if a.val > 0 else NINF
    return mul(a, const(1 / b.coef))
  return mul(a, powq(b, -1))


# ------------------------------------------------------------------ exp/log
_exp_cache = {}
_log_cache = {}


def exp(a):
  a = lift(a)
  if sp(a):
    if math.isnan(a):
      return NAN
    return const(0) if a < 0 else INF
  if is_const(a) and a.coef == 0:
    return const(1)
  r = _exp_cache.get(a.uid)
  if r is not None:
    return r
  p = to_poly(a)
  c0 = p.get((), 0)
  if c0 < BIGNEG:
    r = const(0)
  elif c0 > -BIGNEG:
    return INF     # overflows every float format (mask constants)
  else:
    r = const(1)
    fac = {}
    coef = Fraction(1)
    extra = []
    for m, c in p.items():
      if m == ():
        fac[E_ATOM.id] = fac.get(E_ATOM.id, 0) + c
        continue
      if len(m) == 1 and m[0][1] == 1:
        Bx = BASES[m[0][0]]
        if Bx.kind == 'log':
          extra.append(powq(_F_by_uid[Bx.args[0]], c))
          continue
        if Bx.kind == 'min':
          x, y = (_F_by_uid[u] for u in Bx.args)
          ac = abs(c)
          r0 = fmin(exp(mul(x, ac)), exp(mul(y, ac)))
          extra.append(r0 if c > 0 else powq(r0, -1))
          continue
        if Bx.kind == 'ite':
          cnd = _B_by_uid[Bx.args[0]]
          x, y = (_F_by_uid[u] for u in Bx.args[1:])
          extra.append(ite(cnd, exp(mul(x, c)), exp(mul(y, c))))
          continue
      at = _mk_atom('E', m, pos=True, val=_safe_exp(_mono_val(m)),
                    rand=any(BASES[b].rand for b, e in m))
      fac[at.id] = fac.get(at.id, 0) + c
    r = mkF(coef, fac)
    for x in extra:
      r = mul(r, x)
  _exp_cache[a.uid] = r
  return r


def _safe_exp(v):
  try:
    return math.exp(v)
  except OverflowError:
    return INF


def _primes(c):
  """[(prime, exponent)] of a small positive rational, or None."""
  c = Fraction(c)
  if max(c.numerator, c.denominator) > 4096:
    return None
  out = []
  for n, s in ((c.numerator, 1), (c.denominator, -1)):
    p = 2
    while n > 1:
      k = 0
      while n % p == 0:
        n //= p
        k += 1
      if k:
        out.append((p, s * k))
      p += 1
  return out


def log(a):
  a = lift(a)
  if sp(a):
    if math.isnan(a) or a < 0:
      return NAN
    return INF
  r = _log_cache.get(a.uid)
  if r is not None:
    return r
  if is_const(a):
    if a.coef == 0:
      return NINF
    if a.coef < 0:
      return NAN
    if a.coef == 1:
      return const(0)
    ps = _primes(a.coef)
    if ps is None or (len(ps) == 1 and ps[0][1] == 1):
      r = base_F(_log_atom(a))
    else:
      r = sum_many([mul(e, log(const(p))) for p, e in ps])
  elif a.coef < 0 or (a.val == a.val and a.val < 0):
    # -log U with U uniform: the Gumbel pattern  log(-log U) = -Gum(U)
    if a.coef < 0 and len(a.fac) == 1 and a.fac[0][1] == 1:
      Bx = BASES[a.fac[0][0]]
      if Bx.kind == 'log':
        inner = _F_by_uid[Bx.args[0]]
        if (inner.coef == 1 and len(inner.fac) == 1 and inner.fac[0][1] == 1
            and BASES[inner.fac[0][0]].kind == 'var'
            and BASES[inner.fac[0][0]].rand):
          u = BASES[inner.fac[0][0]]
          g = gum_atom(u)
          r = sub(log(const(-a.coef)), base_F(g))
          _log_cache[a.uid] = r
          return r
    r = base_F(_log_atom(a))
  else:
    out = []
    if a.coef != 1:
      out.append(log(const(a.coef)))
    whole = {}
    for b, e in a.fac:
      Bx = BASES[b]
      if Bx.kind == 'E':
        out.append(mkF(e, dict(Bx.args)))
      elif Bx.kind == 'e':
        out.append(const(e))
      elif Bx.kind == 'min' and Bx.pos and _plain_log(Bx):
        x, y = (_F_by_uid[u] for u in Bx.args)
        out.append(mul(fmin(log(x), log(y)), e))
      elif Bx.kind == 'ite' and (Bx.pos or Bx.aux == 'nn'):
        cnd = _B_by_uid[Bx.args[0]]
        x, y = (_F_by_uid[u] for u in Bx.args[1:])
        out.append(mul(ite(cnd, log(x), log(y)), e))
      elif Bx.pos or Bx.is_poly or Bx.nonneg:
        out.append(mul(base_F(_log_atom(base_F(Bx))), e))
      else:
        whole[b] = e
    if whole:
      out.append(base_F(_log_atom(mkF(1, whole))))
    if any(sp(o) for o in out):
      r = out[0]
      for o in out[1:]:
        r = add(r, o)
      return r
    r = _laurent_sum(out, True) if len(out) > 1 else None
    if r is None:
      r = sum_many(out)
  _log_cache[a.uid] = r
  return r


def _plain_log(Bx):
  for u in Bx.args:
    l = log(_F_by_uid[u])
    if sp(l) or _loglin(l):
      return False
  return True


def gum_atom(u):
  lu = math.log(u.val)
  return _mk_atom('gum', (u.id,), val=-math.log(-lu), rand=True)


def _log_atom(f):
  try:
    v = math.log(f.val)
  except (ValueError, OverflowError):
    v = NAN
  return _mk_atom('log', (_reg(f),), val=v, rand=f.rand)


# ------------------------------------------------------------------ min/abs
def big_const(f):
  """Constant part of f if it dominates (mask constants), else None."""
  if sp(f):
    return f
  c = to_poly(f).get((), Fraction(0)) if len(f.fac) < 4 else Fraction(0)
  return c


def fmin(a, b):
  a = lift(a)
  b = lift(b)
  if sp(a) or sp(b):
    if sp(a) and sp(b):
      return NAN if (a != a or b != b) else min(a, b)
    s, f = (a, b) if sp(a) else (b, a)
    if s != s:
      return NAN
    return f if s > 0 else s
  if a is b:
    return a
  if is_const(a) and is_const(b):
    return a if a.coef <= b.coef else b
  # mask constants
  d = sub(a, b)
  if sp(d):
    return d
  if is_const(d):
    return a if d.coef <= 0 else b
  if d.nonneg:
    return b
  nd = neg(d)
  if nd.nonneg:
    return a
  if len(d.fac) <= 3:
    c = to_poly(d).get((), Fraction(0))
    if c < BIGNEG:
      return a
    if c > -BIGNEG:
      return b
  if oracle is not None:
    o = oracle.sign(d)
    if o is not None:
      return a if o <= 0 else b
  if a.pos and b.pos:
    # pull out the common positive factor
    da, db = dict(a.fac), dict(b.fac)
    common = {}
    for bb in set(da) | set(db):
      e = min(da.get(bb, 0), db.get(bb, 0))
      if e != 0:
        common[bb] = e
    C = mkF(min(a.coef, b.coef), common)
    a2, b2 = mul(a, powq(C, -1)), mul(b, powq(C, -1))
    g = _common_power(a2, b2)
    if g > 1:
      m1 = fmin(powq(a2, Fraction(1, g)), powq(b2, Fraction(1, g)))
      return mul(C, powq(m1, g))
    if a2.uid > b2.uid:
      a2, b2 = b2, a2
    at = _mk_atom('min', (_reg(a2), _reg(b2)), pos=True,
                  val=min(a2.val, b2.val), rand=a2.rand or b2.rand)
    return mul(C, base_F(at))
  if _loglin(d):
    ea, eb = exp(a), exp(b)
    if not (sp(ea) or sp(eb)):
      return log(fmin(ea, eb))
  # additive canonical form: min(a,b) = b + min(a-b, 0), sign-normalised
  if d.val != d.val or d.val >= 0:
    # d = a-b ; min(a,b) = b + min(d,0)
    base, dd = b, d
  else:
    base, dd = a, nd
  # scale out positive coefficient
  z = const(0)
  k = abs(dd.coef)
  pf = {bb: e for bb, e in dd.fac if BASES[bb].pos}
  dn = mkF(dd.coef / k, {bb: e for bb, e in dd.fac if bb not in pf})
  if is_const(dn):
    return add(base, mul(mkF(k, pf), fmin(dn, z)))
  at = _mk_atom('min', (_reg(dn), _reg(z)), val=min(dn.val, 0.0),
                rand=dn.rand)
  return add(base, mul(mkF(k, pf), base_F(at)))


def _common_power(a, b):
  if a.coef != 1 or b.coef != 1:
    return 1
  g = 0
  for f in (a, b):
    for bb, e in f.fac:
      if BASES[bb].kind in ('e', 'num'):
        continue
      if not isinstance(e, int):
        return 1
      g = math.gcd(g, abs(e))
  return g if g else 1


def fmax(a, b):
  a = lift(a)
  b = lift(b)
  if sp(a) or sp(b):
    r = fmin(neg(a), neg(b))
    return neg(r)
  m = fmin(a, b)
  if m is a:
    return b
  if m is b:
    return a
  if sp(m):
    return m
  # exp-domain arguments: max = a*b/min keeps products factored
  if a.pos and b.pos:
    return _cancel(mul(mul(a, b), powq(m, -1)))
  if a.pos or b.pos:
    da = {bb: e for bb, e in a.fac if BASES[bb].pos}
    db = {bb: e for bb, e in b.fac if BASES[bb].pos}
    common = {}
    for bb in set(da) | set(db):
      e = min(da.get(bb, 0), db.get(bb, 0))
      if e != 0:
        common[bb] = e
    C = mkF(1, common)
    a2, b2 = mul(a, powq(C, -1)), mul(b, powq(C, -1))
    if a2.uid > b2.uid:
      a2, b2 = b2, a2
    at = _mk_atom('max', (_reg(a2), _reg(b2)), pos=True,
                  val=max(a2.val, b2.val), rand=a2.rand or b2.rand)
    return mul(C, base_F(at))
  d = sub(a, b)
  if _loglin(d):
    ea, eb = exp(a), exp(b)
    if not (sp(ea) or sp(eb)):
      return log(fmax(ea, eb))
  return sub(add(a, b), m)


def absv(a):
  a = lift(a)
  if sp(a):
    return abs(a)
  if is_const(a):
    return const(abs(a.coef))
  if a.nonneg:
    return a
  n = neg(a)
  if n.nonneg:
    return n
  if oracle is not None:
    o = oracle.sign(a)
    if o is not None:
      return a if o >= 0 else n
  # |a| = a - 2 min(a, 0)
  return sub(a, mul(fmin(a, const(0)), 2))


# ------------------------------------------------------------------ bools
_B_tab = {}
_B_by_uid = {}


class B:
  """Symbolic boolean. kinds: lt0(F), le0(F), eq0(F), lt1(F), le1(F), not, and, or."""
  __slots__ = ('kind', 'args', 'uid', 'rand', 'val')

  def __bool__(self):
    if truth is not None:
      return bool(truth(self))
    raise Unsupported('truth value of a symbolic bool')

  def __repr__(self):
    return showB(self)


def _mkB(kind, args):
  key = (kind, args)
  b = _B_tab.get(key)
  if b is not None:
    return b
  b = B()
  b.kind = kind
  b.args = args
  b.uid = len(_B_tab)
  if kind in ('lt0', 'le0', 'eq0', 'lt1', 'le1'):
    f = _F_by_uid[args[0]]
    b.rand = f.rand
    b.val = {'lt0': lambda v: v < 0, 'le0': lambda v: v <= 0,
             'eq0': lambda v: v == 0, 'lt1': lambda v: v < 1,
             'le1': lambda v: v <= 1}[kind](f.val)
  else:
    ch = [_B_by_uid[u] for u in args]
    b.rand = any(c.rand for c in ch)
    b.val = {'not': lambda: not ch[0].val,
             'and': lambda: all(c.val for c in ch),
             'or': lambda: any(c.val for c in ch)}[kind]()
  _B_tab[key] = b
  _B_by_uid[b.uid] = b
  return b


def _has_log(f):
  for b, e in f.fac:
    Bx = BASES[b]
    if Bx.kind in ('log', 'gum'):
      return True
    if Bx.is_poly:
      for m, c in Bx.terms:
        for bb, ee in m:
          if BASES[bb].kind in ('log', 'gum'):
            return True
  return False


def _loglin(f):
  """True if f is a sum containing a plain Log atom term (so exp() helps)."""
  if not _has_log(f):
    return False
  p = to_poly(f)
  for m in p:
    for b, e in m:
      if BASES[b].kind == 'gum':
        return False
  for m, c in p.items():
    if len(m) == 1 and m[0][1] == 1 and BASES[m[0][0]].kind == 'log':
      return True
  return False


oracle = None   # set by explore: has .sign(F) and .decide(B)


def _cmp(a, b, strict):
  a = lift(a)
  b = lift(b)
  if sp(a) or sp(b):
    if (sp(a) and a != a) or (sp(b) and b != b):
      return False
    x = a if sp(a) else 0.0
    y = b if sp(b) else 0.0
    return x < y if strict else x <= y
  d = sub(a, b)
  if sp(d):
    return False
  if is_const(d):
    return d.coef < 0 if strict else d.coef <= 0
  if d.pos:
    return False
  nd = neg(d)
  if nd.pos:
    return True
  if not strict and nd.nonneg:
    return True
  if strict and d.nonneg:
    return False
  if len(d.fac) <= 3:
    c = to_poly(d).get((), Fraction(0))
    if c < BIGNEG:
      return True
    if c > -BIGNEG:
      return False
  if a.pos and b.pos:
    r = div(a, b)
    out = _mkB('lt1' if strict else 'le1', (_reg(r),))
  elif _loglin(d):
    r = exp(d)
    if sp(r):
      return (r < 1) if strict else (r <= 1)
    if is_const(r):
      return r.coef < 1 if strict else r.coef <= 1
    out = _mkB('lt1' if strict else 'le1', (_reg(r),))
  else:
    k = abs(d.coef)
    pf = {bb: e for bb, e in d.fac if BASES[bb].pos}
    dn = mkF(d.coef / k, {bb: e for bb, e in d.fac if bb not in pf})
    if is_const(dn):
      return dn.coef < 0 if strict else dn.coef <= 0
    out = _mkB('lt0' if strict else 'le0', (_reg(dn),))
  if oracle is not None:
    r = oracle.decide(out)
    if r is not None:
      return r
  return out


def lt(a, b):
  return _cmp(a, b, True)


def le(a, b):
  return _cmp(a, b, False)


def eq(a, b):
  a = lift(a)
  b = lift(b)
  if sp(a) or sp(b):
    return bool(sp(a) and sp(b) and a == b)
  d = sub(a, b)
  if is_const(d):
    return d.coef == 0
  if d.pos or neg(d).pos:
    return False
  # ite(c,x,y) == const folding
  if len(d.fac) == 1 and BASES[d.fac[0][0]].is_poly is False:
    pass
  out = _eq_ite(a, b)
  if out is None:
    dd = mkF(1, dict(d.fac))
    out = _mkB('eq0', (_reg(dd),))
  if isinstance(out, B) and oracle is not None:
    r = oracle.decide(out)
    if r is not None:
      return r
  return out


def _eq_ite(a, b):
  if is_const(a):
    a, b = b, a
  if is_const(b) and a.coef == 1 and len(a.fac) == 1 and a.fac[0][1] == 1:
    Bx = BASES[a.fac[0][0]]
    if Bx.kind == 'ite':
      c = _B_by_uid[Bx.args[0]]
      x, y = (_F_by_uid[u] for u in Bx.args[1:])
      ex, ey = eq(x, b), eq(y, b)
      return bor(band(c, ex), band(bnot(c), ey))
  return None


def bnot(b):
  if isinstance(b, B):
    if b.kind == 'not':
      return _B_by_uid[b.args[0]]
    if b.kind in ('lt0', 'le0'):
      f = _F_by_uid[b.args[0]]
      return _mkB('le0' if b.kind == 'lt0' else 'lt0', (_reg(neg(f)),))
    if b.kind in ('lt1', 'le1'):
      f = _F_by_uid[b.args[0]]
      return _mkB('le1' if b.kind == 'lt1' else 'lt1', (_reg(powq(f, -1)),))
    return _mkB('not', (b.uid,))
  return not b


def _flat(kind, xs):
  out = []
  for x in xs:
    if isinstance(x, B) and x.kind == kind:
      out.extend(_B_by_uid[u] for u in x.args)
    else:
      out.append(x)
  return out


def band(*xs):
  s = {}
  for x in _flat('and', xs):
    if not isinstance(x, B):
      if not x:
        return False
      continue
    s[x.uid] = x
  for x in s.values():
    n = bnot(x)
    if isinstance(n, B) and n.uid in s:
      return False
  if not s:
    return True
  if len(s) == 1:
    return next(iter(s.values()))
  return _mkB('and', tuple(sorted(s)))


def bor(*xs):
  s = {}
  for x in _flat('or', xs):
    if not isinstance(x, B):
      if x:
        return True
      continue
    s[x.uid] = x
  for x in s.values():
    n = bnot(x)
    if isinstance(n, B) and n.uid in s:
      return True
  if not s:
    return False
  if len(s) == 1:
    return next(iter(s.values()))
  return _mkB('or', tuple(sorted(s)))


def ite(c, a, b):
  if not isinstance(c, B):
    return a if c else b
  if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
    return bor(band(c, a), band(bnot(c), b))
  a = lift(a)
  b = lift(b)
  if (a is b) or (sp(a) and sp(b) and (a == b or (a != a and b != b))):
    return a
  if sp(a) or sp(b):
    raise Unsupported('ite with a non-finite branch %r %r' % (a, b))
  if c.kind == 'not' or c.val is False:
    # canonical polarity: condition true at the sample point when possible
    n = bnot(c)
    if c.kind == 'not' or (n.val and not c.val and n.kind != 'not'):
      c, a, b = n, b, a
  pos = a.pos and b.pos
  aux = None
  sc = const(1)
  off = const(0)
  if is_const(a) and is_const(b):
    # canonical: b + (a-b) * [c]
    if not (a.coef == 1 and b.coef == 0):
      return add(b, mul(sub(a, b), ite(c, const(1), const(0))))
    aux = '01'
  elif pos:
    # pull out common positive factors
    da, db = dict(a.fac), dict(b.fac)
    common = {}
    for bb in set(da) | set(db):
      e = min(da.get(bb, 0), db.get(bb, 0))
      if e != 0:
        common[bb] = e
    if common:
      sc = mkF(1, common)
      isc = powq(sc, -1)
      a, b = mul(a, isc), mul(b, isc)
      return mul(sc, ite(c, a, b))
  nonneg = a.nonneg and b.nonneg
  v = a.val if c.val else b.val
  at = _mk_atom('ite', (c.uid, _reg(a), _reg(b)), pos=pos, val=v,
                rand=c.rand or a.rand or b.rand, nonneg=nonneg, aux=aux)
  del sc, off
  return base_F(at)


# ------------------------------------------------------------------ integer-ish
def _isint_f(f):
  """True if f is provably integer valued."""
  if sp(f):
    return False
  for m, c in to_poly(f).items():
    if c.denominator != 1:
      return False
    for b, e in m:
      Bx = BASES[b]
      if not (isinstance(e, int) and e > 0):
        return False
      if Bx.is_poly:
        return False
      if not (Bx.isint or (Bx.kind == 'ite' and all(
          _isint_f(_F_by_uid[u]) for u in Bx.args[1:])) or
              (Bx.kind == 'min' and all(
                  _isint_f(_F_by_uid[u]) for u in Bx.args))):
        return False
  return True


def floor(a):
  a = lift(a)
  if sp(a):
    return a
  if is_const(a):
    return const(math.floor(a.coef))
  if _isint_f(a):
    return a
  at = _mk_atom('floor', (_reg(a),), val=_ffloor(a.val), rand=a.rand, isint=True)
  return base_F(at)


def _ffloor(v):
  try:
    return float(math.floor(v))
  except (ValueError, OverflowError):
    return NAN


def ceil(a):
  return neg(floor(neg(a)))


def round_even(a):
  a = lift(a)
  if sp(a):
    return a
  if is_const(a):
    return const(round(a.coef))
  if _isint_f(a):
    return a
  v = a.val
  at = _mk_atom('round', (_reg(a),), val=float(round(v)) if abs(v) < 1e15 else v,
                rand=a.rand, isint=True)
  return base_F(at)


def trunc(a):
  a = lift(a)
  if sp(a):
    return a
  if is_const(a):
    return const(int(a.coef) if a.coef >= 0 else -int(-a.coef))
  if _isint_f(a):
    return a
  if a.nonneg:
    return floor(a)
  return ite(le(const(0), a), floor(a), ceil(a))


def mod_floor(a, b):
  return sub(a, mul(b, floor(div(a, b))))


def rem_trunc(a, b):
  return sub(a, mul(b, trunc(div(a, b))))


def sign(a):
  a = lift(a)
  if sp(a):
    return const((a > 0) - (a < 0))
  if is_const(a):
    return const((a.coef > 0) - (a.coef < 0))
  if a.pos:
    return const(1)
  return ite(lt(const(0), a), const(1), ite(lt(a, const(0)), const(-1), const(0)))


UF_NUM = {}


def uf(name, *args, pos=False):
  """Uninterpreted function application (numeric function in UF_NUM for eval)."""
  args = [lift(a) for a in args]
  if any(sp(a) for a in args):
    raise Unsupported('uf %s of non-finite' % name)
  fn = UF_NUM.get(name)
  try:
    v = fn(*[a.val for a in args]) if fn else _rng.uniform(-1, 1)
  except Exception:
    v = NAN
  if fn and all(is_const(a) for a in args) and v == v and abs(v) != INF:
    return lift(float(v))
  at = _mk_atom('uf', (name,) + tuple(_reg(a) for a in args), val=v, pos=pos,
                rand=any(a.rand for a in args))
  return base_F(at)


# ------------------------------------------------------------------ show
def show_base(Bx):
  if Bx.is_poly:
    return '(' + ' + '.join(
        ('%s*' % c if c != 1 else '') + _show_mono(m) for m, c in Bx.terms) + ')'
  k = Bx.kind
  if k == 'var':
    return Bx.args[0]
  if k == 'E':
    return 'exp(%s)' % _show_mono(Bx.args)
  if k == 'e':
    return 'e'
  if k == 'num':
    return str(Bx.args[0])
  if k == 'log':
    return 'log(%s)' % show(_F_by_uid[Bx.args[0]])
  if k == 'gum':
    return 'gumbel(%s)' % show_base(BASES[Bx.args[0]])
  if k in ('min', 'max'):
    return k + '(%s, %s)' % tuple(show(_F_by_uid[u]) for u in Bx.args)
  if k == 'ite':
    return 'ite(%s, %s, %s)' % ((showB(_B_by_uid[Bx.args[0]]),) + tuple(
        show(_F_by_uid[u]) for u in Bx.args[1:]))
  if k in ('floor', 'round'):
    return '%s(%s)' % (k, show(_F_by_uid[Bx.args[0]]))
  if k == 'fpow':
    return '(%s)^%s' % (show(_F_by_uid[Bx.args[0]]), Bx.args[1])
  if k == 'uf':
    return '%s(%s)' % (Bx.args[0], ', '.join(
        show(_F_by_uid[u]) for u in Bx.args[1:]))
  return '%s%r' % (k, Bx.args)


def _show_mono(m):
  if not m:
    return '1'
  return '*'.join(show_base(BASES[b]) + ('' if e == 1 else '^%s' % e)
                  for b, e in m)


def show(f):
  if not isinstance(f, F):
    return repr(f)
  if not f.fac:
    return str(f.coef)
  s = _show_mono(f.fac)
  return s if f.coef == 1 else '%s*%s' % (f.coef, s)


def showB(b):
  if not isinstance(b, B):
    return repr(b)
  if b.kind in ('lt0', 'le0', 'eq0', 'lt1', 'le1'):
    op = {'lt0': '< 0', 'le0': '<= 0', 'eq0': '== 0', 'lt1': '< 1',
          'le1': '<= 1'}[b.kind]
    return '%s %s' % (show(_F_by_uid[b.args[0]]), op)
  if b.kind == 'not':
    return 'not(%s)' % showB(_B_by_uid[b.args[0]])
  return '(' + (' %s ' % b.kind).join(showB(_B_by_uid[u]) for u in b.args) + ')'


_init()
