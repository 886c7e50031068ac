"""Lowering of terms to z3, numeric evaluation, and query bookkeeping."""
from fractions import Fraction
import math
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
  sys.path.append(_VT)
import z3  # noqa: E402

from symx import terms as T  # noqa: E402
from symx.terms import BASES  # noqa: E402


class Stats:
  queries = 0
  sat = 0
  unsat = 0
  unknown = 0
  solver_s = 0.0
  normalised = 0     # obligations whose negation became syntactically false


stats = Stats()


def q(c):
  c = Fraction(c)
  return z3.RealVal(str(c.numerator)) / z3.RealVal(str(c.denominator)) \
      if c.denominator != 1 else z3.RealVal(str(c.numerator))


def _qv(c):
  c = Fraction(c)
  return z3.Q(c.numerator, c.denominator)


class Lower:
  """Lowers F / B to z3, accumulating side constraints."""

  def __init__(self):
    self.side = []
    self.den = {}          # base id -> lcm of exponent denominators
    self.root = {}         # base id -> z3 var r with base = r**den
    self.memo = {}
    self.bmemo = {}
    self.vars = {}         # atom id -> z3 expr (raw var)
    self.n = 0
    self.has_int = False
    self.relax = False
    self.log_atoms = []
    self.e_atoms = []
    self.pure = {}         # uid of f -> f, for f < 1 with f a product of exps
    self.linear = False

  @staticmethod
  def _log_linear(f):
    return f.coef == 1 and all(
        BASES[b].kind in ('E', 'e') for b, _ in f.fac)

  def settle(self):
    """Comparisons of exps that are used nowhere else become linear ones."""
    self.linear = True
    scanned = set()
    while True:
      for u, f in list(self.pure.items()):
        if any(BASES[b].kind == 'E' and ('a', b) in self._seen
               for b, _ in f.fac):
          del self.pure[u]
          self.linear = False
          self.scan(f)
          self.linear = True
          break
        if u not in scanned:
          scanned.add(u)
          for b, _ in f.fac:
            if BASES[b].kind == 'E':
              self.scan(T.mkF(1, dict(BASES[b].args)))
          break
      else:
        return

  # pass 1: collect exponent denominators
  def scan(self, obj, seen=None):
    if seen is None:
      seen = self._seen = getattr(self, '_seen', set())
    stack = [obj]
    while stack:
      o = stack.pop()
      if isinstance(o, T.B):
        if ('b', o.uid) in seen:
          continue
        seen.add(('b', o.uid))
        if o.kind in ('lt0', 'le0', 'eq0', 'lt1', 'le1'):
          f = T._F_by_uid[o.args[0]]
          if self.linear and o.kind in ('lt1', 'le1') and self._log_linear(f):
            self.pure[f.uid] = f
          else:
            stack.append(f)
        else:
          stack.extend(T._B_by_uid[u] for u in o.args)
      elif isinstance(o, T.F):
        if ('f', o.uid) in seen:
          continue
        seen.add(('f', o.uid))
        for b, e in o.fac:
          self._exp(b, e)
          stack.append(BASES[b])
      elif isinstance(o, (T.Atom, T.Poly)):
        if ('a', o.id) in seen:
          continue
        seen.add(('a', o.id))
        if o.is_poly:
          for m, c in o.terms:
            for b, e in m:
              self._exp(b, e)
              stack.append(BASES[b])
        elif o.kind in ('min', 'max'):
          stack.extend(T._F_by_uid[u] for u in o.args)
        elif o.kind == 'ite':
          stack.append(T._B_by_uid[o.args[0]])
          stack.extend(T._F_by_uid[u] for u in o.args[1:])
        elif o.kind in ('floor', 'round', 'log', 'fpow'):
          stack.append(T._F_by_uid[o.args[0]])
        elif o.kind == 'E':
          for b, e in o.args:
            self._exp(b, e)
            if BASES[b].kind != 'var' or e != 1 or len(o.args) != 1:
              stack.append(BASES[b])

  def _exp(self, b, e):
    if isinstance(e, Fraction) and BASES[b].kind not in ('e', 'num'):
      d = e.denominator
      self.den[b] = self.den.get(b, 1) * d // math.gcd(self.den.get(b, 1), d)

  def fresh(self, nm):
    self.n += 1
    return z3.Real('%s!%d' % (nm, self.n))

  def bpow(self, b, e):
    """z3 expr for base**e, e > 0."""
    Bx = BASES[b]
    if Bx.kind in ('e', 'num') and not isinstance(e, int):
      key = ('cp', b, e)
      if key not in self.memo:
        v = self.fresh('c')
        val = T._fpow(Bx.val, e)
        lo = Fraction(val) * (1 - Fraction(1, 10**9))
        hi = Fraction(val) * (1 + Fraction(1, 10**9))
        self.side += [v > _qv(lo), v < _qv(hi)]
        self.memo[key] = v
      return self.memo[key]
    d = self.den.get(b, 1)
    if d == 1:
      return self._ip(self.base(b), int(e))
    r = self.rootvar(b, d)
    return self._ip(r, int(Fraction(e) * d))

  def _ip(self, x, n):
    if n == 1:
      return x
    r = x
    for _ in range(n - 1):
      r = r * x
    return r

  def rootvar(self, b, d):
    if b not in self.root:
      Bx = BASES[b]
      r = self.fresh('r')
      self.root[b] = r
      if Bx.pos:
        self.side.append(r > 0)
      else:
        self.side.append(r >= 0)
      if Bx.kind == 'E' or (Bx.kind == 'var' and Bx.pos and b not in self.vars):
        # define atom from root
        self.memo[('base', b)] = self._ip(r, d)
        if Bx.kind == 'E':
          self.e_atoms.append(b)
        else:
          self.vars[b] = self.memo[('base', b)]
          self._bounds(Bx, self.memo[('base', b)])
      else:
        self.side.append(self._ip(r, d) == self.base(b))
    return self.root[b]

  def _bounds(self, Bx, v):
    if Bx.lo is not None:
      self.side.append(v >= _qv(Bx.lo))
    if Bx.hi is not None:
      self.side.append(v <= _qv(Bx.hi))

  def base(self, b):
    key = ('base', b)
    r = self.memo.get(key)
    if r is not None:
      return r
    Bx = BASES[b]
    if not Bx.is_poly and self.den.get(b, 1) != 1 and (
        Bx.kind == 'E' or (Bx.kind == 'var' and Bx.pos)):
      self.rootvar(b, self.den[b])
      return self.memo[key]
    r = self._base(Bx)
    self.memo[key] = r
    return r

  def _base(self, Bx):
    if Bx.is_poly:
      ts = []
      for m, c in Bx.terms:
        t = None
        for b, e in m:
          x = self.bpow(b, e)
          t = x if t is None else t * x
        if t is None:
          t = _qv(c)
        elif c != 1:
          t = _qv(c) * t
        ts.append(t)
      return z3.Sum(ts)
    k = Bx.kind
    if k == 'var':
      if Bx.isint:
        lo, hi = Bx.lo, Bx.hi
        if self.relax:
          v = z3.Real(Bx.args[0])
          self._bounds(Bx, v)
        elif lo is not None and hi is not None and hi - lo <= 12:
          v = z3.Real(Bx.args[0])
          self.side.append(z3.Or([v == i for i in range(int(lo), int(hi) + 1)]))
        else:
          self.has_int = True
          iv = z3.Int(Bx.args[0])
          v = z3.ToReal(iv)
          self._bounds(Bx, v)
      else:
        v = z3.Real(Bx.args[0])
        if Bx.pos:
          self.side.append(v > 0)
        if Bx.rand and Bx.args[0].startswith('U['):
          self.side += [v > 0, v < 1]
        self._bounds(Bx, v)
      self.vars[Bx.id] = v
      return v
    if k == 'E':
      v = self.fresh('E')
      self.side.append(v > 0)
      self.e_atoms.append(Bx.id)
      return v
    if k == 'e':
      v = z3.Real('e!')
      self.side += [v > _qv(Fraction('2.718281828459')),
                    v < _qv(Fraction('2.718281828460'))]
      return v
    if k == 'num':
      return _qv(Bx.args[0])
    if k == 'min':
      a, b = (self.f(T._F_by_uid[u]) for u in Bx.args)
      v = self.fresh('m')
      self.side += [v <= a, v <= b, z3.Or(v == a, v == b)]
      return v
    if k == 'max':
      a, b = (self.f(T._F_by_uid[u]) for u in Bx.args)
      v = self.fresh('M')
      self.side += [v >= a, v >= b, z3.Or(v == a, v == b)]
      return v
    if k == 'ite':
      c = self.b(T._B_by_uid[Bx.args[0]])
      a, b = (self.f(T._F_by_uid[u]) for u in Bx.args[1:])
      v = self.fresh('i')
      self.side += [z3.Implies(c, v == a), z3.Implies(z3.Not(c), v == b)]
      return v
    if k == 'floor':
      self.has_int = True
      return z3.ToReal(z3.ToInt(self.f(T._F_by_uid[Bx.args[0]])))
    if k == 'round':
      self.has_int = True
      a = self.f(T._F_by_uid[Bx.args[0]])
      r = z3.ToInt(a + z3.Q(1, 2))
      rr = z3.ToReal(r)
      return z3.If(z3.And(rr == a + z3.Q(1, 2), r % 2 == 1), rr - 1, rr)
    if k == 'log':
      v = self.fresh('lg')
      self.log_atoms.append((Bx.id, v))
      return v
    if k == 'fpow':
      f = T._F_by_uid[Bx.args[0]]
      qq = Fraction(Bx.args[1])
      v = self.fresh('fp')
      self.side.append(v >= 0)
      a = self.f(f)
      n, d = qq.numerator, qq.denominator
      if n > 0:
        self.side.append(self._ip(v, d) == self._ip(a, n))
      else:
        self.side.append(self._ip(v, d) * self._ip(a, -n) == 1)
      return v
    if k == 'uf':
      v = self.fresh('uf')
      if Bx.pos:
        self.side.append(v > 0)
      return v
    if k == 'gum':
      return z3.Real('gum!%d' % Bx.id)
    raise T.Unsupported('lower %s' % k)

  def nd(self, f):
    """(numerator, denominator) z3 exprs; denominator may be None."""
    n = None
    d = None
    for b, e in f.fac:
      if e > 0:
        x = self.bpow(b, e)
        n = x if n is None else n * x
      else:
        x = self.bpow(b, -e)
        d = x if d is None else d * x
    if n is None:
      n = _qv(f.coef)
    elif f.coef != 1:
      n = _qv(f.coef) * n
    return n, d

  def f(self, f):
    if not isinstance(f, T.F):
      f = T.lift(f)
    key = ('f', f.uid)
    r = self.memo.get(key)
    if r is not None:
      return r
    n, d = self.nd(f)
    if d is None:
      r = n
    else:
      r = self.fresh('q')
      self.side.append(r * d == n)
      self.side.append(d != 0)
    self.memo[key] = r
    return r

  def b(self, b):
    if not isinstance(b, T.B):
      return z3.BoolVal(bool(b))
    r = self.bmemo.get(b.uid)
    if r is not None:
      return r
    k = b.kind
    if k in ('lt0', 'le0', 'eq0'):
      f = T._F_by_uid[b.args[0]]
      fac = {}
      for bb, e in f.fac:
        if BASES[bb].pos:
          continue
        if k == 'eq0':
          if e > 0:
            fac[bb] = 1
        elif isinstance(e, int):
          fac[bb] = 1 if e % 2 else 2
        else:
          fac[bb] = e if e > 0 else -e
      g = T.mkF(1 if f.coef > 0 else -1, fac)
      x = self.f(g)
      r = {'lt0': lambda: x < 0, 'le0': lambda: x <= 0,
           'eq0': lambda: x == 0}[k]()
    elif k in ('lt1', 'le1'):
      f = T._F_by_uid[b.args[0]]
      if f.uid in self.pure:
        n = z3.Sum([_qv(e) * self.f(T.mkF(1, dict(BASES[bb].args))
                                    if BASES[bb].kind == 'E' else T.const(1))
                    for bb, e in f.fac])
        d = z3.RealVal(0)
      else:
        for bb, e in f.fac:
          Bx = BASES[bb]
          if not Bx.pos:
            self.side.append(self.base(bb) > 0)
        n, d = self.nd(f)
        if d is None:
          d = z3.RealVal(1)
      r = (n < d) if k == 'lt1' else (n <= d)
    elif k == 'not':
      r = z3.Not(self.b(T._B_by_uid[b.args[0]]))
    elif k == 'and':
      r = z3.And([self.b(T._B_by_uid[u]) for u in b.args])
    else:
      r = z3.Or([self.b(T._B_by_uid[u]) for u in b.args])
    self.bmemo[b.uid] = r
    return r

  def finish(self):
    """Linking axioms between logs / exps and their arguments."""
    done_e = set()
    done_l = 0
    while True:
      prog = False
      while done_l < len(self.log_atoms):
        i, v = self.log_atoms[done_l]
        done_l += 1
        prog = True
        a = T._F_by_uid[BASES[i].args[0]]
        if T.is_const(a):
          val = BASES[i].val
          self.side += [v > _qv(Fraction(val) - Fraction(1, 10**9)),
                        v < _qv(Fraction(val) + Fraction(1, 10**9))]
          continue
        x = self.f(a)
        self.side += [z3.Implies(x > 0, z3.And(v <= x - 1,
                                               (v > 0) == (x > 1),
                                               (v < 0) == (x < 1),
                                               v * x >= x - 1))]
      for b in list(self.e_atoms):
        if b in done_e:
          continue
        done_e.add(b)
        m = BASES[b].args
        if all(('base', bb) in self.memo for bb, e in m):
          prog = True
          x = self.f(T.mkF(1, dict(m)))
          E = self.memo[('base', b)]
          self.side += [E >= 1 + x, (E > 1) == (x > 0), (E < 1) == (x < 0)]
      if not prog:
        break
    # log monotonicity
    la = [(v, self.f(T._F_by_uid[BASES[i].args[0]]))
          for i, v in self.log_atoms]
    if len(la) <= 12:
      for i in range(len(la)):
        for j in range(i):
          (v, x), (w, y) = la[i], la[j]
          self.side.append(z3.Implies(z3.And(x > 0, y > 0), z3.And(
              (v < w) == (x < y), (v == w) == (x == y))))


DEFAULT_TIMEOUT = 20000


def check(bools, timeout=None, want_model=True, pins=None):
  """Satisfiability of the conjunction of B's. Returns (verdict, assignment).

  pins: {var name: ('exp4', r)} fixes exp(var/4) = r (r rational), or
  {var name: ('val', v)} fixes the variable itself.
  """
  bs = []
  for b in bools:
    if isinstance(b, T.B):
      bs.append(b)
    elif not b:
      stats.queries += 1
      stats.unsat += 1
      stats.normalised += 1
      # still pose the (trivial) query so that the verdict is the solver's
      s = z3.Solver()
      s.add(z3.BoolVal(False))
      s.check()
      return 'unsat', None
  def lower(relax=False):
    L = Lower()
    L.relax = relax
    L.linear = not pins
    for b in bs:
      L.scan(b)
    if not pins:
      L.settle()
    zs = [L.b(b) for b in bs]
    L.finish()
    if pins:
      _pin(L, pins)
    return L, zs

  def solve(L, zs, tmo):
    s = z3.Solver() if L.has_int else z3.SolverFor('QF_NRA')
    s.set('timeout', int(tmo))
    for z in L.side + zs:
      s.add(z)
    return s, s.check()
  L, zs = lower()
  t0 = time.time()
  tmo = timeout or DEFAULT_TIMEOUT
  s, r = solve(L, zs, min(tmo, 1000) if L.has_int else tmo)
  if r == z3.unknown and L.has_int:
    # no solution over the reals: none over the integers either
    if solve(*lower(True), tmo)[1] == z3.unsat:
      r = z3.unsat
    elif tmo > 1000:
      s, r = solve(L, zs, tmo)
  if r == z3.unknown and not L.has_int:
    s2 = z3.Solver()
    s2.set('timeout', int(tmo))
    for z in L.side + zs:
      s2.add(z)
    r = s2.check()
    s = s2
  stats.queries += 1
  stats.solver_s += time.time() - t0
  if r == z3.unsat:
    stats.unsat += 1
    return 'unsat', None
  if r == z3.unknown:
    stats.unknown += 1
    return 'unknown', None
  stats.sat += 1
  return 'sat', (extract(s.model(), L) if want_model else None)


def _pin(L, pins):
  for i, v in L.vars.items():
    p = pins.get(BASES[i].args[0])
    if p and p[0] == 'val':
      L.side.append(v == _qv(p[1]))
  for b in L.e_atoms:
    m = BASES[b].args
    if len(m) == 1 and m[0][1] == 1 and BASES[m[0][0]].kind == 'var':
      p = pins.get(BASES[m[0][0]].args[0])
      if p and p[0] == 'exp4':
        d = L.den.get(b, 1)
        if 4 % d == 0 and b in L.root:
          L.side.append(L.root[b] == _qv(Fraction(p[1]) ** (4 // d)))
        else:
          L.side.append(L.memo[('base', b)] == _qv(Fraction(p[1]) ** 4))


def _ratio(p, q):
  try:
    return p / q
  except OverflowError:
    return math.copysign(1e300, p)


def _logval(v):
  """Logarithm of a model value, of any magnitude."""
  if z3.is_algebraic_value(v):
    v = v.approx(20)
  if z3.is_rational_value(v):
    p, q = v.numerator_as_long(), v.denominator_as_long()
    return math.log(p) - math.log(q) if p > 0 else 0.0
  x = _num(v)
  return math.log(x) if x > 0 else 0.0


def _num(v):
  if z3.is_int_value(v):
    return float(v.as_long())
  if z3.is_rational_value(v):
    return _ratio(v.numerator_as_long(), v.denominator_as_long())
  if z3.is_algebraic_value(v):
    a = v.approx(20)
    return _ratio(a.numerator_as_long(), a.denominator_as_long())
  return 0.0


def extract(model, L):
  """{var name: float} for all variables involved."""
  out = {}
  for i, v in L.vars.items():
    out[BASES[i].args[0]] = _num(model.eval(v, model_completion=True))
  pend = []
  for b in L.e_atoms:
    m = BASES[b].args
    pend.append((m, _logval(model.eval(L.memo[('base', b)],
                                       model_completion=True))))
  for m, target in sorted(pend, key=lambda t: len(t[0])):
    free = []
    rest = 1.0
    ok = True
    for b, e in m:
      Bx = BASES[b]
      if Bx.kind == 'var':
        nm = Bx.args[0]
        if nm in out:
          rest *= T._fpow(out[nm], e)
        else:
          free.append((nm, e))
      else:
        try:
          rest *= T._fpow(eval_base(Bx, out, {}), e)
        except Exception:
          ok = False
    if ok and free and rest not in (0.0,):
      nm, e = free[0]
      for nm2, e2 in free[1:]:
        out[nm2] = 1.0
      if e == 1:
        out[nm] = target / rest
  return out


# ------------------------------------------------------------------ numeric
class _FloatBackend:
  num = staticmethod(float)
  pow = staticmethod(T._fpow)
  exp = staticmethod(T._safe_exp)

  @staticmethod
  def log(x):
    return math.log(x) if x > 0 else (T.NINF if x == 0 else T.NAN)

  one = 1.0
  zero = 0.0


class _MpBackend:
  """100 digit arithmetic (for confirming numeric witnesses)."""

  def __init__(self, digits=100):
    import mpmath
    self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
    self.mp.dps = digits
    self.one = self.mp.mpf(1)
    self.zero = self.mp.mpf(0)

  def num(self, c):
    if isinstance(c, Fraction):
      return self.mp.mpf(c.numerator) / self.mp.mpf(c.denominator)
    return self.mp.mpf(c)

  def pow(self, v, e):
    if v == 0:
      return self.zero if e > 0 else (self.one if e == 0 else self.mp.inf)
    if e == int(e):
      return v ** int(e)
    return self.mp.power(v, self.num(Fraction(e))) if v > 0 else self.mp.nan

  def exp(self, v):
    return self.mp.exp(v)

  def log(self, x):
    return self.mp.log(x) if x > 0 else (
        -self.mp.inf if x == 0 else self.mp.nan)


_FB = _FloatBackend()
_MB = None


def mp_memo(digits=None):
  """A memo dict that makes eval_f / eval_b use 100-digit arithmetic."""
  if digits:
    return {'backend': _MpBackend(digits)}
  global _MB
  if _MB is None:
    _MB = _MpBackend()
  return {'backend': _MB}


def eval_base(Bx, env, memo):
  key = Bx.id
  if key in memo:
    return memo[key]
  K = memo.get('backend', _FB)
  if Bx.is_poly:
    v = K.zero
    for m, c in Bx.terms:
      t = K.num(c)
      for b, e in m:
        t *= K.pow(eval_base(BASES[b], env, memo), e)
      v += t
  else:
    k = Bx.kind
    if k == 'var':
      v = K.num(env.get(Bx.args[0], Bx.val))
    elif k == 'E':
      t = K.one
      for b, e in Bx.args:
        t *= K.pow(eval_base(BASES[b], env, memo), e)
      v = K.exp(t)
    elif k == 'e':
      v = K.exp(K.one)
    elif k == 'num':
      v = K.num(Bx.args[0])
    elif k == 'log':
      v = K.log(eval_f(T._F_by_uid[Bx.args[0]], env, memo))
    elif k == 'gum':
      u = eval_base(BASES[Bx.args[0]], env, memo)
      v = -K.log(-K.log(u))
    elif k == 'min':
      v = min(eval_f(T._F_by_uid[u], env, memo) for u in Bx.args)
    elif k == 'max':
      v = max(eval_f(T._F_by_uid[u], env, memo) for u in Bx.args)
    elif k == 'ite':
      c = eval_b(T._B_by_uid[Bx.args[0]], env, memo)
      v = eval_f(T._F_by_uid[Bx.args[1 if c else 2]], env, memo)
    elif k == 'floor':
      v = K.num(math.floor(eval_f(T._F_by_uid[Bx.args[0]], env, memo)))
    elif k == 'round':
      v = K.num(round(float(eval_f(T._F_by_uid[Bx.args[0]], env, memo))))
    elif k == 'fpow':
      v = K.pow(eval_f(T._F_by_uid[Bx.args[0]], env, memo), Bx.args[1])
    elif k == 'uf':
      fn = T.UF_NUM.get(Bx.args[0])
      if fn is None:
        v = K.num(env.get('uf:%d' % Bx.id, Bx.val))
      else:
        v = K.num(fn(*[float(eval_f(T._F_by_uid[u], env, memo))
                       for u in Bx.args[1:]]))
    else:
      raise T.Unsupported('eval %s' % k)
  memo[key] = v
  return v


def eval_f(f, env, memo=None):
  if memo is None:
    memo = {}
  K = memo.get('backend', _FB)
  if not isinstance(f, T.F):
    return K.num(float(f))
  v = K.num(f.coef)
  for b, e in f.fac:
    v *= K.pow(eval_base(BASES[b], env, memo), e)
  return v


def eval_b(b, env, memo=None):
  if memo is None:
    memo = {}
  if not isinstance(b, T.B):
    return bool(b)
  k = b.kind
  if k in ('lt0', 'le0', 'eq0', 'lt1', 'le1'):
    v = eval_f(T._F_by_uid[b.args[0]], env, memo)
    return bool({'lt0': v < 0, 'le0': v <= 0, 'eq0': abs(v) < 1e-12,
                 'lt1': v < 1, 'le1': v <= 1}[k])
  ch = [eval_b(T._B_by_uid[u], env, memo) for u in b.args]
  return {'not': lambda: not ch[0], 'and': lambda: all(ch),
          'or': lambda: any(ch)}[k]()
