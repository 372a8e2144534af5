"""
Symbolic execution core: exact rational functions over solver atoms, path
exploration by re-execution, and z3 queries.

A symbolic real is a quotient num/den of polynomials over atoms. An atom is a
z3 constant: an input, a nondeterministic environment value, the result of an
uninterpreted function, or LOG(t)/EXP(x) of another symbolic real. Branching on
a symbolic condition asks z3 whether each side is feasible under the path
condition; feasible alternatives are queued and the scenario is re-executed.
"""
import math
import sys
import numbers
import time
from fractions import Fraction

import z3

# ------------------------------------------------------------------ polynomials
# monomial: tuple of (atom index, exponent) sorted by index; poly: dict
ONE_M = ()

sys.set_int_max_str_digits(0)         # clipped exponentials have thousands of digits


def frac(x):
  """ Exact-enough rational for a Python/numpy number: short decimals are read as
  the decimal they denote (0.1 -> 1/10), everything else as its exact binary. """
  if isinstance(x, Fraction):
    return x
  if isinstance(x, (bool,)):
    return Fraction(int(x))
  if isinstance(x, int):
    return Fraction(x)
  x = float(x)
  r = repr(x)
  if len(r) <= 13 and 'e' not in r:
    return Fraction(r)
  return Fraction(x)


def pconst(c):
  return {ONE_M: c} if c else {}


def padd(a, b):
  if not a:
    return b
  if not b:
    return a
  if len(a) < len(b):
    a, b = b, a
  r = dict(a)
  for m, c in b.items():
    v = r.get(m, 0) + c
    if v:
      r[m] = v
    else:
      r.pop(m, None)
  return r


def pscale(a, c):
  if not c:
    return {}
  if c == 1:
    return a
  return {m: v * c for m, v in a.items()}


def pneg(a):
  return {m: -v for m, v in a.items()}


def mmul(m, n):
  if not m:
    return n
  if not n:
    return m
  d = dict(m)
  for k, e in n:
    d[k] = d.get(k, 0) + e
  return tuple(sorted(d.items()))


MAX_TERMS = 60000


def pmul(a, b):
  if not a or not b:
    return {}
  if len(a) == 1 and ONE_M in a:
    return pscale(b, a[ONE_M])
  if len(b) == 1 and ONE_M in b:
    return pscale(a, b[ONE_M])
  if len(a) * len(b) > MAX_TERMS:
    raise Unsupported("polynomial too large")
  r = {}
  for m, c in a.items():
    for n, d in b.items():
      k = mmul(m, n)
      r[k] = r.get(k, 0) + c * d
  return {k: v for k, v in r.items() if v}


def pisconst(a):
  return not a or (len(a) == 1 and ONE_M in a)


def pconstval(a):
  return a.get(ONE_M, Fraction(0))


def pkey(a):
  return tuple(sorted(a.items()))


def _lead(a):
  # graded-lex leading monomial
  return max(a, key=lambda m: (sum(e for _, e in m), _lexkey(m)))


def _lexkey(m):
  return tuple((-k, e) for k, e in m)


def mdiv(m, n):
  d = dict(m)
  for k, e in n:
    v = d.get(k, 0) - e
    if v < 0:
      return None
    if v:
      d[k] = v
    else:
      d.pop(k, None)
  return tuple(sorted(d.items()))


def pdivexact(a, b):
  """ a/b if b divides a exactly (by leading-term division), else None """
  if not a:
    return {}
  if len(b) == 1:
    (n, d), = b.items()
    r = {}
    for m, c in a.items():
      q = mdiv(m, n)
      if q is None:
        return None
      r[q] = c / d
    return r
  if len(a) > 3000 or len(b) > len(a):
    return None
  # total degree order on a common variable order: use dense exponent tuples
  atoms = sorted({k for m in list(a) + list(b) for k, _ in m})
  pos = {k: i for i, k in enumerate(atoms)}

  def dense(p):
    out = {}
    for m, c in p.items():
      v = [0] * len(atoms)
      for k, e in m:
        v[pos[k]] = e
      out[tuple(v)] = c
    return out
  A, B = dense(a), dense(b)
  lb = max(B)
  cb = B[lb]
  Q = {}
  steps = 0
  while A:
    la = max(A)
    q = tuple(x - y for x, y in zip(la, lb))
    if min(q) < 0:
      return None
    c = A[la] / cb
    Q[q] = c
    for m, d in B.items():
      k = tuple(x + y for x, y in zip(m, q))
      v = A.get(k, 0) - c * d
      if v:
        A[k] = v
      else:
        A.pop(k, None)
    steps += 1
    if steps > 3000 or len(A) > 6000:
      return None
  return {tuple((atoms[i], e) for i, e in enumerate(m) if e): c for m, c in Q.items()}


# ---------------------------------------------------------------- control flow
class PathAbort(BaseException):
  """ The current path is infeasible (an assumption cannot hold). """


class Unsupported(Exception):
  """ The encoding does not reach this operation. """


class Budget(BaseException):
  """ Exploration budget exhausted. """


CUR = None  # current Engine


def cur():
  if CUR is None:
    raise Unsupported("no symbolic engine active")
  return CUR


# --------------------------------------------------------------------- symbolic
class SymBool:
  """ A condition poly (op) 0 whose truth may depend on inputs """
  __slots__ = ('poly', 'op')

  def __init__(self, poly, op):
    self.poly = poly
    self.op = op  # one of '<', '<=', '=='  and '>', '>=', '!='

  def __bool__(self):
    return cur().decide(self)

  def negated(self):
    return SymBool(self.poly, {'<': '>=', '<=': '>', '==': '!=', '!=': '==',
                               '>': '<=', '>=': '<'}[self.op])

  def __eq__(self, other):
    return bool(self) == other

  def __ne__(self, other):
    return bool(self) != other

  def __hash__(self):
    return hash((pkey(self.poly), self.op))

  def __invert__(self):
    return not bool(self)

  def __and__(self, other):
    return bool(self) and bool(other)
  __rand__ = __and__

  def __or__(self, other):
    return bool(self) or bool(other)
  __ror__ = __or__

  def __xor__(self, other):
    return bool(self) != bool(other)
  __rxor__ = __xor__

  def __int__(self):
    return int(bool(self))

  def __index__(self):
    return int(bool(self))

  def __float__(self):
    return float(bool(self))

  def __add__(self, o):
    return int(bool(self)) + o
  __radd__ = __add__

  def __mul__(self, o):
    return int(bool(self)) * o
  __rmul__ = __mul__

  def __sub__(self, o):
    return int(bool(self)) - o

  def __rsub__(self, o):
    return o - int(bool(self))

  def z3(self, eng):
    e = eng.to_z3(self.poly)
    z = z3.RealVal(0)
    return {'<': e < z, '<=': e <= z, '==': e == z, '!=': e != z,
            '>': e > z, '>=': e >= z}[self.op]


def mkcond(poly, op):
  if pisconst(poly):
    c = pconstval(poly)
    return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0,
            '>': c > 0, '>=': c >= 0}[op]
  s = cur().quicksign(poly) or cur().interval_sign(poly)
  if s is not None:
    lo, hi = s  # e.g. (0+, None): strictly positive etc.
    if lo == '>':
      return op in ('>', '>=', '!=')
    if lo == '<':
      return op in ('<', '<=', '!=')
    if lo == '>=' and op in ('>=', '<'):
      return op == '>='
    if lo == '<=' and op in ('<=', '>'):
      return op == '<='
  return SymBool(poly, op)


def isnum(x):
  return isinstance(x, (int, float, Fraction)) or \
      (isinstance(x, numbers.Real) and not isinstance(x, SymReal))


def _iscx(x):
  return isinstance(x, (complex, SymComplex)) or \
      (isinstance(x, numbers.Complex) and not isinstance(x, (numbers.Real, SymReal)))


class SymReal:
  """ num / prod(den) with den factors positive under the path condition """
  __slots__ = ('num', 'den', 'isint')

  def __init__(self, num, den=(), isint=False):
    self.num = num
    self.den = den
    self.isint = isint

  # numpy-scalar-like attributes
  ndim = 0
  size = 1
  shape = ()

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return 0.

  @property
  def T(self):
    return self

  def conjugate(self):
    return self

  def item(self):
    return self

  def tolist(self):
    return self

  def copy(self):
    return self

  def sum(self, *a, **k):
    return self

  def prod(self, *a, **k):
    return self

  def max(self, *a, **k):
    return self
  min = max

  def astype(self, dtype, *a, **k):
    from symx import shim
    return shim.cast_scalar(self, dtype)

  def is_integer(self):
    if self.isint:
      return True
    return self == self.floor()

  def reshape(self, *shape):
    import numpy as np
    a = np.empty((), dtype=object)
    a[()] = self
    return a.reshape(*shape)

  def ravel(self):
    return self.reshape(1)

  # -- construction helpers
  @staticmethod
  def const(c):
    return SymReal(pconst(frac(c)))

  @staticmethod
  def lift(x):
    if isinstance(x, SymReal):
      return x
    if isinstance(x, SymBool):
      return SymReal.const(int(bool(x)))
    return SymReal.const(x)

  def isconst(self):
    return not self.den and pisconst(self.num)

  def constval(self):
    return pconstval(self.num)

  def _ret(self):
    if self.isconst():
      c = self.constval()
      if self.isint and c.denominator == 1:
        return int(c)
      return tofloat(c)
    return self

  # -- arithmetic
  def __add__(self, o):
    if _iscx(o):
      return SymComplex(self, 0.) + o
    o = _num(o)
    if o is NotImplemented:
      return o
    if isinstance(o, float):  # inf/nan
      return o
    if self.den == o.den:
      return _mk(padd(self.num, o.num), self.den, self.isint and o.isint)
    den, fa, fb = _lcm(self.den, o.den)
    num = padd(_pm(self.num, fa), _pm(o.num, fb))
    return _mk(num, den)
  __radd__ = __add__

  def __neg__(self):
    return SymReal(pneg(self.num), self.den, self.isint)

  def __pos__(self):
    return self

  def __sub__(self, o):
    if _iscx(o):
      return SymComplex(self, 0.) - o
    o = _num(o)
    if o is NotImplemented:
      return o
    if isinstance(o, float):
      return -o
    return self + (-o)

  def __rsub__(self, o):
    return (-self) + o

  def __mul__(self, o):
    if _iscx(o):
      return SymComplex(self, 0.) * o
    o = _num(o)
    if o is NotImplemented:
      return o
    if isinstance(o, float):
      return _mulinf(self, o)
    isint = self.isint and o.isint
    if not self.den and not o.den:
      return _mk(pmul(self.num, o.num), (), isint)
    an, bd = _cancel(self.num, o.den)
    bn, ad = _cancel(o.num, self.den)
    return _mk(pmul(an, bn), _dmul(ad, bd))
  __rmul__ = __mul__

  def recip(self):
    """ 1/self, forking on its sign; ZeroDivision modelled as +-inf/nan by callers """
    if pisconst(self.num):
      c = pconstval(self.num)
      if not c:
        return None
      num = {ONE_M: 1 / c}
      for d in self.den:
        num = pmul(num, d)
      return SymReal(num)
    sgn = mkcond(self.num, '>')
    if not sgn:
      if mkcond(self.num, '=='):
        return None
      num = {ONE_M: Fraction(-1)}
      base = pneg(self.num)
    else:
      num = {ONE_M: Fraction(1)}
      base = self.num
    for d in self.den:
      num = pmul(num, d)
    num, den = _cancel(num, _factor(base))
    return _mk(num, den)

  def __truediv__(self, o):
    if _iscx(o):
      return SymComplex(self, 0.) / o
    o = _num(o)
    if o is NotImplemented:
      return o
    if isinstance(o, float):
      return 0. if o == o else o
    if o is self or (o.num == self.num and o.den == self.den):
      if o.isconst() and not o.constval():
        return float('nan')
      if not o.isconst() and mkcond(o.num, '=='):
        return float('nan')
      return 1.
    r = o.recip()
    if r is None:
      return _divzero(self)
    return self * r

  def __rtruediv__(self, o):
    if _iscx(o):
      return o / SymComplex(self, 0.)
    o = _num(o)
    if o is NotImplemented:
      return o
    if isinstance(o, float):
      return o if (self > 0) else -o
    return o / self

  def __pow__(self, e):
    if isinstance(e, SymReal):
      if e.isconst():
        e = e.constval()
      else:
        if self.isconst() and not self.isint:
          pass
        return (e * self.log()).exp() if self > 0 else _powz(self, e)
    e_f = Fraction(e) if not isinstance(e, float) else (
        Fraction(int(e)) if float(e).is_integer() else Fraction(e))
    if e_f.denominator == 1:
      n = int(e_f)
      if n == 0:
        return 1. if not self.isint else 1
      base = self if n > 0 else (1. / self)
      r = base
      for _ in range(abs(n) - 1):
        r = r * base
      return r
    if e_f == Fraction(1, 2):
      return self.sqrt()
    if e_f == Fraction(-1, 2):
      return 1. / self.sqrt()
    return (self.log() * e_f).exp()

  def __rpow__(self, base):
    if isnum(base) and base > 0:
      return (self * math.log(base)).exp()
    raise Unsupported("power with symbolic exponent")

  def __abs__(self):
    return self if self >= 0 else -self

  def __floordiv__(self, o):
    return (self / o).floor() if isinstance(self / o, SymReal) else math.floor(self / o)

  def __rfloordiv__(self, o):
    return SymReal.lift(o) // self

  def __mod__(self, o):
    q = self // o
    return self - q * o

  def __rmod__(self, o):
    return SymReal.lift(o) % self

  def __divmod__(self, o):
    q = self // o
    return q, self - q * o

  # -- comparisons
  def _cmp(self, o, op):
    if isinstance(o, (complex, SymComplex)):
      if op in ('==', '!='):
        im = o.imag
        same = (im == 0)
        if not same:
          return op == '!='
        return self._cmp(o.real, op)
      return NotImplemented
    o = _num(o)
    if o is NotImplemented:
      return o
    if isinstance(o, float):
      if o != o:
        return op == '!='
      pos = o > 0
      return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
    d = self - o
    if not isinstance(d, SymReal):
      return {'<': d < 0, '<=': d <= 0, '==': d == 0, '!=': d != 0,
              '>': d > 0, '>=': d >= 0}[op]
    eng = cur()
    num = eng.strip(d.num)
    if eng.keeplinear(num):
      return mkcond(num, op)
    p = eng.takelog(num)
    if p is not None:
      return mkcond(p, op)
    p = eng.delog(num)
    return mkcond(p, op)

  def __lt__(self, o):
    return self._cmp(o, '<')

  def __le__(self, o):
    return self._cmp(o, '<=')

  def __gt__(self, o):
    return self._cmp(o, '>')

  def __ge__(self, o):
    return self._cmp(o, '>=')

  def __eq__(self, o):
    return self._cmp(o, '==')

  def __ne__(self, o):
    return self._cmp(o, '!=')

  def __hash__(self):
    return hash(self.key())

  def key(self):
    return (pkey(self.num), tuple(pkey(d) for d in self.den))

  def __bool__(self):
    return bool(self != 0)

  # -- conversions
  def __float__(self):
    if self.isconst():
      return float(self.constval())
    raise TypeError("symbolic value cannot be converted to a concrete float")

  def __complex__(self):
    raise TypeError("symbolic value cannot be converted to a concrete complex")

  def __index__(self):
    if not self.isint:
      raise TypeError("symbolic real is not an index")
    return cur().concretise_int(self)

  def __int__(self):
    if self.isint:
      return cur().concretise_int(self)
    return cur().concretise_int(self.trunc())

  def __trunc__(self):
    return self.trunc()

  def __floor__(self):
    return self.floor()

  def __ceil__(self):
    return self.ceil()

  def __round__(self, n=None):
    return self.rint()

  # -- functions numpy's object loops look up by name
  def log(self):
    eng = cur()
    if not (self > 0):
      return float('-inf') if (self == 0) else float('nan')
    return eng.mklog(self)

  def exp(self):
    return cur().mkexp(self)

  def expm1(self):
    return self.exp() - 1

  def log1p(self):
    return (self + 1).log() if isinstance(self + 1, SymReal) else math.log(self + 1)

  def log2(self):
    return self.log() / math.log(2.)

  def log10(self):
    return self.log() / math.log(10.)

  def exp2(self):
    return (self * math.log(2.)).exp()

  def square(self):
    return self * self

  def reciprocal(self):
    return 1. / self

  def sign(self):
    if self > 0:
      return 1.
    return 0. if self == 0 else -1.

  def fabs(self):
    return abs(self)
  absolute = fabs

  def sqrt(self):
    if self < 0:
      return float('nan')
    return cur().mksqrt(self)

  def floor(self):
    if self.isint:
      return self
    return cur().mkfloor(self)

  def ceil(self):
    return -((-self).floor())

  def trunc(self):
    if self.isint:
      return self
    return self.floor() if self >= 0 else self.ceil()

  def rint(self):
    if self.isint:
      return self
    f = self.floor()
    d = self - f
    if d < 0.5:
      return f
    if d > 0.5:
      return f + 1
    return f if (f % 2 == 0) else f + 1

  def logical_not(self):
    return not bool(self)

  def isfinite(self):
    return True

  # -- text
  def __repr__(self):
    return cur().strval(self) if CUR is not None else '<sym>'
  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self


numbers.Number.register(SymReal)


class SymComplex:
  """ Complex with symbolic parts (log-scale offsets) """
  __slots__ = ('re', 'im')

  def __init__(self, re, im=0.):
    self.re = re
    self.im = im

  @property
  def real(self):
    return self.re

  @property
  def imag(self):
    return self.im

  def conjugate(self):
    return SymComplex(self.re, -self.im)

  def __add__(self, o):
    return mkcomplex(self.re + o.real, self.im + o.imag)
  __radd__ = __add__

  def __neg__(self):
    return mkcomplex(-self.re, -self.im)

  def __sub__(self, o):
    return mkcomplex(self.re - o.real, self.im - o.imag)

  def __rsub__(self, o):
    return mkcomplex(o.real - self.re, o.imag - self.im)

  def __mul__(self, o):
    a, b, c, d = self.re, self.im, o.real, o.imag
    if isnum(d) and d == 0:
      return mkcomplex(a * c, b * c)
    return mkcomplex(a * c - b * d, a * d + b * c)
  __rmul__ = __mul__

  def __truediv__(self, o):
    c, d = o.real, o.imag
    if isnum(d) and d == 0:
      return mkcomplex(self.re / c, self.im / c)
    n = c * c + d * d
    return self * mkcomplex(c, -d) * mkcomplex(1. / n, 0.)

  def __rtruediv__(self, o):
    return mkcomplex(o.real, o.imag) / self

  def __eq__(self, o):
    if not hasattr(o, 'real') or isinstance(o, str):
      return False
    return bool(self.re == o.real) and bool(self.im == o.imag)

  def __ne__(self, o):
    return not self.__eq__(o)

  def __hash__(self):
    return hash((hash(self.re), hash(self.im)))

  def __bool__(self):
    return bool(self.re != 0) or bool(self.im != 0)

  def __abs__(self):
    n = self.re * self.re + self.im * self.im
    return n.sqrt() if isinstance(n, SymReal) else math.sqrt(n)

  def exp(self):
    if not (isnum(self.im) and self.im == 0):
      raise Unsupported("complex exponential")
    e = self.re.exp() if isinstance(self.re, SymReal) else math.exp(self.re)
    return mkcomplex(e, 0.)

  def __repr__(self):
    return '({}+{}j)'.format(self.re, self.im)

  def __format__(self, spec):
    return repr(self)

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __complex__(self):
    raise TypeError("symbolic complex")


numbers.Number.register(SymComplex)


def mkcomplex(re, im):
  if isinstance(re, (SymReal,)) or isinstance(im, SymReal):
    return SymComplex(re, im)
  return complex(re, im)


def tofloat(c):
  try:
    return float(c)
  except OverflowError:
    return math.inf if c > 0 else -math.inf


def _powz(base, e):
  if base == 0:
    return 0.
  raise Unsupported("negative base with symbolic exponent")


def _num(o):
  if isinstance(o, SymReal):
    return o
  if isinstance(o, SymBool):
    return SymReal.const(int(bool(o)))
  if isinstance(o, bool):
    return SymReal({ONE_M: Fraction(1)} if o else {}, (), True)
  if isinstance(o, int):
    return SymReal(pconst(Fraction(o)), (), True)
  if isinstance(o, Fraction):
    return SymReal(pconst(o))
  if isinstance(o, float):
    f = float(o)
    if f != f or f in (math.inf, -math.inf):
      return f
    return SymReal(pconst(frac(f)))
  if isinstance(o, numbers.Real):
    if isinstance(o, numbers.Integral):
      return SymReal(pconst(Fraction(int(o))), (), True)
    f = float(o)
    if f != f or f in (math.inf, -math.inf):
      return f
    return SymReal(pconst(frac(f)))
  try:
    import numpy as np
    if isinstance(o, np.bool_):
      return SymReal.const(int(o))
  except ImportError:
    pass
  return NotImplemented


def _mulinf(s, inf):
  if inf != inf:
    return inf
  if s > 0:
    return inf
  if s == 0:
    return float('nan')
  return -inf


def _divzero(s):
  # numpy float semantics
  if s > 0:
    return math.inf
  if s == 0:
    return math.nan
  return -math.inf


def _factor(p):
  """ Split monomial content off so that it can cancel """
  if len(p) == 1:
    (m, c), = p.items()
    out = []
    for k, e in m:
      f = {((k, 1),): Fraction(1)}
      out.extend([f] * e)
    if c != 1 or not out:
      out.append({ONE_M: c})
    return _dnorm(tuple(out))
  return _dnorm((p,))


def _dnorm(den):
  c = Fraction(1)
  out = []
  for d in den:
    if pisconst(d):
      c *= pconstval(d)
    else:
      out.append(d)
  out.sort(key=pkey)
  if c != 1:
    out.insert(0, {ONE_M: c})
  return tuple(out)


def _dmul(a, b):
  if not a:
    return b
  if not b:
    return a
  return _dnorm(a + b)


def _pm(p, factors):
  for f in factors:
    p = pmul(p, f)
  return p


def _lcm(a, b):
  """ common denominator and the factors each numerator must be multiplied by """
  rest_b = list(b)
  fa, fb = [], []
  common = []
  for d in a:
    if d in rest_b:
      rest_b.remove(d)
      common.append(d)
    else:
      fb.append(d)
  fa = rest_b
  return _dnorm(tuple(common + fb + fa)), fa, fb


def _cancel(num, den):
  """ cancel factors of den that divide num """
  if not den or not num:
    return num, (den if num else ())
  out = []
  for d in den:
    if pisconst(d):
      num = pscale(num, 1 / pconstval(d))
      continue
    q = pdivexact(num, d)
    if q is not None:
      num = q
    else:
      out.append(d)
  return num, tuple(out)


def _mk(num, den, isint=False):
  if not num:
    return 0 if isint else 0.
  if den:
    num, den = _cancel(num, den)
  if not den and pisconst(num):
    c = pconstval(num)
    if isint and c.denominator == 1:
      return int(c)
    f = tofloat(c)
    return f
  return SymReal(num, den, isint)


# ----------------------------------------------------------------------- engine
class Atom:
  __slots__ = ('idx', 'name', 'z', 'kind', 'lo', 'hi', 'nice', 'arg', 'isint', 'axioms', 'deps')

  def __init__(self, idx, name, z, kind, lo, hi, nice, arg, isint):
    self.idx, self.name, self.z, self.kind = idx, name, z, kind
    self.lo, self.hi, self.nice, self.arg, self.isint = lo, hi, nice, arg, isint
    self.axioms = []
    self.deps = ()


class Stats:
  def __init__(self):
    self.queries = 0
    self.solver_s = 0.
    self.unsat = 0
    self.sat = 0
    self.unknown = 0
    self.paths = 0
    self.asserts = 0
    self.trivial = 0
    self.forks = 0

  def asdict(self):
    return dict(self.__dict__)


class Engine:
  """ Explores every feasible path of one scenario """

  def __init__(self, timeout_ms=8000, max_paths=4000, deadline=None):
    self.timeout_ms = timeout_ms
    self.max_paths = max_paths
    self.deadline = deadline
    self.stats = Stats()
    self.atoms = []
    self.byname = {}
    self.zcache = {}
    self.lincache = {}
    self.reset_path([])

  # -- path management
  def reset_path(self, prefix):
    self.prefix = prefix
    self.trace = []
    self.expunits = {}     # EXP atoms by the direction of their argument
    self.pc = []           # list of SymBool (or z3 BoolRef) constraints
    self.pcz = []
    self.pending = []
    self.drawn = []
    self.logatoms = []
    self.expatoms = []
    self.defs = []         # atom indices with definitional axioms used on this path
    self.seen_names = {}
    self.uf_apps = {}
    self.random_n = 0
    self.strs = {}
    self.known = {}

  # -- atoms
  def atom(self, name, kind='in', lo=None, hi=None, nice=None, arg=None, isint=False,
           axioms=None):
    a = self.byname.get(name)
    if a is None:
      z = z3.Int(name) if isint else z3.Real(name)
      a = Atom(len(self.atoms), name, z, kind, lo, hi, nice, arg, isint)
      self.atoms.append(a)
      self.byname[name] = a
      zz = z3.ToReal(z) if isint else z
      if lo is not None:
        a.axioms.append(zz >= zval(lo))
      if hi is not None:
        a.axioms.append(zz <= zval(hi))
      if axioms:
        a.axioms.extend(axioms(zz))
    return a

  def sym(self, a):
    return SymReal({((a.idx, 1),): Fraction(1)}, (), a.isint)

  # -- z3 translation
  def to_z3(self, poly):
    k = pkey(poly)
    e = self.zcache.get(k)
    if e is None:
      terms = []
      for m, c in poly.items():
        t = None
        for i, ex in m:
          az = self.atoms[i]
          z = z3.ToReal(az.z) if az.isint else az.z
          for _ in range(ex):
            t = z if t is None else t * z
        cz = zval(c)
        terms.append(cz if t is None else (t if c == 1 else cz * t))
      e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
      self.zcache[k] = e
    return e

  def sym_z3(self, s):
    """ num z3, den z3 (den positive) """
    if isnum(s):
      return zval(frac(s)), None
    n = self.to_z3(s.num)
    d = None
    for f in s.den:
      fz = self.to_z3(f)
      d = fz if d is None else d * fz
    return n, d

  def atoms_in(self, polys):
    seen = set()
    todo = list(polys)
    while todo:
      p = todo.pop()
      for m in p:
        for i, _ in m:
          if i not in seen:
            seen.add(i)
            arg = self.atoms[i].arg
            if arg is not None:
              for s in (list(arg) if isinstance(arg, (list, tuple)) else [arg]) + \
                  list(self.atoms[i].deps):
                if isinstance(s, SymReal):
                  todo.append(s.num)
                  todo.extend(s.den)
    return seen

  def axioms_for(self, idxs):
    out = []
    logs, exps = [], []
    for i in sorted(idxs):
      a = self.atoms[i]
      out.extend(a.axioms)
      if a.kind == 'log':
        logs.append(a)
      elif a.kind == 'exp':
        exps.append(a)
    for grp, sign in ((logs, 1), (exps, 1)):
      for i, a in enumerate(grp):
        for b in grp[i + 1:]:
          d = a.arg - b.arg
          if isinstance(d, SymReal):
            dz = self.to_z3(self.delog(d.num) if a.kind == 'exp' else d.num)
            out.append(z3.And(z3.Implies(dz < 0, a.z < b.z),
                              z3.Implies(dz > 0, a.z > b.z),
                              z3.Implies(dz == 0, a.z == b.z)))
    return out

  def quicksign(self, poly):
    """ sign of a polynomial from atom bounds alone, when obvious """
    pos = neg = True
    strict_pos = strict_neg = False
    for m, c in poly.items():
      s = 1 if c > 0 else -1
      strict = True
      for i, e in m:
        a = self.atoms[i]
        if a.lo is not None and a.lo > 0:
          continue
        if a.hi is not None and a.hi < 0:
          if e % 2:
            s = -s
          continue
        strict = False
        if e % 2 == 0:
          continue
        if a.lo is not None and a.lo >= 0:
          continue
        if a.hi is not None and a.hi <= 0:
          s = -s
          continue
        return None
      if s > 0:
        neg = False
        strict_pos = strict_pos or strict
      else:
        pos = False
        strict_neg = strict_neg or strict
      if not pos and not neg:
        return None
    if pos:
      return ('>' if strict_pos else '>=', None)
    if neg:
      return ('<' if strict_neg else '<=', None)
    return None

  def interval_sign(self, poly):
    """ sign by interval arithmetic over the atoms' declared bounds """
    lo = hi = Fraction(0)
    for m, c in poly.items():
      l = h = c
      for i, e in m:
        a = self.atoms[i]
        if a.lo is None or a.hi is None or a.kind == 'exp':
          if a.lo is not None and a.lo >= 0 and a.kind != 'exp':
            al, ah = a.lo, None
          else:
            return None
        else:
          al, ah = a.lo, a.hi
        for _ in range(e):
          if ah is None:
            if l is not None and l >= 0:
              l, h = l * frac(al), None
            else:
              return None
          elif h is None:
            if frac(al) >= 0 and l >= 0:
              l, h = l * frac(al), None
            else:
              return None
          else:
            c4 = (l * frac(al), l * frac(ah), h * frac(al), h * frac(ah))
            l, h = min(c4), max(c4)
      lo = None if lo is None or l is None else lo + l
      hi = None if hi is None or h is None else hi + h
      if lo is None:
        return None
    if lo > 0:
      return ('>', None)
    if hi is not None and hi < 0:
      return ('<', None)
    if lo >= 0:
      return ('>=', None)
    if hi is not None and hi <= 0:
      return ('<=', None)
    return None

  # -- queries
  def solve(self, extra, extra_polys=(), timeout=None, want_model=False, nice=False,
            light=False):
    """ extra: list of z3 constraints; returns (result, model) """
    if self.deadline is not None and time.time() > self.deadline:
      raise Budget("time budget")
    if light:  # valid without any assumption: skip the path condition
      t0 = time.time()
      s = z3.Solver()
      s.set('timeout', self.timeout_ms)
      s.add(list(extra))
      r = s.check()
      if r == z3.unsat:
        self.stats.queries += 1
        self.stats.unsat += 1
        self.stats.solver_s += time.time() - t0
        return r, None
    polys = [c.poly for c in self.pc if isinstance(c, SymBool)] + list(extra_polys)
    idxs = self.atoms_in(polys)
    for g in self.defs:
      idxs |= self.atoms_in([{((g, 1),): Fraction(1)}])
    ax = self.axioms_for(idxs)
    if nice:
      for i in sorted(idxs):
        a = self.atoms[i]
        if a.nice is not None:
          z = z3.ToReal(a.z) if a.isint else a.z
          ax.append(z >= zval(a.nice[0]))
          ax.append(z <= zval(a.nice[1]))
    t0 = time.time()
    anyint = any(self.atoms[i].isint for i in idxs)
    cons = ax + self.pcz + list(extra)
    r, m = None, None
    if any(self.atoms[i].kind == 'max' for i in idxs):
      # the linear part alone usually settles what a maximum is compared with
      s = z3.Solver()
      s.set('timeout', 2000)
      s.add([c for c in cons if self.linear(c)])
      if s.check() == z3.unsat:
        self.stats.queries += 1
        self.stats.unsat += 1
        self.stats.solver_s += time.time() - t0
        return z3.unsat, None
    plans = ['smt', 'nlsat'] if anyint else ['nlsat', 'smt']
    lim = timeout or self.timeout_ms
    for n, plan in enumerate(plans):
      s = z3.Solver() if plan == 'smt' else z3.SolverFor('QF_NRA')
      s.set('timeout', int(lim if n == 0 else lim))
      s.add(cons)
      r = s.check()
      if r != z3.unknown:
        if r == z3.sat and want_model:
          m = s.model()
        break
    self.stats.queries += 1
    self.stats.solver_s += time.time() - t0
    if r == z3.unsat:
      self.stats.unsat += 1
    elif r == z3.sat:
      self.stats.sat += 1
    else:
      self.stats.unknown += 1
    return r, m

  def linear(self, e):
    k = e.get_id()
    v = self.lincache.get(k)
    if v is not None:
      return v[0]
    if z3.is_mul(e):
      n = [c for c in e.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))]
      v = len(n) <= 1 and all(self.linear(c) for c in n)
    elif z3.is_div(e) or (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER):
      v = z3.is_div(e) and z3.is_rational_value(e.arg(1)) and self.linear(e.arg(0))
    else:
      v = all(self.linear(c) for c in e.children())
    self.lincache[k] = (v, e)
    return v

  def assert_pc(self, cond):
    """ add a condition known/assumed on this path """
    if isinstance(cond, bool):
      if not cond:
        raise PathAbort()
      return
    if isinstance(cond, SymBool):
      self.pc.append(cond)
      self.pcz.append(cond.z3(self))
      self.known[(pkey(cond.poly), cond.op)] = True
      n = cond.negated()
      self.known[(pkey(n.poly), n.op)] = False

  underflow = False

  def truth(self, cond):
    return cond if isinstance(cond, bool) else self.decide(cond)

  def decide(self, cond):
    """ Truth of a symbolic condition on this path, forking where both hold """
    key = (pkey(cond.poly), cond.op)
    k = self.known.get(key)
    if k is not None:
      return k
    i = len(self.trace)
    if i < len(self.prefix):
      val = self.prefix[i]
      self.trace.append(val)
      self.assert_pc(cond if val else cond.negated())
      self.known[key] = val
      return val
    neg = cond.negated()
    rt, _ = self.solve([cond.z3(self)], [cond.poly])
    if rt == z3.unsat:
      val, other = False, False
    else:
      rf, _ = self.solve([neg.z3(self)], [cond.poly])
      val, other = True, rf != z3.unsat
    if other:
      self.stats.forks += 1
      self.pending.append(self.trace + [not val])
    self.trace.append(val)
    self.assert_pc(cond if val else neg)
    self.known[key] = val
    return val

  def choose(self, n, label='choice'):
    """ an enumerated structural choice: forks n ways """
    for k in range(n - 1):
      i = len(self.trace)
      if i < len(self.prefix):
        val = self.prefix[i]
      else:
        val = True
        self.pending.append(self.trace + [False])
      self.trace.append(val)
      if val:
        return k
    return n - 1

  def concretise_int(self, s):
    if s.isconst():
      return int(s.constval())
    key = ('int', s.key())
    if key in self.known:
      return self.known[key]
    for _ in range(64):
      r, m = self.solve([], [s.num] + list(s.den), want_model=True)
      if r == z3.unsat:
        raise PathAbort()
      if r != z3.sat:
        raise Unsupported("cannot enumerate integer values")
      n, d = self.sym_z3(s)
      v = m.eval(n if d is None else n / d, model_completion=True)
      v = int(Fraction(v.numerator_as_long(), v.denominator_as_long()))
      # replays must pick the same candidate: derive it from the least feasible value
      v = self._least(s, v)
      if s == v:
        self.known[key] = v
        return v
    raise Unsupported("integer range too wide to enumerate")

  def _least(self, s, v):
    n, d = self.sym_z3(s)
    e = n if d is None else n / d
    while True:
      r, m = self.solve([e < v], [s.num] + list(s.den), want_model=True)
      if r != z3.sat:
        return v
      x = m.eval(e, model_completion=True)
      nv = int(Fraction(x.numerator_as_long(), x.denominator_as_long()))
      if nv >= v or v - nv > 10 ** 6:
        return v
      v = nv

  # -- transcendental functions
  def strip(self, p):
    """ drop common positive factors: the sign is unaffected """
    com = None
    for m in p:
      f = {i: e for i, e in m if self.atoms[i].lo is not None and self.atoms[i].lo > 0}
      com = f if com is None else {i: min(e, f[i]) for i, e in com.items() if i in f}
      if not com:
        return p
    return {tuple((i, e - com.get(i, 0)) for i, e in m if e - com.get(i, 0)): c
            for m, c in p.items()}

  def keeplinear(self, p):
    """ linear combinations of logs with a maximum (or with modelled underflow)
    are compared as they stand """
    anylog = anymax = False
    for m in p:
      if m:
        if len(m) != 1 or m[0][1] != 1:
          return False
        k = self.atoms[m[0][0]].kind
        anylog = anylog or k == 'log'
        anymax = anymax or k == 'max'
    return anymax or (anylog and self.underflow)

  def takelog(self, p):
    """ sign of (positive product) - constant through logarithms """
    ex = [self.atoms[i] for m in p for i, _ in m if self.atoms[i].kind == 'exp']
    if not ex or not (self.underflow or any(self.hasmax(a) for a in ex)):
      return None
    if not all(self.atoms[i].lo is not None and self.atoms[i].lo > 0 for m in p for i, _ in m):
      return None
    pos = {m: c for m, c in p.items() if c > 0}
    neg = {m: -c for m, c in p.items() if c < 0}
    if not pos or not neg:
      return None

    def lg(q):
      return flog(q[()]) if set(q) == {()} else self.mklog(SymReal(q))
    d = lg(pos) - lg(neg)
    if not isinstance(d, SymReal):
      return pconst(frac(d))
    return None if d.den else d.num

  def hasmax(self, a):
    return isinstance(a.arg, SymReal) and \
        any(self.atoms[i].kind == 'max' for m in a.arg.num for i, _ in m)

  def mkmax(self, items):
    """ maximum of symbolic reals as one atom """
    keys = sorted(self.keyname(x) for x in items)
    name = 'MAX!' + ','.join(keys)
    a = self.byname.get(name)
    if a is None:
      b = [self.bounds(x.num) for x in items]
      lo = None if any(x[0] is None for x in b) else max(x[0] for x in b)
      hi = None if any(x[1] is None for x in b) else max(x[1] for x in b)

      def ax(z):
        es = [self.to_z3(x.num) for x in items]
        return [z >= e for e in es] + [z3.Or([z == e for e in es])]
      a = self.atom(name, 'max', lo, hi, arg=list(items), axioms=ax)
    self.defs.append(a.idx)
    return self.sym(a)

  def bounds(self, poly):
    """ (lo, hi) of a linear polynomial from the atoms' bounds """
    lo = hi = Fraction(0)
    for m, c in poly.items():
      if not m:
        l = h = c
      elif len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind != 'exp':
        a = self.atoms[m[0][0]]
        l = None if a.lo is None else c * frac(a.lo)
        h = None if a.hi is None else c * frac(a.hi)
        if c < 0:
          l, h = h, l
      else:
        return None, None
      lo = None if lo is None or l is None else lo + l
      hi = None if hi is None or h is None else hi + h
    return lo, hi

  def delog(self, p):
    """ rewrite the sign of a polynomial linear in LOG atoms as the sign of a
    log-free one: sum(c_i LOG t_i) + r <> 0  <=>  prod(t_i^c_i) e^r <> 1 """
    logs = {}
    rest = Fraction(0)
    other = {}
    for m, c in p.items():
      if not m:
        rest = c
      elif len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log' \
          and c.denominator == 1 and abs(c) <= 8:
        logs[m[0][0]] = int(c)
      else:
        other[m] = c
    if not logs:
      return p
    if other:
      # LOG(t) - x  with x free: compare t with EXP(x) when everything else is one EXP-able term
      e = self.mkexp(SymReal(padd(other, pconst(rest))))
      val = e
    else:
      val = SymReal.const(exprat(rest))
    for i, c in logs.items():
      t = self.atoms[i].arg
      for _ in range(abs(c)):
        val = val * t if c > 0 else val / t
    d = val - 1
    if not isinstance(d, SymReal):
      return pconst(frac(d))
    return d.num

  def mklog(self, s):
    """ LOG of a positive symbolic real """
    add = 0.
    if len(s.num) == 1:
      (m, c), = s.num.items()
      keep = []
      for i, e in m:
        a = self.atoms[i]
        if a.kind == 'exp':
          add = add + a.arg * e
        else:
          keep.append((i, e))
      if len(keep) != len(m):
        s2 = _mk({tuple(keep): c}, s.den)
        if isinstance(s2, SymReal):
          return s2.log() + add
        return math.log(s2) + add
    elif not s.den:
      # a common exponential factor comes out of the log
      com = None
      for m in s.num:
        f = {i: e for i, e in m if self.atoms[i].kind == 'exp'}
        com = f if com is None else {i: min(e, f[i]) for i, e in com.items() if i in f}
        if not com:
          break
      if com:
        num = {}
        for m, c in s.num.items():
          num[tuple((i, e - com.get(i, 0)) for i, e in m if e - com.get(i, 0))] = c
        for i, e in com.items():
          add = add + self.atoms[i].arg * e
        s2 = _mk(num, ())
        return (self.mklog(s2) if isinstance(s2, SymReal) else math.log(s2)) + add
    # normal form: logs of products are sums of logs
    def pos(p):
      q = self.quicksign(p)
      return q is not None and q[0] == '>'
    if s.den and all(pos(d) for d in s.den):
      r = self.mklog(SymReal(s.num))
      for d in s.den:
        r = r - self.mklog(SymReal(d))
      return r + add
    if not s.den and len(s.num) == 1:
      (m, c), = s.num.items()
      if (len(m) > 1 or (m and m[0][1] > 1) or (m and c != 1)) and c > 0 and \
          all(self.atoms[i].lo is not None and self.atoms[i].lo > 0 for i, _ in m):
        r = 0.
        for i, e in m:
          r = r + e * self.mklog(self.sym(self.atoms[i]))
        if c != 1:
          r = r + self.mklog(SymReal(pconst(c)))
        return r + add
    if not s.den and len(s.num) > 1:
      c = s.num[_lead(s.num)]
      if c > 0 and c != 1:
        q = {m: x / c for m, x in s.num.items()}
        return self.mklog(SymReal(q)) + self.mklog(SymReal(pconst(c))) + add
    name = 'LOG!' + self.keyname(s)
    a = self.byname.get(name)
    if a is None:
      n, d = self.sym_z3(s)
      d = d if d is not None else z3.RealVal(1)
      lo = hi = None
      if not s.den and len(s.num) == 1:
        (m, c), = s.num.items()
        if not m:
          lo = hi = flog(c)
        elif len(m) == 1 and m[0][1] == 1 and c == 1:
          b = self.atoms[m[0][0]]
          lo = flog(frac(b.lo)) if b.lo is not None and b.lo > 0 and b.kind != 'exp' else None
          hi = flog(frac(b.hi)) if b.hi is not None and b.hi > 0 and b.kind != 'exp' else None
        lo = None if lo is None else frac(lo - 1e-9)
        hi = None if hi is None else frac(hi + 1e-9)

      # a sum exceeds each of its positive terms
      terms = []
      if not s.den and 1 < len(s.num) <= 16 and pos(s.num) and all(
          c > 0 and all(self.atoms[i].lo is not None and self.atoms[i].lo > 0
                        for i, _ in m) for m, c in s.num.items()):
        for m, c in s.num.items():
          t = SymReal.const(flog(c)) if not m else self.mklog(SymReal({m: c}))
          if isinstance(t, SymReal) and not t.den:
            terms.append(t)

      def ax(z):
        return [z3.Implies(n < d, z < 0), z3.Implies(n > d, z > 0),
                z3.Implies(n == d, z == 0), z * d <= n - d] + \
            [z >= self.to_z3(t.num) for t in terms]
      a = self.atom(name, 'log', lo, hi, arg=s, axioms=ax)
      a.deps = tuple(terms)
    return self.sym(a)

  def mkexp(self, s):
    """ EXP of a symbolic real: logs are folded back, constants evaluated """
    if s.den:
      return self._expatom(s)
    s = self.squares(s)
    if not isinstance(s, SymReal):
      return math.exp(s)
    if s.den:
      return self._expatom(s)
    if self.underflow:
      # floating-point range of exp(), compared without rewriting the logs
      if self.truth(mkcond(padd(s.num, pconst(frac(745.2))), '<')):
        return 0.
      if self.truth(mkcond(padd(s.num, pconst(frac(-709.75))), '>')):
        return math.inf
    const = Fraction(0)
    rest = {}
    val = 1.
    prods = []
    for m, c in s.num.items():
      if not m:
        const = c
      elif len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log' \
          and c.denominator == 1 and abs(c) <= 64:
        prods.append((self.atoms[m[0][0]].arg, int(c)))
      else:
        rest[m] = c
    if const < -100000:
      return 0.
    if const > 100000:
      return math.inf
    for t, c in prods:
      for _ in range(abs(c)):
        val = val * t if c > 0 else val / t
    if const:
      val = val * exprat(const)
    if rest:
      val = val * self._expatom(SymReal(rest))
    if isinstance(val, Fraction):
      val = float(val)
    return val

  def _expatom(self, s):
    # canonical sign so that EXP(-x) = 1/EXP(x)
    lead = min(s.num)
    if s.num[lead] < 0:
      return 1. / self._expatom(-s)
    name = 'EXP!' + self.keyname(s)
    a = self.byname.get(name)
    if a is None and not s.den:
      # EXP(k x) = EXP(x)^k
      c = s.num[lead]
      unit = tuple(sorted((m, x / c) for m, x in s.num.items()))
      for c0, a0 in self.expunits.setdefault(unit, []):
        k = c / c0
        if k.denominator == 1 and 1 < k <= 8:
          return self.sym(a0) ** int(k)
    if a is None:
      n, d = self.sym_z3(s)
      d = d if d is not None else z3.RealVal(1)

      def ax(z):
        return [z > 0, z3.Implies(n < 0, z < 1), z3.Implies(n > 0, z > 1),
                z3.Implies(n == 0, z == 1), (z - 1) * d >= n]
      a = self.atom(name, 'exp', arg=s, axioms=ax)
      a.lo = Fraction(1, 10 ** 400)  # sign information only (z > 0)
      if not s.den:
        self.expunits[unit].append((c, a))
    return self.sym(a)

  def squares(self, s):
    """ squares of square roots taken as what they are of """
    r = s
    for m, c in s.num.items():
      for i, e in m:
        a = self.atoms[i]
        if a.kind == 'sqrt' and e > 1:
          rest = tuple((j, f) for j, f in m if j != i)
          t = SymReal({rest: c}) * a.arg ** (e // 2)
          r = r - SymReal({m: c}) + (t * self.sym(a) if e % 2 else t)
          break
    return r

  def mksqrt(self, s):
    name = 'SQRT!' + self.keyname(s)
    a = self.byname.get(name)
    if a is None:
      n, d = self.sym_z3(s)
      d = d if d is not None else z3.RealVal(1)
      a = self.atom(name, 'sqrt', lo=0, arg=s, axioms=lambda z: [z * z * d == n])
    self.defs.append(a.idx)
    return self.sym(a)

  def mkfloor(self, s):
    name = 'FLOOR!' + self.keyname(s)
    a = self.byname.get(name)
    if a is None:
      n, d = self.sym_z3(s)
      d = d if d is not None else z3.RealVal(1)
      a = self.atom(name, 'floor', arg=s, isint=True,
                    axioms=lambda z: [z * d <= n, n < (z + 1) * d])
    self.defs.append(a.idx)
    return self.sym(a)

  # -- uninterpreted functions
  def apply_uf(self, fname, args, lo=None, hi=None, nice=None, monotone=False):
    """ value of uninterpreted function fname at args (numbers or SymReal) """
    apps = self.uf_apps.setdefault(fname, [])
    args = tuple(args)
    for a0, v in apps:
      if len(a0) == len(args) and all(_samekey(x, y) for x, y in zip(a0, args)):
        return v
    # semantic equality with an earlier application: fork
    for a0, v in apps:
      if len(a0) == len(args):
        same = True
        for x, y in zip(a0, args):
          if isinstance(x, (SymReal, int, float)) or isinstance(y, (SymReal, int, float)):
            if not bool(x == y):
              same = False
              break
          elif x != y:
            same = False
            break
        if same:
          apps.append((args, v))
          return v
    nm = 'UF!{}!{}'.format(fname, len(apps))
    a = self.atom(nm, 'uf', lo=lo, hi=hi, nice=nice)
    v = self.sym(a)
    if monotone:
      for a0, w in apps:
        if a0[0] < args[0]:
          self.assume(w <= v)
        else:
          self.assume(w >= v)
    apps.append((args, v))
    return v

  def assume(self, cond):
    if isinstance(cond, SymBool):
      k = self.known.get((pkey(cond.poly), cond.op))
      if k is True:
        return
      if k is False:
        raise PathAbort()
      if len(self.trace) >= len(self.prefix):
        r, _ = self.solve([cond.z3(self)], [cond.poly])
        if r == z3.unsat:
          raise PathAbort()
      self.assert_pc(cond)
    elif not cond:
      raise PathAbort()

  # -- text forms: equal terms print alike, and nothing in the text is a separator
  def keyname(self, s):
    def pn(p):
      out = []
      for m, c in sorted(p.items()):
        out.append(str(c) + '*' + '*'.join('a%d^%d' % t for t in m))
      return '+'.join(out)
    k = pn(s.num)
    if s.den:
      k += '/' + '/'.join(pn(d) for d in s.den)
    return k

  def strval(self, s):
    k = s.key()
    if k not in self.strs:
      self.strs[k] = 'sym{}'.format(len(self.strs))
    return self.strs[k]

  # -- models
  def model_values(self, model):
    """ atom name -> Fraction/float for every declared atom """
    out = {}
    for a in self.atoms:
      v = model.eval(a.z, model_completion=False)
      if v is None or not (z3.is_rational_value(v) or z3.is_algebraic_value(v)
                           or z3.is_int_value(v)):
        continue
      out[a.name] = zfloat(v)
    return out


def _samekey(x, y):
  if isinstance(x, SymReal) and isinstance(y, SymReal):
    return x.num == y.num and x.den == y.den
  if isinstance(x, SymReal) or isinstance(y, SymReal):
    return False
  return type(x) == type(y) and x == y or (isnum(x) and isnum(y) and x == y)


def zfloat(v):
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_algebraic_value(v):
    v = v.approx(40)
  f = Fraction(v.numerator_as_long(), v.denominator_as_long())
  return tofloat(f)


def zval(x):
  f = frac(x)
  if f.denominator == 1:
    return z3.RealVal(f.numerator)
  return z3.RealVal('{}/{}'.format(f.numerator, f.denominator))


def flog(c):
  """ float logarithm of a positive Fraction of any size """
  return math.log(c.numerator) - math.log(c.denominator)


def exprat(c):
  """ e^c as a rational; beyond float range a clipped power of ten """
  c = Fraction(c)
  if abs(c) < 700:
    return Fraction(math.exp(float(c)))
  k = int(min(abs(c), 20000) / Fraction(2302585, 1000000))
  return Fraction(10) ** k if c > 0 else Fraction(1, 10 ** k)
