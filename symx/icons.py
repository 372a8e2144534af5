"""
Symbolic values inside sympy expressions: sympify(SymReal) yields a placeholder that
sympy treats as an opaque real number, and evaluation of an expression containing
placeholders (float(), lambdify, ufuncify, subs) yields the SymReal it denotes.
"""
from fractions import Fraction

import numpy as np
import sympy

from symx.core import SymReal, Unsupported

_TABLE = {}
_BYKEY = {}


class SymIcon(sympy.Symbol):
  """ stands for one symbolic real number """
  __slots__ = ()
  _k = [0]

  @property
  def free_symbols(self):
    return set()


def _key(v):
  return (tuple(sorted(v.num.items())), v.den, v.isint)


def icon(v):
  try:
    k = _key(v)
    s = _BYKEY.get(k)
  except TypeError:
    k = s = None
  if s is None:
    SymIcon._k[0] += 1
    s = SymIcon('_symx%d' % SymIcon._k[0], real=True)
    _TABLE[s] = v
    if k is not None:
      _BYKEY[k] = s
  return s


def reset():
  LAWS.clear()
  _TABLE.clear()
  _BYKEY.clear()


SymReal._sympy_ = icon


def hasicon(e):
  return isinstance(e, sympy.Basic) and bool(e.atoms(SymIcon))


def evaluate(e, env=None):
  """ value of expression e with its symbols bound by env """
  env = env or {}
  if isinstance(e, SymIcon):
    return _TABLE[e]
  if e in env:
    return env[e]
  if isinstance(e, sympy.Integer):
    return int(e)
  if isinstance(e, sympy.Rational):
    return float(e)
  if isinstance(e, (sympy.Float, sympy.NumberSymbol)):
    return float(e)
  if e is sympy.oo:
    return float('inf')
  if e is -sympy.oo:
    return float('-inf')
  if isinstance(e, sympy.Piecewise):
    for x, c in e.args:
      if holds(c, env):
        return evaluate(x, env)
    return float('nan')
  if e is sympy.nan:
    return float('nan')
  a = [evaluate(x, env) for x in e.args] if e.args else []
  if isinstance(e, sympy.Add):
    t = a[0]
    for x in a[1:]:
      t = t + x
    return t
  if isinstance(e, sympy.Mul):
    # divide by negative powers rather than multiplying by an inverse
    num, den = None, None
    for x, arg in zip(a, e.args):
      if isinstance(arg, sympy.Pow) and isinstance(arg.exp, sympy.Integer) and arg.exp < 0:
        d = evaluate(arg.base, env) ** int(-arg.exp)
        den = d if den is None else den * d
      else:
        num = x if num is None else num * x
    num = 1. if num is None else num
    return num if den is None else num / den
  if isinstance(e, sympy.Pow):
    b, x = a
    if e.exp == sympy.Rational(1, 2):
      return _call('sqrt', b)
    if e.exp == -sympy.Rational(1, 2):
      return 1. / _call('sqrt', b)
    if isinstance(e.exp, sympy.Integer):
      n = int(e.exp)
      return b ** n if n >= 0 else 1. / b ** (-n)
    if not isinstance(b, SymReal) and not isinstance(x, SymReal):
      return float(b) ** float(x)
    return _call('exp', x * _call('log', b))
  if isinstance(e, sympy.exp):
    return _call('exp', a[0])
  if isinstance(e, sympy.log):
    return _call('log', a[0])
  if isinstance(e, (sympy.cosh, sympy.sinh)):
    u, v = _call('exp', a[0]), _call('exp', -a[0])
    return (u + v) / 2. if isinstance(e, sympy.cosh) else (u - v) / 2.
  if isinstance(e, (sympy.erf, sympy.erfinv)) and isinstance(a[0], SymReal):
    if e.func not in LAWS:
      raise Unsupported('sympy function {}'.format(e.func))
    return LAWS[e.func](near(a[0]))
  if isinstance(e, sympy.Abs):
    return abs(a[0])
  if isinstance(e, (sympy.Max, sympy.Min)):
    t = a[0]
    for x in a[1:]:
      t = (t if t >= x else x) if isinstance(e, sympy.Max) else (t if t <= x else x)
    return t
  if not any(isinstance(x, SymReal) for x in a):
    return float(e.func(*a))
  raise Unsupported('sympy function {}'.format(e.func))


LAWS = {}    # stand-ins for special functions, set by scenarios


def holds(c, env):
  """ truth of a condition with its symbols bound by env """
  if c in (sympy.true, sympy.false):
    return c is sympy.true
  if isinstance(c, sympy.And):
    return all(holds(x, env) for x in c.args)
  if isinstance(c, sympy.Or):
    return any(holds(x, env) for x in c.args)
  if isinstance(c, sympy.Not):
    return not holds(c.args[0], env)
  l, r = [evaluate(x, env) for x in c.args]
  if isinstance(c, sympy.Lt):
    return bool(l < r)
  if isinstance(c, sympy.Le):
    return bool(l <= r)
  if isinstance(c, sympy.Gt):
    return bool(l > r)
  if isinstance(c, sympy.Ge):
    return bool(l >= r)
  if isinstance(c, sympy.Eq):
    return bool(l == r)
  if isinstance(c, sympy.Ne):
    return bool(l != r)
  raise Unsupported('sympy condition {}'.format(c.func))


def near(x):
  """ coefficients within rounding of a small fraction (as products of square roots are) taken as it """
  num = {}
  for k, c in x.num.items():
    s = c.limit_denominator(1000)
    num[k] = s if 0 < abs(c - s) < 1e-12 else c
  num = {k: c for k, c in num.items() if c}
  return SymReal(num, x.den, x.isint) if num and num != x.num else x


def _call(f, x):
  if isinstance(x, SymReal):
    return getattr(near(x) if f == 'exp' else x, f)()
  with np.errstate(all='ignore'):
    return float(getattr(np, f)(float(x)))


def tofloat(e):
  v = evaluate(e)
  return SymReal(v.num, v.den, False) if isinstance(v, SymReal) else float(v)


def _simple(e):
  return isinstance(e, sympy.Expr) and all(isinstance(x, (sympy.Add, sympy.Mul, sympy.Pow, sympy.exp,
                                                          sympy.log, sympy.Symbol, sympy.Number,
                                                          sympy.NumberSymbol))
                                           for x in sympy.preorder_traversal(e))


def lambdify(real):
  """ stand-in for sympy.lambdify/ufuncify: exact evaluation on symbolic values """
  def make(symbols, expr, *args, **kwds):
    symbols = tuple(symbols) if isinstance(symbols, (tuple, list)) else (symbols,)
    cache = []

    def fun(*vals):
      from symx import shim
      if not hasicon(expr) and not any(shim.hassym(v) for v in vals):
        # doubles, as compiled code does: printing at 15 digits would overflow the largest
        if _simple(expr) and len(vals) == len(symbols) == 1:
          got = shim.emap(lambda *xs: float(evaluate(expr, dict(zip(symbols, xs)))),
                          *[np.asarray(shim.settle(v)).astype(float) for v in vals])
          return got.astype(float) if isinstance(got, np.ndarray) else float(got)
        if not cache:
          cache.append(sympy.lambdify(symbols, expr, 'numpy'))
        return cache[0](*[shim.settle(v) for v in vals])
      arrs = [shim.toobj(v) for v in vals]
      return shim.emap(lambda *xs: evaluate(expr, dict(zip(symbols, xs))), *arrs)
    return fun
  return make
