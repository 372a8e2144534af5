"""
Scenario contexts. A scenario is one function fn(cx, pb, **params) that builds
inputs through cx, calls the package pb, and states obligations through cx. The
same function runs symbolically on the instrumented package (every input within
its declared bounds at once) and concretely on the unmodified package (replay).
"""
import hashlib
import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np

_CUR = None


def current():
  return _CUR


class Violation(Exception):
  """ raised in concrete mode when an obligation fails """


class AssumptionFailed(BaseException):
  pass


class Skip(BaseException):
  pass


REL = 1e-6      # concrete tolerance
REL_SYM = 1e-4  # a symbolic counterexample must exceed this, so it survives rounding
ABS = 1e-9
ABS_SYM = 1e-7


class Base:
  extreme = None    # 'lo'/'hi': integer draws take the end of their range
  """ input helpers shared by both modes """

  def probs(self, name, shape, zeros=(), lo=None, hi=None, nice=None):
    """ array of probabilities, cells listed in zeros may also be exactly 0 """
    out = np.empty(shape, dtype=object)
    for n, i in enumerate(np.ndindex(*shape)):
      nm = name + '_' + '_'.join(map(str, i))
      out[i] = self.prob(nm, zero=(n in zeros), lo=lo, hi=hi, nice=nice)
    return self.asarray(out)

  def prob(self, name, zero=False, lo=None, hi=None, nice=None):
    if zero and self.choose(2, name + '=0') == 0:
      return 0.
    return self.real(name, 1e-30 if lo is None else lo, 1e6 if hi is None else hi,
                     nice or (0.05, 0.95))

  def reals(self, name, shape, lo=None, hi=None, nice=None):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      out[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi, nice)
    return self.asarray(out)

  def increasing(self, name, n, lo=None, hi=None, nice=(-5., 5.), gap=0.01):
    """ strictly increasing reals (as a 1-d array) """
    a = self.reals(name, (n,), lo, hi, nice)
    for i in range(n - 1):
      self.assume(a[i + 1] >= a[i] + gap)
    return a

  def distinct(self, arr, gap=0.01):
    a = np.ravel(arr)
    for i in range(len(a)):
      for j in range(i):
        d = a[i] - a[j]
        self.assume(d * d >= gap * gap)
    return arr

  # linear value of a probability stored at a given pscale (the specification's
  # reading of the scale convention, independent of the package's own code)
  def linear(self, prob, pscale):
    if prob is None:
      return None
    if pscale is None:
      pscale = 1.
    if isinstance(pscale, str):
      pscale = 0j
    if self.iscomplex(pscale):
      offs = pscale.real
      if not (pscale.imag == 0):
        offs = -offs
      return self.emap(lambda x: self.exp(x + offs), prob)
    return self.emap(lambda x: x * pscale, prob)

  def stored(self, p, pscale):
    """ what to store so that the linear value is p at scale pscale """
    if self.iscomplex(pscale):
      offs = pscale.real if pscale.imag == 0 else -pscale.real
      return self.emap(lambda x: self.logp(x) - offs if not (isinstance(x, float) and x == 0.)
                       else -1.7976931348623158e+308, p)
    if not self.issym(pscale) and pscale == 1.:
      return p
    return self.emap(lambda x: x / pscale, p)

  @staticmethod
  def issym(x):
    return False

  def emap(self, f, x):
    if isinstance(x, np.ndarray) and x.ndim:
      out = np.empty(x.shape, dtype=object)
      for i in np.ndindex(*x.shape):
        out[i] = f(x[i])
      return self.asarray(out)
    if isinstance(x, np.ndarray):
      x = x[()]
    return f(x)

  def pairs(self, a, b, label):
    A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if A.shape != B.shape:
      self.fail('{}: shape {} != {}'.format(label, A.shape, B.shape))
      return
    for i in np.ndindex(*A.shape):
      yield A[i], B[i], (label if not i else '{}{}'.format(label, list(i)))

  def eq(self, a, b, label, atol=ABS, rtol=1.):
    for x, y, l in self.pairs(a, b, label):
      self.eq1(x, y, l, atol, rtol)

  def le(self, a, b, label, atol=ABS):
    for x, y, l in self.pairs(a, b, label):
      self.le1(x, y, l, atol)

  def lt(self, a, b, label):
    for x, y, l in self.pairs(a, b, label):
      self.true(x < y, l)

  def same(self, a, b, label):
    """ concrete (structural) equality """
    if not (a == b):
      self.fail('{}: {!r} != {!r}'.format(label, a, b))
    else:
      self.count()

  def raises(self, fn, label, excs=(Exception,)):
    """ fn must reject its input """
    try:
      fn()
    except excs as e:
      if type(e).__name__ == 'Unsupported':
        raise
      self.count()
      return
    self.fail('{}: accepted'.format(label))


class SymCx(Base):
  """ symbolic mode """
  symbolic = True

  def __init__(self, engine, seed=0):
    self.eng = engine
    self.seed = seed
    self.candidates = []
    self.inconclusive = []
    self.tolerance_only = 0
    self.begin_path()

  def underflow(self):
    """ model the floating-point range of exp() """
    self.eng.underflow = True

  def begin_path(self):
    self.choices = []
    self.eng.underflow = False
    self.nrand = 0
    self.ufs = {}

  # -- inputs
  def real(self, name, lo=None, hi=None, nice=None):
    a = self.eng.atom(name, 'in', lo, hi, nice or _nice(lo, hi))
    return self.eng.sym(a)

  def int(self, name, lo, hi, nice=None):
    a = self.eng.atom(name, 'in', lo, hi, nice or (lo, hi), isint=True)
    return self.eng.sym(a)

  def asarray(self, x):
    return np.asarray(x, dtype=object)

  def choose(self, n, label='choice'):
    k = self.eng.choose(n, label)
    self.choices.append(k)
    return k

  def assume(self, cond):
    self.eng.assume(cond)

  def reachable(self):
    return True

  def draw(self, lo, hi, size, closed_hi=False, isint=False):
    def one():
      nm = 'rnd%d' % self.nrand
      self.nrand += 1
      if isint and self.extreme:
        return hi if self.extreme == 'hi' else lo
      if isint:
        k = self.eng.sym(self.eng.atom(nm + 'i', 'rnd', None, None, (0, 3), isint=True))
        self.assume(k >= lo)
        self.assume(k <= hi)
        return k
      if lo is None:
        return self.eng.sym(self.eng.atom(nm + 'n', 'rnd', None, None, (-2., 2.)))
      u = self.eng.sym(self.eng.atom(nm, 'rnd', 0, 1, (0.02, 0.97)))
      self.assume(u < 1)
      return lo + u * (hi - lo)
    if size is None:
      return one()
    shape = (size,) if not isinstance(size, (tuple, list)) else tuple(size)
    shape = tuple(int(s) for s in shape)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      out[i] = one()
    return out

  def permutation(self, x):
    n = int(x) if np.isscalar(x) else len(x)
    left = list(range(n))
    out = []
    while left:
      k = self.choose(len(left), 'perm') if len(left) > 1 else 0
      out.append(left.pop(k))
    idx = np.array(out, dtype=int)
    return idx if np.isscalar(x) else np.asarray(x)[idx]

  def uf(self, name, lo=None, hi=None, nice=None, monotone=False):
    """ an arbitrary function of its scalar arguments """
    def f(*args):
      return self.eng.apply_uf(name, args, lo, hi, nice or _nice(lo, hi), monotone)
    return f

  # -- arithmetic helpers
  @staticmethod
  def issym(x):
    from symx import core
    return isinstance(x, (core.SymReal, core.SymComplex))

  def iscomplex(self, x):
    from symx import core
    return isinstance(x, (complex, core.SymComplex))

  def complex(self, re, im=0.):
    from symx import core
    return core.mkcomplex(re, im)

  def exp(self, x):
    from symx import core
    if isinstance(x, core.SymReal):
      return x.exp()
    return math.exp(x) if x < 709 else math.inf

  def logp(self, x):
    from symx import core
    if isinstance(x, core.SymReal):
      return self.eng.mklog(x)
    return math.log(x)

  def sqrt(self, x):
    from symx import core
    return x.sqrt() if isinstance(x, core.SymReal) else math.sqrt(x)

  # -- obligations
  def count(self):
    self.eng.stats.asserts += 1
    self.eng.stats.trivial += 1

  def fail(self, label):
    """ a structural mismatch on this path: any input reaching it is a counterexample """
    self.eng.stats.asserts += 1
    self._refute([], [], label)

  def _refute(self, extra, polys, label):
    """ look for a model of path condition + extra; record it as a candidate """
    import z3
    if len(self.candidates) >= 12:
      return True
    for nice in (True, False):
      r, m = self.eng.solve(extra, polys, want_model=True, nice=nice)
      if r == z3.sat:
        vals = self.eng.model_values(m)
        self.candidates.append({'label': label, 'values': vals, 'choices': list(self.choices),
                                'ufs': self._uf_table(vals), 'trace': list(self.eng.trace)})
        return True
      if r == z3.unknown:
        continue
      if not nice:
        return False
    return None

  def _uf_table(self, vals):
    from symx import core
    idx = {a.name: a.idx for a in self.eng.atoms}
    num = numeric(self.eng, {idx[k]: v for k, v in vals.items() if k in idx})
    out = {}
    for f, apps in self.eng.uf_apps.items():
      rows = []
      for args, v in apps:
        try:
          rows.append([[num(a) if isinstance(a, core.SymReal) else a for a in args], num(v)])
        except (OverflowError, ZeroDivisionError, ValueError):
          pass
      out[f] = rows
    return out

  def eq1(self, a, b, label, atol, rtol=1.):
    from symx import core
    import z3
    st = self.eng.stats
    st.asserts += 1
    if not isinstance(a, core.SymReal) and not isinstance(b, core.SymReal):
      if isinstance(a, core.SymBool):
        a = bool(a)
      if isinstance(b, core.SymBool):
        b = bool(b)
      st.trivial += 1
      if not conc_eq(a, b, atol, rtol):
        self._refute([], [], '{}: {!r} != {!r}'.format(label, a, b))
      return
    d = a - b
    if isinstance(d, (int, float)) and not isinstance(d, core.SymReal):
      # the difference folded to a constant
      st.trivial += 1
      if d == 0:
        # equal normal forms; the verdict is still the solver's, on the two sides as built
        an, ad = self.eng.sym_z3(a)
        bn, bd = self.eng.sym_z3(b)
        l = an if bd is None else an * bd
        r_ = bn if ad is None else bn * ad
        polys = [x.num for x in (a, b) if isinstance(x, core.SymReal)] + \
            [f for x in (a, b) if isinstance(x, core.SymReal) for f in x.den]
        r, _ = self.eng.solve([l != r_], polys, light=True)
        if r != z3.unsat:
          self.inconclusive.append(label)
        return
      if not math.isfinite(d):
        self._refute([], [], '{}: {!r} vs {!r}'.format(label, a, b))
        return
      d = core.SymReal.const(d)
    poly = d.num
    if core.pisconst(poly) and not d.den:
      z = z3.RealVal(0)
    r, _ = self.eng.solve([self.eng.to_z3(poly) != 0], [poly])
    if r == z3.unsat:
      return
    # not exactly equal over the reals: is the difference more than rounding?
    an, ad = self.eng.sym_z3(core.SymReal.lift(a) if core.isnum(a) else a)
    bn, bd = self.eng.sym_z3(core.SymReal.lift(b) if core.isnum(b) else b)
    ad = ad if ad is not None else z3.RealVal(1)
    bd = bd if bd is not None else z3.RealVal(1)
    diff = an * bd - bn * ad
    babs = z3.If(bn >= 0, bn, -bn) * ad
    tol = core.zval(REL_SYM * rtol) * babs + core.zval(Fraction(atol) * 100) * ad * bd
    viol = z3.Or(diff > tol, -diff > tol)
    polys = [poly] + [x.num for x in (a, b) if isinstance(x, core.SymReal)] + \
        [f for x in (a, b) if isinstance(x, core.SymReal) for f in x.den]
    got = self._refute([viol], polys, label)
    if got is None:
      self.inconclusive.append(label)
    elif got is False:
      self.tolerance_only += 1

  def le1(self, a, b, label, atol):
    self.true(a <= b, label) if atol == 0 else self.true(a <= b + atol, label)

  def true(self, cond, label):
    from symx import core
    import z3
    self.eng.stats.asserts += 1
    if isinstance(cond, (bool, np.bool_, int, float)):
      self.eng.stats.trivial += 1
      if not cond:
        self._refute([], [], label)
      return
    if not isinstance(cond, core.SymBool):
      raise core.Unsupported('obligation {} is not a condition: {!r}'.format(label, cond))
    k = self.eng.known.get((core.pkey(cond.poly), cond.op))
    if k is True:
      return
    neg = cond.negated()
    r, _ = self.eng.solve([neg.z3(self.eng)], [cond.poly])
    if r == z3.unsat:
      return
    # prefer a counterexample with a margin
    e = self.eng.to_z3(cond.poly)
    m = core.zval(1e-6)
    strong = {'<': e >= m, '<=': e >= m, '>': e <= -m, '>=': e <= -m,
              '==': z3.Or(e > m, e < -m), '!=': e == 0}[cond.op]
    if self._refute([strong], [cond.poly], label):
      return
    got = self._refute([neg.z3(self.eng)], [cond.poly], label)
    if got is None:
      self.inconclusive.append(label)


class ConCx(Base):
  """ concrete mode: values come from a model; missing ones get a fixed ordinary value """
  symbolic = False

  def __init__(self, values=None, choices=None, ufs=None, seed=0):
    self.values = values or {}
    self.choices = list(choices or [])
    self.ci = 0
    self.ufs = ufs or {}
    self.seed = seed
    self.nrand = 0
    self.missing = 0
    self.asserts = 0
    self.failures = []

  def _default(self, name, lo, hi, nice, isint=False):
    self.missing += 1
    lo_, hi_ = nice or _nice(lo, hi)
    h = int(hashlib.sha256('{}:{}'.format(self.seed, name).encode()).hexdigest()[:12], 16) \
        / float(16 ** 12)
    if isint:
      return int(lo_ + int(h * (hi_ - lo_ + 1)))
    return round(lo_ + (hi_ - lo_) * (0.05 + 0.9 * h), 4)

  def real(self, name, lo=None, hi=None, nice=None):
    v = self.values.get(name)
    if v is None:
      v = self._default(name, lo, hi, nice)
      self.values[name] = v
    return float(v)

  def int(self, name, lo, hi, nice=None):
    v = self.values.get(name)
    if v is None:
      v = self._default(name, lo, hi, nice, True)
      self.values[name] = v
    return int(v)

  def asarray(self, x):
    x = np.asarray(x, dtype=object)
    flat = list(x.flat)
    if flat and all(isinstance(e, (bool, np.bool_)) for e in flat):
      return x.astype(bool)
    return x.astype(float)

  def choose(self, n, label='choice'):
    k = self.choices[self.ci] if self.ci < len(self.choices) else \
        random.Random('{}:{}:{}'.format(self.seed, self.ci, label)).randrange(n)
    self.ci += 1
    return min(int(k), n - 1)

  def assume(self, cond):
    if not cond:
      raise AssumptionFailed()

  def underflow(self):
    pass

  def draw(self, lo, hi, size, closed_hi=False, isint=False):
    def one():
      nm = 'rnd%d' % self.nrand
      self.nrand += 1
      if isint and self.extreme:
        return hi if self.extreme == 'hi' else lo
      if isint:
        return int(self.values.get(nm + 'i', self._default(nm + 'i', lo, hi, (lo, hi), True)))
      if lo is None:
        return float(self.values.get(nm + 'n', self._default(nm + 'n', None, None, (-2., 2.))))
      u = float(self.values.get(nm, self._default(nm, 0, 1, (0.02, 0.97))))
      u = min(max(u, 0.), 1. - 2.**-53)
      return lo + u * (hi - lo)
    if size is None:
      return one()
    shape = (size,) if not isinstance(size, (tuple, list)) else tuple(size)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      out[i] = one()
    return out.astype(int if isint else float)

  permutation = SymCx.permutation

  def uf(self, name, lo=None, hi=None, nice=None, monotone=False):
    rows = self.ufs.setdefault(name, [])

    def f(*args):
      for a0, v in rows:
        if len(a0) == len(args) and all(_close(x, y) for x, y in zip(a0, args)):
          return float(v)
      nm = '{}({})'.format(name, ','.join(_fmt(a) for a in args))
      if monotone:
        lo_, hi_ = nice or _nice(lo, hi)
        # interpolate monotonically between the known points
        pts = sorted((float(a0[0]), float(v)) for a0, v in rows)
        x = float(args[0])
        below = [p for p in pts if p[0] <= x]
        above = [p for p in pts if p[0] >= x]
        l = below[-1][1] if below else min([lo_] + [p[1] for p in pts])
        h = above[0][1] if above else max([hi_] + [p[1] for p in pts])
        v = 0.5 * (l + h)
      else:
        v = self._default(nm, lo, hi, nice)
      rows.append([list(args), v])
      return v
    return f

  def iscomplex(self, x):
    return isinstance(x, complex)

  def complex(self, re, im=0.):
    return complex(re, im)

  def exp(self, x):
    if x > 709:
      return math.inf
    return math.exp(x)

  def logp(self, x):
    return math.log(x)

  def sqrt(self, x):
    return math.sqrt(x)

  def count(self):
    self.asserts += 1

  def fail(self, label):
    self.failures.append(label)

  def eq1(self, a, b, label, atol, rtol=1.):
    self.asserts += 1
    if not conc_eq(a, b, atol, rtol):
      self.fail('{}: got {!r}, expected {!r}'.format(label, a, b))

  def le1(self, a, b, label, atol):
    self.asserts += 1
    if not (a <= b + 100 * atol + 1e-9 * abs(b)):
      self.fail('{}: {!r} > {!r}'.format(label, a, b))

  def true(self, cond, label):
    self.asserts += 1
    if not cond:
      self.fail(label)


def _close(x, y):
  if isinstance(x, (int, float, np.number)) and isinstance(y, (int, float, np.number)):
    return abs(x - y) <= 1e-9 * (1. + abs(x))
  return x == y


def _fmt(a):
  return '{:.9g}'.format(float(a)) if isinstance(a, (int, float, np.number)) else str(a)


def conc_eq(a, b, atol, rtol=1.):
  try:
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
      return bool(a) == bool(b)
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
      return a == b
    a, b = complex(a), complex(b)
  except TypeError:
    return a == b
  if a == b:
    return True
  if a != a and b != b:
    return True
  if math.isinf(a.real) or math.isinf(b.real):
    return a == b
  return abs(a - b) <= REL * rtol * abs(b) + atol


def _nice(lo, hi):
  l = -4. if lo is None or lo < -1e6 else float(lo)
  h = 4. if hi is None or hi > 1e6 else float(hi)
  if h < l:
    h = l + 8. if hi is None or hi > 1e6 else h
    l = h - 8. if lo is None or lo < -1e6 else l
  return (l, h)


def numeric(eng, base):
  """ float evaluation of symbolic reals under atom values base (idx -> float) """
  cache = dict(base)

  def atomval(i):
    if i in cache:
      return cache[i]
    a = eng.atoms[i]
    if a.kind == 'log':
      v = math.log(ev(a.arg))
    elif a.kind == 'exp':
      v = math.exp(ev(a.arg))
    elif a.kind == 'sqrt':
      v = math.sqrt(ev(a.arg))
    elif a.kind == 'max':
      v = max(ev(x) for x in a.arg)
    elif a.kind == 'floor':
      v = math.floor(ev(a.arg))
    else:
      raise ValueError(a.name)
    cache[i] = v
    return v

  def pv(p):
    t = 0.
    for m, c in p.items():
      x = float(c) if abs(c) < 10**300 else (1e300 if c > 0 else -1e300)
      for i, e in m:
        x *= atomval(i) ** e
      t += x
    return t

  def ev(s):
    if not hasattr(s, 'num'):
      return float(s)
    v = pv(s.num)
    for d in s.den:
      v /= pv(d)
    return v
  ev.poly = pv
  return ev


def sample_path(eng, rng, tries=25):
  """ random ordinary values satisfying the current path condition, or None """
  from symx import core
  polys = [c.poly for c in eng.pc]
  ins = [a for a in eng.atoms if a.kind in ('in', 'rnd', 'uf')]
  for _ in range(tries):
    base = {}
    for a in ins:
      lo, hi = a.nice or _nice(a.lo, a.hi)
      base[a.idx] = rng.randint(int(lo), int(hi)) if a.isint else \
          round(lo + (hi - lo) * rng.random(), 4)
    ev = numeric(eng, base)
    ok = True
    try:
      for c in eng.pc:
        v = ev.poly(c.poly)
        if not {'<': v < -1e-9, '<=': v <= 0, '==': abs(v) < 1e-12, '!=': abs(v) > 1e-9,
                '>': v > 1e-9, '>=': v >= 0}[c.op]:
          ok = False
          break
    except (OverflowError, ZeroDivisionError, ValueError):
      ok = False
    if ok:
      return {a.name: base[a.idx] for a in ins}
  return None


def explore(fn, params, pb, budget_s=60., max_paths=3000, timeout_ms=8000, seed=1,
            max_witness=6):
  """ run one scenario over every feasible path; returns a JSON-able summary """
  global _CUR
  import z3
  from symx import core, shim
  t0 = time.time()
  eng = core.Engine(timeout_ms=timeout_ms, deadline=t0 + budget_s)
  cx = SymCx(eng, seed)
  rng = random.Random(seed)
  work = [[]]
  crashes, unsupported, witnesses = [], [], []
  paths = aborted = 0
  exhausted = None
  core.CUR = eng
  _CUR = cx
  shim.ACTIVE = True
  try:
    while work:
      if paths + aborted >= max_paths:
        exhausted = 'path budget'
        break
      if len(cx.candidates) >= 12:
        exhausted = 'stopped after 12 counterexample candidates'
        break
      prefix = work.pop()
      eng.reset_path(prefix)
      cx.begin_path()
      outcome = 'ok'
      try:
        fn(cx, pb, **params)
        if len(eng.trace) < len(eng.prefix):
          raise core.Unsupported('path re-execution diverged')
      except core.PathAbort:
        outcome = 'abort'
      except core.Budget as e:
        exhausted = str(e)
        break
      except core.Unsupported as e:
        outcome = 'unsupported'
        unsupported.append({'what': str(e)[:300], 'trace': list(eng.trace)})
      except Exception as e:  # the package (or a shim) raised on a feasible path
        outcome = 'crash'
        tb = traceback.extract_tb(e.__traceback__)
        crashes.append('{}: {} @ {}'.format(type(e).__name__, str(e)[:200],
                                            ' < '.join('{}:{}'.format(f.filename.split('/')[-1], f.lineno)
                                                       for f in reversed(tb[-4:]))))
        n0 = len(cx.candidates)
        try:
          if n0 < 12:
            cx._refute([], [], 'exception ' + crashes[-1][:250])
        except core.Budget as e2:
          exhausted = str(e2)
          break
        for c in cx.candidates[n0:]:
          c['crash'] = True
      work.extend(eng.pending)
      if outcome == 'abort':
        aborted += 1
        continue
      paths += 1
      if len(witnesses) < max_witness and outcome == 'ok':
        vals = sample_path(eng, rng)
        if vals is None:
          try:
            r, m = eng.solve([], [], want_model=True, nice=True)
            if r != z3.sat:
              r, m = eng.solve([], [], want_model=True)
            vals = eng.model_values(m) if r == z3.sat else None
          except core.Budget:
            vals = None
        if vals is not None:
          witnesses.append({'values': vals, 'choices': list(cx.choices),
                            'ufs': cx._uf_table(vals)})
  finally:
    shim.ACTIVE = False
    core.CUR = None
    _CUR = None
  eng.stats.paths = paths
  return {'stats': eng.stats.asdict(), 'candidates': cx.candidates, 'crashes': crashes[:5],
          'ncrash': len(crashes), 'unsupported': unsupported[:5], 'nunsupported': len(unsupported),
          'witnesses': witnesses, 'inconclusive': cx.inconclusive[:10],
          'ninconclusive': len(cx.inconclusive),
          'aborted': aborted, 'exhausted': exhausted, 'tolerance_only': cx.tolerance_only,
          'wall_s': time.time() - t0, 'atoms': len([a for a in eng.atoms if a.kind in ('in', 'rnd', 'uf')])}


def run_concrete(fn, params, pb, point, seed=0):
  """ run one scenario on the unmodified package; returns dict(outcome, failures) """
  global _CUR
  cx = ConCx(dict(point.get('values') or {}), point.get('choices'),
             {k: [list(r) for r in v] for k, v in (point.get('ufs') or {}).items()}, seed)
  _CUR = cx
  from symx import env
  try:
    with env.concrete_environment(cx):
      with np.errstate(all='ignore'):
        fn(cx, pb, **params)
  except AssumptionFailed:
    return {'outcome': 'assumption', 'failures': [], 'asserts': cx.asserts}
  except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    return {'outcome': 'exception', 'asserts': cx.asserts,
            'failures': cx.failures + ['{}: {} @ {}'.format(
                type(e).__name__, str(e)[:300],
                ' < '.join('{}:{}'.format(f.filename.split('/')[-1], f.lineno)
                           for f in reversed(tb[-4:])))],
            'values': cx.values}
  finally:
    _CUR = None
  return {'outcome': 'fail' if cx.failures else 'ok', 'failures': cx.failures[:10],
          'asserts': cx.asserts, 'values': cx.values}
