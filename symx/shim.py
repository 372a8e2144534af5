"""
Call interception for the instrumented package: the numpy/builtin functions that
cannot carry symbolic values through C code get an exact equivalent over them.
With no symbolic argument the real function is called unchanged (float
allocations become object arrays so that symbolic values can be stored in them).
"""
import builtins
import math
import operator

import numpy as np
import sympy
import sympy.utilities.autowrap

from symx import core, icons
from symx.core import SymReal, SymBool, SymComplex, Unsupported

SYMS = (SymReal, SymBool, SymComplex)
CALLED = set()    # probayes functions executed symbolically
ACTIVE = False   # set while a scenario runs symbolically
FLOATS = (float, np.float64, np.float32, np.dtype('float64'), np.dtype('float32'),
          np.floating, np.double, 'float', 'float64', 'd', 'f8')


# ------------------------------------------------------------------ predicates
def hassym(x, depth=0):
  if isinstance(x, SYMS):
    return True
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      return any(isinstance(e, SYMS) for e in x.flat)
    return False
  if isinstance(x, (list, tuple, set, frozenset)) and depth < 4:
    return any(hassym(e, depth + 1) for e in x)
  if isinstance(x, sympy.Basic):
    return icons.hasicon(x)
  return False


def isobjarr(x):
  return isinstance(x, np.ndarray) and x.dtype == object


def settle(x):
  """ An object array without symbolic content becomes an ordinary array again """
  if isobjarr(x) and not hassym(x):
    flat = list(x.flat)
    if all(isinstance(e, (float, np.floating)) for e in flat):
      return x.astype(float)
    if flat and all(isinstance(e, (bool, np.bool_)) for e in flat):
      return x.astype(bool)
    if flat and all(isinstance(e, (int, np.integer)) and not isinstance(e, bool) for e in flat):
      return x.astype(int)
    if flat and all(isinstance(e, (int, float, np.integer, np.floating)) for e in flat):
      return x.astype(float)
  return x


def toobj(x):
  """ object array view of x, symbolic elements kept """
  if isinstance(x, np.ndarray):
    return x if x.dtype == object else np.array(x, dtype=object)
  if isinstance(x, SYMS) or np.isscalar(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a
  return np.array(x, dtype=object)


def unwrap(a):
  if isinstance(a, np.ndarray) and a.ndim == 0:
    return a[()]
  return a


def emap(f, *args):
  """ elementwise map with broadcasting over object arrays """
  arrs = [toobj(a) for a in args]
  b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
  out = np.empty(b[0].shape, dtype=object)
  for i in np.ndindex(*b[0].shape):
    out[i] = f(*[x[i] for x in b])
  if out.ndim == 0:
    return out[()]
  return out


def emapbool(f, *args):
  r = emap(f, *args)
  if isinstance(r, np.ndarray):
    return np.array([bool(e) for e in r.flat], dtype=bool).reshape(r.shape)
  return bool(r)


# --------------------------------------------------------------- instrumentation
def dtype(x):
  if isobjarr(x):
    flat = list(x.flat)
    if flat:
      if all(isinstance(e, SymReal) and e.isint or
             (isinstance(e, (int, np.integer)) and not isinstance(e, bool)) for e in flat):
        return np.dtype(int)
      if all(isinstance(e, (SymReal, float, np.floating, int, np.integer)) and
             not isinstance(e, bool) for e in flat):
        return np.dtype(float)
      if all(isinstance(e, (SymBool, bool, np.bool_)) for e in flat):
        return np.dtype(bool)
    return x.dtype
  return x.dtype


_IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv,
         '**': operator.ipow, '//': operator.ifloordiv, '%': operator.imod,
         '&': operator.iand, '|': operator.ior, '^': operator.ixor, '@': operator.imatmul,
         '<<': operator.ilshift, '>>': operator.irshift}
_OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
        '**': operator.pow, '//': operator.floordiv, '%': operator.mod,
        '&': operator.and_, '|': operator.or_, '^': operator.xor, '@': operator.matmul,
        '<<': operator.lshift, '>>': operator.rshift}


def iop(op, x, y):
  if isinstance(x, np.ndarray) and x.dtype != object and hassym(y):
    return _OPS[op](x, y)
  return _IOPS[op](x, y)


def call(f, *args, **kwds):
  if not ACTIVE:
    return f(*args, **kwds)
  mod = getattr(f, '__module__', None) or ''
  if isinstance(mod, str) and mod.startswith('probayes'):
    CALLED.add('{}.{}'.format(mod, getattr(f, '__qualname__', '?')))
    return f(*args, **kwds)
  h = None
  try:
    h = ALWAYS.get(f)
    if h is None:
      h2 = HANDLERS.get(f)
      if h2 is not None and (any(hassym(a) for a in args) or
                             any(hassym(a) for a in kwds.values())):
        h = h2
  except TypeError:
    pass
  if h is not None:
    return h(*args, **kwds)
  # methods of object arrays
  slf = getattr(f, '__self__', None)
  if isobjarr(slf):
    name = getattr(f, '__name__', '')
    m = METHODS.get(name)
    if m is not None:
      return m(slf, *args, **kwds)
    return f(*args, **kwds)
  if isinstance(f, np.ufunc):
    args = tuple(settle(a) for a in args)
    if any(isobjarr(a) or isinstance(a, SYMS) for a in args):
      u = UFUNCS.get(f.__name__)
      if u is not None and 'out' not in kwds and 'where' not in kwds:
        return emap(u, *args)
    return f(*args, **kwds)
  if isinstance(mod, str) and (mod.startswith('numpy') or mod.startswith('scipy')) \
      and not isinstance(f, type) and getattr(f, '__name__', '') not in _MUTATORS:
    args = tuple(settle(a) for a in args)
    kwds = {k: settle(v) for k, v in kwds.items()}
  return f(*args, **kwds)


_MUTATORS = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis'}


# --------------------------------------------------------------------- builtins
def _float(x=0.):
  if isinstance(x, SymReal):
    return SymReal(x.num, x.den, False)
  if isinstance(x, np.ndarray) and x.size == 1:
    return _float(x.reshape(-1)[0])
  if isinstance(x, sympy.Basic):
    return icons.tofloat(x)
  if isinstance(x, SymComplex):
    raise TypeError("float() argument must be a string or a real number, not 'complex'")
  return float(x)


def _int(x=0, *a):
  if isinstance(x, SymReal):
    return x.trunc()
  if isinstance(x, sympy.Basic):
    return icons.tofloat(x).trunc()
  if isinstance(x, np.ndarray) and x.size == 1:
    return _int(x.reshape(-1)[0])
  return int(x, *a)


def _bool(x=False):
  if isinstance(x, np.ndarray) and x.size == 1:
    return bool(x.reshape(-1)[0])
  return bool(x)


def _complex(re=0., im=0.):
  if isinstance(re, (complex, SymComplex)) and not im:
    return re
  return core.mkcomplex(re, im)


def _kinds(x):
  if isinstance(x, SymReal):
    return int if x.isint else float
  if isinstance(x, SymBool):
    return bool
  if isinstance(x, SymComplex):
    return complex
  return None


def _isinstance(x, t):
  if isinstance(x, icons.SymIcon):
    ts = t if isinstance(t, tuple) else (t,)
    return any(issubclass(sympy.Float, e) for e in ts if isinstance(e, type))
  k = _kinds(x)
  if k is None:
    return isinstance(x, t)
  ts = t if isinstance(t, tuple) else (t,)
  flat = []
  for e in ts:
    flat.extend(e if isinstance(e, tuple) else [e])
  return any(issubclass(k, e) if isinstance(e, type) else False for e in flat) or \
      isinstance(x, tuple(e for e in flat if isinstance(e, type)))


def _type(x, *a):
  if a:
    return type(x, *a)
  if isinstance(x, icons.SymIcon):
    return sympy.Float
  return _kinds(x) or type(x)


def _issub(*a):
  return issubclass(*a)


def cast_scalar(x, dt):
  """ x.astype(dt) / dt(x) for one element """
  if dt in FLOATS:
    if isinstance(x, SymReal):
      return SymReal(x.num, x.den, False)
    if isinstance(x, SymBool):
      return float(bool(x))
    return float(x)
  try:
    d = np.dtype(dt)
  except TypeError:
    d = np.dtype(object)
  if d.kind == 'f':
    return cast_scalar(x, float)
  if d.kind in 'iu':
    if isinstance(x, SymReal):
      return x.trunc()
    return int(x)
  if d.kind == 'b':
    return bool(x)
  if d.kind == 'O':
    return x
  if d.kind == 'c':
    return x
  raise Unsupported("cast of a symbolic value to {}".format(dt))


def cast_array(a, dt):
  out = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape):
    out[i] = cast_scalar(a[i], dt)
  d = np.dtype(dt) if not isinstance(dt, np.dtype) else dt
  if d.kind in 'biu' and not hassym(out):
    return out.astype(dt)
  return out


def _round(x, n=None):
  if n:
    raise Unsupported('round to digits')
  return x.rint() if isinstance(x, SymReal) else round(x, n)


# ------------------------------------------------------------------ numpy shims
def _np_array(x, dtype=None, *a, **k):
  k.pop('copy', None)
  k.pop('ndmin', None) if not k.get('ndmin') else None
  if isinstance(x, np.ndarray):
    arr = np.array(x, dtype=object)
  else:
    arr = np.array(_plainlist(x), dtype=object)
  nd = k.pop('ndmin', 0)
  while arr.ndim < nd:
    arr = arr[None]
  if dtype is None or dtype is object:
    return arr
  return cast_array(arr, dtype)


def _plainlist(x):
  # 0-d object arrays inside lists are scalars
  if isinstance(x, (list, tuple)):
    return [_plainlist(e) for e in x]
  if isinstance(x, np.ndarray) and x.ndim == 0:
    return x[()]
  if isinstance(x, np.ndarray):
    return [_plainlist(e) for e in x]
  return x


def _np_asarray(x, dtype=None, *a, **k):
  if isinstance(x, np.ndarray) and dtype is None:
    return x
  return _np_array(x, dtype)


def _isfloatdt(dt):
  if dt is None:
    return True
  if dt in (float,) or dt in FLOATS:
    return True
  try:
    return np.dtype(dt).kind == 'f'
  except TypeError:
    return False


def _alloc(real):
  def h(shape, *a, **k):
    r = real(shape, *a, **k)
    return r.astype(object) if r.dtype.kind == 'f' else r
  return h


def _np_empty(shape, *a, **k):
  r = np.zeros(shape, *a, **k)
  return r.astype(object) if r.dtype.kind == 'f' else r


def _full(shape, fill, dtype=None, **k):
  if hassym(fill):
    r = np.empty(shape, dtype=object)
    r[...] = fill
    return r if dtype is None else cast_array(r, dtype)
  r = np.full(shape, settle(fill), dtype=dtype, **k)
  return r.astype(object) if r.dtype.kind == 'f' else r


def _like(value):
  def h(x, dtype=None, *a, **k):
    shape = k.get('shape') or np.shape(x)
    dt = dtype if dtype is not None else globals()['dtype'](np.asarray(x, dtype=object)
                                                           if hassym(x) else np.asarray(x))
    if _isfloatdt(dt) or dt == object:
      r = np.empty(shape, dtype=object)
      r[...] = float(value)
      return r
    return np.full(shape, value, dtype=dt)
  return h


def _full_like(x, fill, dtype=None, **k):
  return _full(np.shape(x), fill, dtype)


def _tile(x, reps):
  r = np.tile(toobj(x) if hassym(x) else x, reps)
  return r.astype(object) if r.dtype.kind == 'f' else r


def _np_copy(x, *a, **k):
  return np.array(x, dtype=object)


def _f1(name):
  def g(e):
    if isinstance(e, SYMS):
      return getattr(e, name)()
    with np.errstate(all='ignore'):
      return float(getattr(np, name)(float(e)))
  return g


def _isfin(e):
  return True if isinstance(e, SYMS) else bool(np.isfinite(e))


def _isnan(e):
  return False if isinstance(e, SYMS) else bool(np.isnan(e))


def _isinf(e):
  return False if isinstance(e, SYMS) else bool(np.isinf(e))


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  def one(x, y):
    if not isinstance(x, SYMS) and not isinstance(y, SYMS):
      return bool(np.isclose(x, y, rtol, atol))
    d = x - y
    if isinstance(d, float) and not math.isfinite(d):
      return False
    if d == 0:
      return True
    return bool(abs(d) <= atol + rtol * abs(y))
  return emapbool(one, a, b)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  if not hassym(a) and not hassym(b):
    return bool(np.allclose(settle(a), settle(b), rtol, atol))

  def one(x, y):
    if not isinstance(x, SYMS) and not isinstance(y, SYMS):
      return bool(np.isclose(x, y, rtol, atol))
    d = x - y
    if isinstance(d, float) and not math.isfinite(d):
      return False
    if isinstance(d, SymReal) and not d.num:
      return True
    if not isinstance(d, SymReal):
      return bool(abs(d) <= atol + rtol * abs(y))
    tol = atol + rtol * abs(y)
    return bool(d <= tol) and bool(-d <= tol)
  u, v = np.broadcast_arrays(toobj(a), toobj(b))
  return all(one(x, y) for x, y in zip(u.flat, v.flat))


def _pyclose(a, b, rel_tol=1e-9, abs_tol=0.):
  d = abs(a - b)
  return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))


def _array_equal(a, b, **k):
  a, b = toobj(a), toobj(b)
  if a.shape != b.shape:
    return False
  return all(bool(x == y) for x, y in zip(a.flat, b.flat))


def _isin(x, test, assume_unique=False, invert=False, kind=None):
  """ np.isin, including what assume_unique does to repeated elements """
  a = toobj(x)
  flat = list(a.flat)
  t = list(toobj(list(test) if isinstance(test, (set, range)) else test).flat)
  out = []
  ints = all(isinstance(e, SymReal) and e.isint or isinstance(e, (int, np.integer)) for e in t)
  table = False
  if ints and t and not any(isinstance(e, SymReal) for e in t):
    table = max(t) - min(t) <= 6 * (len(flat) + len(t))
  loose = not assume_unique or table or len(t) < 10 * len(flat) ** 0.145
  for i, e in enumerate(flat):
    r = any(bool(e == m) for m in t)
    if not r and not loose:
      r = any(bool(e == o) for o in flat[i + 1:])
    out.append(r != invert)
  r = np.array(out, dtype=bool).reshape(a.shape)
  return r if r.ndim else r[()]


def _digitize(x, bins, right=False):
  bl = list(np.ravel(toobj(bins)))
  inc = all(bool(p <= q) for p, q in zip(bl[:-1], bl[1:]))
  if not inc:
    dec = all(bool(p >= q) for p, q in zip(bl[:-1], bl[1:]))
    if not dec:
      raise ValueError("bins must be monotonically increasing or decreasing")

  def one(e):
    n = 0
    if inc:
      for b in bl:
        if (b < e) if right else (b <= e):
          n += 1
        else:
          break
    else:
      for b in bl:
        if (b >= e) if right else (b > e):
          n += 1
        else:
          break
    return n
  r = emap(one, x)
  return r.astype(int) if isinstance(r, np.ndarray) else np.int64(r)


def _searchsorted(a, v, side='left', sorter=None):
  al = list(np.ravel(toobj(a)))
  if sorter is not None:
    al = [al[int(i)] for i in sorter]

  def one(e):
    n = 0
    for b in al:
      if (b < e) if side == 'left' else (b <= e):
        n += 1
      else:
        break
    return n
  r = emap(one, v)
  return r.astype(int) if isinstance(r, np.ndarray) else np.int64(r)


def _interp(x, xp, fp, left=None, right=None, period=None):
  xl, fl = list(np.ravel(toobj(xp))), list(np.ravel(toobj(fp)))

  def one(e):
    if e < xl[0]:
      return fl[0] if left is None else left
    if e > xl[-1]:
      return fl[-1] if right is None else right
    for i in range(len(xl) - 1, -1, -1):
      if e >= xl[i]:
        if i == len(xl) - 1:
          return fl[-1]
        if e == xl[i]:
          return fl[i]
        slope = (fl[i + 1] - fl[i]) / (xl[i + 1] - xl[i])
        return fl[i] + slope * (e - xl[i])
    return fl[0]
  return emap(one, x)


def _linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
  num = operator.index(num)
  div = (num - 1) if endpoint else num
  out = np.empty(num, dtype=object)
  for i in range(num):
    if div <= 0:
      out[i] = a
    elif endpoint and i == num - 1:
      out[i] = b
    else:
      out[i] = a + (b - a) * core.Fraction(i, div)
  if dtype is not None:
    out = cast_array(out, dtype)
  if retstep:
    return out, (b - a) / div
  return out


def _arange(*args, **k):
  raise Unsupported("arange over symbolic bounds")


def _minmax(op):
  def one(a, b):
    if isinstance(a, float) and a != a:
      return a
    if isinstance(b, float) and b != b:
      return b
    if op == 'max':
      return a if a >= b else b
    return a if a <= b else b
  return one


def _logs(arr):
  eng = core.cur()
  return any(isinstance(e, SymReal) and not e.den and
             any(eng.atoms[i].kind in ('log', 'max') for m in e.num for i, _ in m)
             for e in arr.flat)


def _maxatom(items):
  syms, best = [], None
  for x in items:
    if not isinstance(x, SymReal):
      best = x if best is None or x > best else best
    elif not any(x.num == y.num for y in syms):
      syms.append(x)
  if best is not None and syms:
    # an impossible event (the most negative float) never is the maximum
    if best <= -1.7e308:
      best = None
    else:
      syms.append(SymReal.const(best))
  if not syms:
    return best
  if len(syms) == 1:
    return syms[0]
  if any(x.den for x in syms):
    r = syms[0]
    for x in syms[1:]:
      r = r if r >= x else x
    return r
  return core.cur().mkmax(syms)


def _extremum(which):
  def h(a, axis=None, out=None, keepdims=False, **k):
    arr = toobj(a)
    if which == 'max' and core.cur() is not None and _logs(arr):
      ax = tuple(range(arr.ndim)) if axis is None else \
          tuple(x % arr.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
      rest = [x for x in range(arr.ndim) if x not in ax]
      b = np.transpose(arr, rest + list(ax)).reshape([arr.shape[x] for x in rest] + [-1])
      r = np.empty(b.shape[:-1], dtype=object)
      for i in np.ndindex(*r.shape):
        r[i] = _maxatom(list(b[i]))
      if keepdims:
        r = np.expand_dims(r, ax)
      return unwrap(r)
    uf = np.maximum if which == 'max' else np.minimum
    return unwrap(uf.reduce(arr, axis=axis if axis is not None else tuple(range(arr.ndim)),
                            keepdims=keepdims))
  return h


def _clip(a, lo=None, hi=None, *r, **k):
  def one(x, l, h):
    if l is not None and x < l:
      x = l
    if h is not None and x > h:
      x = h
    return x
  l = toobj(lo) if lo is not None else np.array(None, dtype=object)
  h = toobj(hi) if hi is not None else np.array(None, dtype=object)
  return emap(one, a, l, h)


def _power(x, e):
  return x ** e


def _logaddexp(a, b):
  a, b = core.SymReal.lift(a), core.SymReal.lift(b)
  s = a.exp() + b.exp()
  return s.log() if isinstance(s, SymReal) else math.log(s)


def _logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
  arr = toobj(a)
  e = emap(lambda x: x.exp() if isinstance(x, SymReal) else math.exp(x), arr)
  if b is not None:
    e = e * b
  s = np.sum(e, axis=axis, keepdims=keepdims)
  return emap(lambda x: x.log() if isinstance(x, SymReal) else math.log(x), s)


def _mean(a, axis=None, **k):
  arr = toobj(a)
  n = arr.size if axis is None else arr.shape[axis]
  return np.sum(arr, axis=axis, **k) / n


def _sym_isscalar(x):
  return True if isinstance(x, SYMS) else np.isscalar(x)


def _npreal(x):
  return x.real if isinstance(x, SYMS) else np.real(x)


def _npimag(x):
  if isinstance(x, SYMS):
    return x.imag
  return np.zeros(np.shape(x))


def _npabs(x):
  return emap(abs, x)


def _iscomplexobj(x):
  return isinstance(x, SymComplex)


def _det(m):
  m = [list(r) for r in toobj(m)]
  n = len(m)
  if n == 1:
    return m[0][0]
  tot = 0.
  for j in range(n):
    minor = [r[:j] + r[j + 1:] for r in m[1:]]
    t = m[0][j] * _det(np.array(minor, dtype=object))
    tot = tot + t if j % 2 == 0 else tot - t
  return tot


def _inv(m):
  a = toobj(m)
  n = a.shape[0]
  d = _det(a)
  out = np.empty((n, n), dtype=object)
  if n == 1:
    out[0, 0] = 1. / a[0, 0]
    return out
  for i in range(n):
    for j in range(n):
      minor = np.delete(np.delete(a, i, 0), j, 1)
      c = _det(minor)
      out[j, i] = (c if (i + j) % 2 == 0 else -c) / d
  return out


def _solve(a, b):
  return np.dot(_inv(a), toobj(b))


def _ravel(x, *a, **k):
  return toobj(x).reshape(-1)


def _atleast_1d(x):
  a = toobj(x)
  return a.reshape(1) if a.ndim == 0 else a


def _vtcall(t):
  def h(x=0.):
    if isinstance(x, np.ndarray):
      return cast_array(x, t)
    if isinstance(x, (list, tuple)):
      return cast_array(np.array(x, dtype=object), t)
    return cast_scalar(x, t)
  return h


def _f1map(name):
  g = _f1(name)
  return lambda x, *a, **k: emap(g, x)


def _astype(self, dt, *a, **k):
  if not hassym(self):
    s = settle(self)
    if s.dtype != object:
      r = s.astype(dt, *a, **k)
      return r.astype(object) if r.dtype.kind == 'f' else r
  return cast_array(self, dt)


def _m_searchsorted(self, *a, **k):
  return _searchsorted(self, *a, **k)


def _m_mean(self, *a, **k):
  return _mean(self, *a, **k)


def _m_round(self, *a, **k):
  return emap(lambda e: e.rint() if isinstance(e, SymReal) else round(e), self)


def _m_max(self, *a, **k):
  return _extremum('max')(self, *a, **k)


def _m_min(self, *a, **k):
  return _extremum('min')(self, *a, **k)


METHODS = {'astype': _astype, 'searchsorted': _m_searchsorted, 'mean': _m_mean,
           'round': _m_round, 'max': _m_max, 'min': _m_min,
           'clip': lambda self, *a, **k: _clip(self, *a, **k)}

UFUNCS = {
    'maximum': _minmax('max'), 'minimum': _minmax('min'), 'fmax': _minmax('max'),
    'fmin': _minmax('min'), 'isfinite': _isfin, 'isnan': _isnan, 'isinf': _isinf,
    'power': _power, 'float_power': _power, 'logaddexp': _logaddexp,
    'absolute': abs, 'fabs': abs,
}
for _n in ('log', 'exp', 'sqrt', 'log1p', 'expm1', 'log2', 'log10', 'exp2', 'sign',
           'floor', 'ceil', 'trunc', 'rint', 'square', 'reciprocal'):
  UFUNCS[_n] = _f1(_n)


def _bool_ufunc(g):
  return lambda x, *a, **k: emapbool(g, x)


class RandomStub:
  """ np.random replaced by arbitrary values of the documented range """


def _draw(lo, hi, size, closed_hi=False, isint=False):
  from symx import scenario
  return scenario.current().draw(lo, hi, size, closed_hi, isint)


def _rnd_uniform(low=0.0, high=1.0, size=None):
  return _draw(low, high, size)


def _rnd_random(size=None):
  return _draw(0., 1., size)


def _rnd_rand(*dims):
  return _draw(0., 1., dims if dims else None)


def _rnd_randint(low, high=None, size=None, dtype=int):
  if high is None:
    low, high = 0, low
  return _draw(low, high - 1, size, True, True)


def _rnd_normal(loc=0., scale=1., size=None):
  z = _draw(None, None, size)
  return z * scale + loc


def _rnd_randn(*dims):
  return _draw(None, None, dims if dims else None)


def _rnd_permutation(x):
  from symx import scenario
  return scenario.current().permutation(x)


def _rnd_shuffle(x):
  p = _rnd_permutation(len(x))
  old = [x[int(i)] for i in p]
  for i, v in enumerate(old):
    x[i] = v


def _rnd_choice(a, size=None, replace=True, p=None):
  raise Unsupported("np.random.choice")


from symx import fakeh5
try:
  import h5py as _h5py
  _H5 = {_h5py.File: fakeh5.File}
except ImportError:
  _H5 = {}

ALWAYS = {
    np.zeros: _alloc(np.zeros), np.ones: _alloc(np.ones), np.empty: _np_empty,
    np.full: _full, np.zeros_like: _like(0.), np.ones_like: _like(1.),
    np.empty_like: _like(0.), np.full_like: _full_like, np.tile: _tile,
    np.random.uniform: _rnd_uniform, np.random.random: _rnd_random,
    np.random.random_sample: _rnd_random, np.random.ranf: _rnd_random,
    np.random.sample: _rnd_random,
    np.random.rand: _rnd_rand, np.random.randint: _rnd_randint,
    np.random.normal: _rnd_normal, np.random.randn: _rnd_randn,
    np.random.standard_normal: lambda size=None: _draw(None, None, size),
    np.random.permutation: _rnd_permutation, np.random.shuffle: _rnd_shuffle,
    np.random.choice: _rnd_choice,
}
ALWAYS.update(_H5)
ALWAYS[sympy.lambdify] = icons.lambdify(sympy.lambdify)
ALWAYS[sympy.utilities.autowrap.ufuncify] = icons.lambdify(sympy.lambdify)

HANDLERS = {
    float: _float, int: _int, bool: _bool, complex: _complex, isinstance: _isinstance,
    type: _type, round: _round,
    np.array: _np_array, np.asarray: _np_asarray, np.asanyarray: _np_asarray,
    np.ascontiguousarray: _np_asarray, np.copy: _np_copy,
    np.isclose: _isclose, np.allclose: _allclose, math.isclose: _pyclose,
    np.array_equal: _array_equal, np.isin: _isin,
    np.digitize: _digitize, np.searchsorted: _searchsorted, np.interp: _interp,
    np.linspace: _linspace, np.arange: _arange, np.clip: _clip,
    np.max: _extremum('max'), np.amax: _extremum('max'), np.min: _extremum('min'),
    np.amin: _extremum('min'), np.mean: _mean, np.isscalar: _sym_isscalar,
    np.real: _npreal, np.imag: _npimag, np.abs: _npabs, np.absolute: _npabs,
    np.iscomplexobj: _iscomplexobj,
    np.linalg.inv: _inv, np.linalg.det: _det, np.linalg.solve: _solve,
    np.isfinite: _bool_ufunc(_isfin), np.isnan: _bool_ufunc(_isnan),
    np.isinf: _bool_ufunc(_isinf),
    np.float64: _vtcall(float), np.float32: _vtcall(float), np.int64: _vtcall(int),
    np.bool_: _vtcall(bool),
    np.round: lambda x, *a, **k: emap(lambda e: e.rint() if isinstance(e, SymReal) else round(e), x),
    np.ravel: _ravel, np.atleast_1d: _atleast_1d,
    math.log: lambda x, *b: (_f1('log')(x) if not b else _f1('log')(x) / math.log(b[0])),
    math.exp: _f1('exp'), math.sqrt: _f1('sqrt'), math.isfinite: _isfin, math.isnan: _isnan,
    math.isinf: _isinf, math.floor: lambda x: x.floor(), math.ceil: lambda x: x.ceil(),
    math.fabs: abs, math.log1p: _f1('log1p'), math.pow: _power,
    math.log2: _f1('log2'), math.log10: _f1('log10'),
    math.prod: lambda xs, start=1: __import__('functools').reduce(operator.mul, xs, start),
    math.fsum: lambda xs: builtins.sum(xs),
}
HANDLERS[sympy.Float] = lambda x, *a, **k: icons.icon(x) if isinstance(x, SymReal) else x
HANDLERS[sympy.Integer] = HANDLERS[sympy.Float]
HANDLERS[sympy.log] = lambda x: sympy.log(x)
try:
  import scipy.special as _sp
  HANDLERS[_sp.logsumexp] = _logsumexp
except Exception:
  pass
