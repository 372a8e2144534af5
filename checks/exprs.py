""" C30: expressions bind arguments as declared """
import itertools
import sympy
from checks.common import *
from symx.registry import add

ABSENT = 'absent'


class Probe:
  """ a function of a, b, c recording what it was called with """

  def __init__(self, cx, ret=None, key=None):
    self.cx, self.key = cx, key
    self.ret = cx.real('ret{}'.format(key or ''), -5., 5.) if ret is None else ret
    self.calls = []

  def named(self):
    def fn(a=ABSENT, b=ABSENT, c=ABSENT):
      self.calls.append({'a': a, 'b': b, 'c': c})
      return self.ret
    return fn

  def lam(self):
    return lambda a=ABSENT, b=ABSENT, c=ABSENT: self.calls.append({'a': a, 'b': b, 'c': c}) or self.ret

  def anyargs(self):
    def fn(*args, **kwds):
      d = dict(zip('abc', args))
      d.update(kwds)
      self.calls.append({k: d.get(k, ABSENT) for k in 'abc'})
      return self.ret
    return fn

  def bound(self, want, label):
    """ called exactly once, with exactly the bindings wanted """
    cx = self.cx
    cx.same(len(self.calls), 1, label + ': calls')
    if len(self.calls) != 1:
      return
    got = self.calls.pop()
    for k in 'abc':
      if k in want:
        if isinstance(got[k], str) or got[k] is None:
          cx.fail('{}: {} not given'.format(label, k))
        else:
          cx.eq(got[k], want[k], '{}: {}'.format(label, k))
      else:
        cx.true(isinstance(got[k], str), '{}: {} given'.format(label, k))


def mk(pb, cls, *args, **kwds):
  if cls == 'Func':
    from probayes.func import Func
    return Func(*args, **kwds)
  if cls == 'CF':
    return pb.CF(pb.RV('a', [-5., 5.]) & pb.RV('b', [-5., 5.]), None, *args, **kwds)
  if cls == 'Prob':
    from probayes.prob import Prob
    return Prob(*args, **kwds)
  return pb.Expression(*args, **kwds)


def order(cx, pb, mapping=None, cls='Expression', how='kwds', multi=None, sig='named', given='xyz'):
  """ keyword arguments by position or renamed """
  p = Probe(cx)
  f = getattr(p, sig)()
  if multi == 'tuple':
    e = mk(pb, cls, (f, f), order=dict(mapping))[1]
  elif multi == 'dict':
    e = mk(pb, cls, {'u': f, 'v': f}, order=dict(mapping))['v']
  elif multi == 'later':
    e = mk(pb, cls, f)
    e.set_order(dict(mapping))
  else:
    e = mk(pb, cls, f, order=dict(mapping))
  v = {k: cx.real(k, -5., 5.) for k in given}
  before = dict(v)
  r = e(v) if how == 'dict' else e(**v)
  want = {}
  for k, m in mapping.items():
    if m is None:
      continue
    want['abc'[m] if type(m) is int else m] = v[k]
  for k in given:
    if k not in mapping:
      want[k] = v[k]
  p.bound(want, 'order')
  cx.eq(r, p.ret, 'value')
  cx.same(list(v), list(before), 'arguments kept')


_TARGETS = [0, 1, 2, 'a', 'b', 'c', None]
_MAPS = []
for ms in itertools.product(_TARGETS, repeat=3):
  slots = [m if isinstance(m, str) else 'abc'[m] for m in ms if m is not None]
  ints = {m for m in ms if type(m) is int}
  if len(set(slots)) != len(slots) or (ints and ints != set(range(len(ints)))):
    continue
  _MAPS.append(dict(zip('xyz', ms)))


def _tag(m):
  return ''.join('{}{}'.format(k, '-' if v is None else v) for k, v in m.items()).replace("'", 'p')


for i, m in enumerate(_MAPS):
  quick = i % 4 == 0
  add('C30', 'order_' + _tag(m), order, mapping=m, thorough=not quick)
  add('C30', 'order_{}_func'.format(_tag(m)), order, mapping=m, cls='Func', thorough=i % 8 != 1)
for h in ('kwds', 'dict'):
  for c in ('Expression', 'Func', 'Prob'):
    add('C30', 'order_{}_{}'.format(h, c), order, mapping={'x': 1, 'y': 0, 'z': 'c'}, how=h, cls=c)
for mu in ('tuple', 'dict', 'later'):
  add('C30', 'order_multi_' + mu, order, mapping={'x': 1, 'y': 0, 'z': None}, multi=mu)
for fn in ('lam', 'anyargs'):
  add('C30', 'order_' + fn, order, mapping={'x': 1, 'y': 0, 'z': 'c'}, sig=fn)

# names exchanged: the function's own argument names are those of the variables
for m in ({'a': 'b', 'b': 'a'}, {'a': 'b', 'b': 'c', 'c': 'a'}, {'a': 'b', 'b': 0}, {'a': 1, 'b': 'c', 'c': 0},
          {'a': 'c', 'c': None}, {'a': 'b'}, {'c': 'a', 'a': 'c'}):
  for c in ('Expression', 'Func'):
    add('C30', 'exchange_{}_{}'.format(_tag(m), c), order, mapping=m, cls=c,
        given=''.join(sorted(m)) if set(m.values()) & set(m) else 'ac')


def delta(cx, pb, mapping=None, cls='Expression', how='kwds', multi=None, given=("x", "x'", "y", "y'")):
  """ differences of primed and unprimed variables """
  p = Probe(cx)
  f = p.named()
  if multi == 'tuple':
    e = mk(pb, cls, (f, f), delta=dict(mapping))[0]
  elif multi == 'later':
    e = mk(pb, cls, f)
    e.set_delta(dict(mapping))
  else:
    e = mk(pb, cls, f, delta=dict(mapping))
  v = {k: cx.real(k.replace("'", 'p'), -5., 5.) for k in given}
  r = e(dict(v)) if how == 'dict' else e(**v)
  want = {}
  for k, m in mapping.items():
    if m is not None:
      want['abc'[m] if type(m) is int else m] = v[k] - v[k[:-1]] if k.endswith("'") else v[k]
  p.bound(want, 'delta')
  cx.eq(r, p.ret, 'value')


for m in ({"x'": 0, "y'": 1}, {"x'": 1, "y'": 0}, {"x'": 'a', "y'": 'b'}, {"x'": 'c', "y'": 0}, {"y'": 0, "x'": None},
          {"x'": 0, 'y': 1, "z'": 2}, {'y': 'c', "x'": 'a'}):
  g = tuple(itertools.chain(*[(k[:-1], k) if k.endswith("'") else (k,) for k in m]))
  for c in ('Expression', 'Func'):
    for h in ('kwds', 'dict'):
      add('C30', 'delta_{}_{}_{}'.format(_tag(m), c, h), delta, mapping=m, cls=c, how=h, given=g)
for mu in ('tuple', 'later'):
  add('C30', 'delta_multi_' + mu, delta, mapping={"x'": 1, "y'": 0}, multi=mu)


def plain(cx, pb, cls='Expression', sig='named', how='kwds', defaults='none', multi=None):
  """ arguments passed on as they are, after those given with the function """
  p = Probe(cx)
  q = Probe(cx, key='q')
  f = getattr(p, sig)()
  x, y, z = (cx.real(k, -5., 5.) for k in 'xyz')
  args, kwds = (), {}
  if defaults == 'args':
    args = (z,)
  elif defaults == 'kwds':
    kwds = {'c': z}
  g = q.lam() if sig == 'lam' else q.named()
  if multi == 'tuple':
    es = mk(pb, cls, (g, f), *args, **kwds)
    e = es[1]
  elif multi == 'last':
    es = mk(pb, cls, (g, f), *args, **kwds)
    e = es[-1]
  elif multi == 'dict':
    es = mk(pb, cls, {'g': g, 'f': f}, *args, **kwds)
    e = es['f']
  elif multi == 'held':                # the other one taken in between
    es = mk(pb, cls, (f, g), *args, **kwds)
    e = es[0]
    es[1]
  else:
    e = mk(pb, cls, f, *args, **kwds)
  names = 'abc'[len(args):]
  if how == 'args':
    r = e(x, y)
  elif how == 'kwds':
    r = e(**{names[0]: x, names[1]: y})
  elif how == 'dict':
    r = e({names[0]: x, names[1]: y})
  else:
    r = e(x, **{names[1]: y})
  want = {names[0]: x, names[1]: y}
  if defaults != 'none':
    want['a' if defaults == 'args' else 'c'] = z
  p.bound(want, 'call')
  cx.same(len(q.calls), 0, 'calls of the other function')
  cx.eq(r, p.ret, 'value')
  r = e(**{names[0]: y, names[1]: x})       # nothing remembered between calls
  want.update({names[0]: y, names[1]: x})
  p.bound(want, 'second call')


for c in ('Expression', 'Func', 'Prob'):
  for h in ('args', 'kwds', 'dict', 'mixed'):
    for d in ('none', 'args', 'kwds'):
      add('C30', 'plain_{}_{}_{}'.format(c, h, d), plain, cls=c, how=h, defaults=d,
          **({'multi': None}))
for mu in ('tuple', 'last', 'dict', 'held'):
  for h in ('args', 'kwds', 'dict'):
    add('C30', 'multi_{}_{}'.format(mu, h), plain, multi=mu, how=h, defaults='kwds')
    add('C30', 'multi_{}_{}_lambda'.format(mu, h), plain, multi=mu, how=h, sig='lam')
for c in ('Func', 'CF'):
  for mu in ('tuple', 'held'):
    for h in ('args', 'kwds', 'dict'):
      add('C30', 'multi_{}_{}_{}'.format(mu, h, c), plain, cls=c, multi=mu, how=h, defaults='kwds')
for h in ('args', 'kwds', 'dict', 'mixed'):
  add('C30', 'plain_CF_' + h, plain, cls='CF', how=h)
for h in ('args', 'kwds', 'dict'):
  add('C30', 'lambda_' + h, plain, sig='lam', how=h)
  add('C30', 'anyargs_' + h, plain, sig='anyargs', how=h)


def override(cx, pb, cls='Expression', how='kwds', multi=None):
  """ what a call gives takes the place of what was given with the function """
  p, q = Probe(cx), Probe(cx, key='q')
  x, y, z, w = (cx.real(k, -5., 5.) for k in 'xyzw')
  f, g = p.named(), q.named()
  e = {None: lambda: mk(pb, cls, f, c=z), 'tuple': lambda: mk(pb, cls, (g, f), c=z)[1],
       'dict': lambda: mk(pb, cls, {'f': f, 'g': g}, c=z)['f']}[multi]()
  for c in (w, None, y):                     # and for that call only
    kw = {} if c is None else {'c': c}
    if how == 'kwds':
      e(a=x, b=y, **kw)
    elif how == 'dict':
      e({'a': x, 'b': y, **kw})
    elif how == 'mixed':
      e({'b': y, **kw}, a=x)
    else:
      e(x, y, **kw)
    p.bound({'a': x, 'b': y, 'c': z if c is None else c}, 'call')
  cx.same(len(q.calls), 0, 'calls of the other function')


for h in ('kwds', 'dict', 'mixed', 'args'):
  for c in ('Expression', 'Prob'):
    add('C30', 'override_{}_{}'.format(h, c), override, how=h, cls=c)
  for mu in ('tuple', 'dict'):
    add('C30', 'override_{}_{}'.format(h, mu), override, how=h, multi=mu)


def length(cx, pb, n=2):
  """ how many functions were declared """
  p = [Probe(cx, key=str(i)) for i in range(n)]
  cx.same(len(pb.Expression(tuple(e.named() for e in p))), n, 'functions of a tuple')
  cx.same(len(pb.Expression({'k%d' % i: e.named() for i, e in enumerate(p)})), n, 'functions of a dictionary')
  s = [sympy.Symbol('s%d' % i) for i in range(n)]
  cx.same(len(pb.Expression(tuple(2 * e for e in s))), n, 'iconic functions of a tuple')
  cx.same(len(pb.Expression(tuple(cx.real('v%d' % i, -5., 5.) for i in range(n)))), n, 'values of a tuple')


for n in (1, 2, 3):
  add('C30', 'length_{}'.format(n), length, n=n)


def lambdas(cx, pb, kind='kwds', cls='Expression', how='kwds'):
  """ lambda functions of every signature """
  x, y = cx.real('x', -5., 5.), cx.real('y', -5., 5.)
  f = {'kwds': lambda **k: k['x'] - 2 * k['y'],
       'args': lambda *a: a[0] - 2 * a[1],
       'both': lambda *a, **k: (a[0] if a else k['x']) - 2 * (a[1] if a else k['y']),
       'only': lambda *, x, y: x - 2 * y,
       'free': lambda: 7.}[kind]
  e = mk(pb, cls, f)
  r = e(x, y) if how == 'args' else e({'x': x, 'y': y}) if how == 'dict' else e(x=x, y=y) if how == 'kwds' else \
      e(x=x) if how == 'one' else e()
  cx.eq(r, 7. if kind == 'free' else x - 2 * y, 'value')


for k, hs in (('kwds', ('kwds', 'dict')), ('args', ('args',)), ('both', ('args', 'kwds', 'dict')), ('only', ('kwds', 'dict')),
              ('free', ('none', 'kwds', 'one', 'dict'))):
  for h in hs:
    add('C30', 'signature_{}_{}'.format(k, h), lambdas, kind=k, how=h)
    add('C30', 'signature_{}_{}_prob'.format(k, h), lambdas, kind=k, how=h, cls='Prob')


def constants(cx, pb, multi=None, cls='Expression'):
  """ values in place of functions """
  u, v = cx.real('u', -5., 5.), cx.real('v', -5., 5.)
  if multi is None:
    e = mk(pb, cls, u)
    cx.eq(e(), u, 'value')
    cx.raises(lambda: e(v), 'arguments to a value')
    cx.raises(lambda: mk(pb, cls, u, v), 'arguments with a value')
    if cls != 'Func':
      cx.same(e.callable, False, 'callable')
  elif multi == 'tuple':
    e = mk(pb, cls, (u, v))
    for i, w in enumerate((u, v)):
      cx.eq(e[i](), w, 'value')
    cx.eq(e[-1](), v, 'last value') if cls != 'Func' else None
    if cls != 'Func':
      cx.eq(e[:][1], v, 'all of them')
    cx.raises(lambda: e(), 'call of several')
  else:
    e = mk(pb, cls, {'a': u, 'b': v})
    for k, w in (('a', u), ('b', v)):
      cx.eq(e[k](), w, 'value')
    cx.raises(lambda: e(), 'call of several', (AssertionError,))


for mu in (None, 'tuple', 'dict'):
  add('C30', 'constant_{}'.format(mu), constants, multi=mu)
for mu in (None, 'tuple'):
  add('C30', 'constant_{}_func'.format(mu), constants, multi=mu, cls='Func')


def iconic(cx, pb, multi=None, how='kwds'):
  """ sympy expressions """
  x, y = sympy.Symbol('x'), sympy.Symbol('y')
  p, q = cx.real('p', -5., 5.), cx.real('q', 0.5, 5.)
  f, g = 3 * x - y, x * y + 2
  def call(e):
    return e({'x': p, 'y': q}) if how == 'dict' else e(p, q) if how == 'args' else e(x=p, y=q) if how == 'kwds' else \
        e({y: q, x: p})
  F, G = 3 * p - q, p * q + 2
  if multi is None:
    e = pb.Expression(f)
    cx.eq(call(e), F, 'value')
    cx.true(e.isiconic and not e.ismulti, 'iconic')
    cx.same(set(e.symbols), {'x', 'y'}, 'symbols')
  elif multi == 'tuple':
    e = pb.Expression((f, g))
    cx.eq(call(e[0]), F, 'first')
    cx.eq(call(e[1]), G, 'second')
    cx.eq(call(e[-1]), G, 'last')
  else:
    e = pb.Expression({'f': f, 'g': g})
    cx.eq(call(e['f']), F, 'first')
    cx.eq(call(e['g']), G, 'second')
  cx.raises(lambda: pb.Expression(f, delta={"x'": 0}), 'differences of symbols')


for mu in (None, 'tuple', 'dict'):
  for h in ('kwds', 'dict', 'objects', 'args'):
    add('C30', 'iconic_{}_{}'.format(mu, h), iconic, multi=mu, how=h)


def inverse(cx, pb, kind='affine'):
  """ invertible sympy expressions: 0 forward, 1 (or -1) backward """
  x = sympy.Symbol('x', **({'positive': True} if kind == 'square' else {}))
  v = cx.real('v', 0.5, 4.)
  f = {'affine': 3 * x - 2, 'recip': 1 / x, 'frac': (x + 1) / (2 * x + 3), 'log': sympy.log(x), 'exp': sympy.exp(x),
       'square': x ** 2}[kind]
  F = {'affine': lambda v: 3 * v - 2, 'recip': lambda v: 1 / v, 'frac': lambda v: (v + 1) / (2 * v + 3), 'log': cx.logp,
       'exp': cx.exp, 'square': lambda v: v * v}[kind]
  e = pb.Expression(f, invertible=True)
  w = e[0](v)
  cx.eq(w, F(v), 'forward')
  for i in (1, -1):
    cx.eq(e[i](F(v)), v, 'back')
  D = {'affine': lambda v: 3., 'recip': lambda v: -1 / (v * v), 'frac': lambda v: 1 / ((2 * v + 3) * (2 * v + 3)),
       'log': lambda v: 1 / v, 'exp': cx.exp, 'square': lambda v: 2 * v}[kind]
  cx.eq(e.derinv(x=v) if e.derinv.symbols else e.derinv(), D(v), 'derivative')


for k in ('affine', 'recip', 'frac', 'log', 'exp', 'square'):
  add('C30', 'inverse_' + k, inverse, kind=k)


def refused(cx, pb, what='both'):
  """ declarations that make no sense """
  u = cx.real('u', -5., 5.)
  f = lambda x: x
  def g(x):
    return x
  E = pb.Expression
  ok = E(f)
  cx.eq(ok(u), u, 'value')
  if what == 'both':
    cx.raises(lambda: E(f, order={'x': 0}, delta={"x'": 0}), 'order and delta')
  elif what == 'gap':
    cx.raises(lambda: E(f, order={'x': 0, 'y': 2}), 'positions with a gap', (AssertionError,))
  elif what == 'kind':
    cx.raises(lambda: E(f, order={'x': 0.5}), 'positions neither integer nor name', (TypeError,))
  elif what == 'list':
    cx.raises(lambda: E(f, order=['x']), 'order not a dictionary', (AssertionError,))
  elif what == 'mixed':
    cx.raises(lambda: E((f, u)), 'functions and values', (AssertionError,))
  elif what == 'mixture':
    for o in ([u], None, {'a': u}):
      cx.raises(lambda: E((g, o)), 'functions and objects', (AssertionError,))
      cx.raises(lambda: E({'a': o, 'b': g}), 'functions and objects', (AssertionError,))
  elif what == 'after':
    e = E(g, delta={"x'": 0})
    cx.raises(lambda: e.set_order({'x': 0}), 'order after delta', (AssertionError,))
    e = E(g, order={'x': 0})
    cx.raises(lambda: e.set_delta({"x'": 0}), 'delta after order', (AssertionError,))
    e.set_order()
    e.set_delta({"x'": 0})
    cx.eq(e(**{"x'": u, 'x': 1.}), u - 1., 'difference')
  elif what == 'lambda':
    cx.raises(lambda: E((f, g)), 'lambdas and functions', (AssertionError,))
  elif what == 'multi':
    e = E((f, f))
    cx.raises(lambda: e(u), 'call of several functions', (AssertionError,))
    d = E({'a': f, 'b': f})
    cx.raises(lambda: d(u), 'call of several functions', (AssertionError,))
  elif what == 'single':
    cx.raises(lambda: ok[0], 'indexing one function', (AssertionError,))
  elif what == 'missing':
    e = E(g, order={'x': 0, 'y': None})
    cx.raises(lambda: e(y=u), 'missing argument')


for w in ('both', 'gap', 'kind', 'list', 'mixed', 'mixture', 'after', 'lambda', 'multi', 'single', 'missing'):
  add('C30', 'refused_' + w, refused, what=w)


def symbols(cx, pb, names=('x', 'y'), assume='positive', how='kwds', array=None, multi=False):
  """ symbols with assumptions and peculiar names """
  s = [sympy.Symbol(n, **({assume: True} if assume else {})) for n in names]
  one = lambda k: cx.real(k, 0.5, 4.)
  v = [one('p'), one('q')]
  f = 3 * s[0] * s[0] - s[1] * s[0] + 2 * s[1]
  F = lambda a, b: 3. * a * a - b * a + 2. * b
  e = pb.Expression((s[0], f)) if multi else pb.Expression(f)
  e = e[1] if multi else e
  if array == 'both':
    v = [cx.reals('p', (2,), 0.5, 4.), cx.reals('q', (2,), 0.5, 4.)]
  elif array == 'grid':
    v = [cx.reals('p', (2, 1), 0.5, 4.), cx.reals('q', (1, 3), 0.5, 4.)]
  if how == 'kwds':
    r = e(**dict(zip(names, v)))
  elif how == 'dict':
    r = e(dict(zip(names, v)))
  elif how == 'back':
    r = e(dict(zip(names[::-1], v[::-1])))
  elif how == 'objects':
    r = e(dict(zip(s, v)))
  else:
    k = sorted(range(2), key=lambda i: names[i])
    r = e(*[v[i] for i in k])
  cx.eq(r, F(*v), 'value')


for nm in (('x', 'y'), ('beta', 'N'), ('y', 'x'), ('S', 'gamma'), ('lamda', 'E'), ('x1', 'x10'), ('b', 'a')):
  for h in ('kwds', 'dict', 'back', 'objects', 'args'):
    add('C30', 'symbols_{}_{}'.format('_'.join(nm), h), symbols, names=nm, how=h, assume=None)
for a in ('positive', 'real', 'nonnegative'):
  for h in ('kwds', 'dict', 'args'):
    add('C30', 'symbols_{}_{}'.format(a, h), symbols, how=h, assume=a)
    for r in ('both', 'grid'):
      add('C30', 'symbols_{}_{}_{}'.format(a, h, r), symbols, how=h, assume=a, array=r)
  add('C30', 'symbols_{}_multi'.format(a), symbols, assume=a, multi=True)


def truths(cx, pb, how='kwds', which=(0,), expr='mixed'):
  """ symbols given boolean values stand for 0 and 1 """
  names = ('x', 'y')
  s = [sympy.Symbol(n) for n in names]
  v = [bool(cx.choose(2)) if i in which else cx.real('v%d' % i, -3., 3.) for i in range(2)]
  F = {'mixed': lambda a, b: 3 * a * a - b * a + 2 * b, 'less': lambda a, b: 2 - a - b, 'only': lambda a, b: 5 - 2 * a}[expr]
  e = pb.Expression(F(*s))
  w = v if expr != 'only' else v[:1]
  k = names[:len(w)]
  if how == 'kwds':
    r = e(**dict(zip(k, w)))
  elif how == 'dict':
    r = e(dict(zip(k, w)))
  else:
    r = e(*w)
  f = [int(q) if isinstance(q, bool) else q for q in v]
  cx.eq(r, F(*f), 'value')
  cx.true(not isinstance(r, sympy.Basic), 'a number')


for h in ('kwds', 'dict', 'args'):
  for w in ((0,), (1,), (0, 1)):
    for x in ('mixed', 'less', 'only'):
      if x != 'only' or w == (0,):
        add('C30', 'truths_{}_{}_{}'.format(x, h, ''.join(map(str, w))), truths, how=h, which=w, expr=x)
