""" C19: uniform probabilities; C20: Bernoulli variables; C22: transitions """
from checks.common import *
from checks.variables import FORMS, INTSETS, mkset, mkvar, within, near, T, ufuns, spaced
from symx.registry import add

PS = {'lin': None, 'one': 1., 'coef': 2.5, 'log': 'log', 'zero': 0j, 'logoff': complex(0.75, 0.),
      'logneg': complex(0.75, math.pi)}


def kw(ps):
  return {} if PS[ps] is None else {'pscale': PS[ps]}


def pscale_of(ps):
  p = PS[ps]
  return 1. if p is None else 0j if p == 'log' else p


def checkscale(cx, obj, ps):
  samescale(cx, obj.pscale, pscale_of(ps), 'scale')


def outside(cx, p, ps):
  """ the value standing for probability zero """
  if ps in ('lin', 'one', 'coef'):
    cx.eq(p, 0., 'zero outside the set')
  else:
    cx.true(p < -1e300, 'zero outside the set')


def uniform(cx, pb, form, ps='lin', size=None, explicit=False, values=True, kind=None, late=False):
  """ the default probability density is the reciprocal of the length inside, zero outside """
  lo, hi = (0.1, 50.) if kind == 'log' else (-20., 20.)
  a = cx.real('a', lo, hi)
  b = cx.real('b', lo, hi)
  cx.assume(b > a + 0.01)
  args = kw(ps)
  q = None
  if explicit:
    q = cx.prob('q')
    args['prob'] = cx.stored(q, pscale_of(ps))
  v = pb.RV('x', vset=mkset(form, a, b) if not late else [a - 1., b + 2.], vtype=float, **args)
  if late:
    v.vset = mkset(form, a, b)
  if kind:
    v.set_ufun(ufuns(cx, kind))
  L = (b - a) if not kind else T(cx, kind, b) - T(cx, kind, a)
  if kind:
    cx.assume(L > 0.01)
  want = q if explicit else 1. / L
  if values is None:
    d = v()
    cx.eq(cx.linear(d.prob, d.pscale), want, 'density')
    cx.le(a, d['x'], 'within')
    cx.le(d['x'], b, 'within')
    return
  if isinstance(values, int) and not isinstance(values, bool):
    d = v({values})
    cx.same(np.shape(d.prob), (values,), 'shape')
    cx.same(dict(d.dims), {'x': 0}, 'axis')
    for e in np.asarray(cx.linear(d.prob, d.pscale), dtype=object):
      cx.eq(e, want, 'density')
    return
  x = cx.real('x', -60., 60.) if size is None else cx.reals('x', (size,), -60., 60.)
  xs = [x] if size is None else list(x)
  for e in xs:
    near(cx, e, a, b)
  d = v(x)
  checkscale(cx, d, ps)
  cx.same(set(d.keys()), {'x'}, 'variables')
  ps_ = [d.prob] if size is None else list(np.asarray(d.prob, dtype=object))
  cx.same(len(ps_), len(xs), 'one probability per value')
  for e, p in zip(xs, ps_):
    if within(e, a, b, form):
      cx.eq(cx.linear(p, d.pscale), want, 'density inside')
    else:
      outside(cx, p, ps)


for f in FORMS:
  add('C19', 'float_' + f, uniform, form=f)
  add('C19', 'float_array_' + f, uniform, form=f, size=2)
for ps in PS:
  add('C19', 'float_' + ps, uniform, form='oc', ps=ps)
  add('C19', 'float_array_' + ps, uniform, form='co', ps=ps, size=2)
  add('C19', 'float_n_' + ps, uniform, form='oo', ps=ps, values=3)
  add('C19', 'float_none_' + ps, uniform, form='cc', ps=ps, values=None)
  add('C19', 'float_explicit_' + ps, uniform, form='cc', ps=ps, explicit=True)
  add('C19', 'float_late_' + ps, uniform, form='oo', ps=ps, late=True)
for k in ('lin', 'any'):
  add('C19', 'ufun_' + k, uniform, form='oc', kind=k)
  add('C19', 'ufun_array_' + k, uniform, form='co', kind=k, size=2)
  add('C19', 'ufun_log_' + k, uniform, form='co', kind=k, ps='log')


def discrete(cx, pb, which, ps='lin', mode='all', explicit=False):
  vs = INTSETS[which] if which != 'bool' else None
  args = kw(ps)
  if explicit:
    q = cx.prob('q')
    args['prob'] = cx.stored(q, pscale_of(ps))
  if which == 'bool':
    v = pb.RV('k', vtype=bool, **args)
    members = [False, True]
  else:
    v = pb.RV('k', vset=list(vs) if isinstance(vs, list) else vs, vtype=int, **args)
    members = sorted(int(e) for e in vs)
  n = len(members)
  want = q if explicit else 1. / n
  if mode == 'all':
    d = v()
    checkscale(cx, d, ps)
    cx.same(sorted(d['k']), members, 'every member')
    cx.same(np.shape(d.prob), (n,), 'one probability per member')
    lin = list(np.asarray(cx.linear(d.prob, d.pscale), dtype=object))
    for e in lin:
      cx.eq(e, want, 'uniform probability')
    if not explicit:
      cx.eq(sum(lin), 1., 'probabilities sum to one')
    return
  x = cx.int('x', members[0] - 2, members[-1] + 2) if mode == 'scalar' else \
      [cx.int('x%d' % i, members[0] - 2, members[-1] + 2) for i in range(2)]
  X = x if mode == 'scalar' else np.array(x, dtype=object if cx.symbolic else int)
  d = v(X)
  checkscale(cx, d, ps)
  xs, prs = ([x], [d.prob]) if mode == 'scalar' else (x, list(np.asarray(d.prob, dtype=object)))
  cx.same(len(prs), len(xs), 'one probability per value')
  for e, p in zip(xs, prs):
    if any(bool(e == m) for m in members):
      cx.eq(cx.linear(p, d.pscale), want, 'probability of a member')
    else:
      outside(cx, p, ps)


for w in ('range', 'set', 'list', 'array', 'one'):
  for m in ('all', 'scalar', 'pair'):
    add('C19', 'int_{}_{}'.format(w, m), discrete, which=w, mode=m)
for ps in PS:
  add('C19', 'bool_' + ps, discrete, which='bool', ps=ps)
  add('C19', 'int_' + ps, discrete, which='set', ps=ps)
  add('C19', 'int_scalar_' + ps, discrete, which='set', ps=ps, mode='scalar')
  add('C19', 'int_pair_' + ps, discrete, which='list', ps=ps, mode='pair')
  add('C19', 'int_explicit_' + ps, discrete, which='list', ps=ps, mode='pair', explicit=True)


def helper(cx, pb, vt, ps='lin', size=None, n=1):
  """ uniform_prob with a set in place of a membership function """
  from probayes.rv_utils import uniform_prob
  q = cx.prob('q')
  a, b = -1., 2.
  if vt == 'float':
    inside = [a, b]
    mk = lambda i: cx.real('x%d' % i, -5., 5.)
    ok = lambda e: bool(e >= a) and bool(e <= b)
  else:
    inside = [1, 3, 4]
    mk = lambda i: cx.int('x%d' % i, 0, 6)
    ok = lambda e: any(bool(e == m) for m in inside)
  xs = [mk(i) for i in range(n)]
  X = xs[0] if size is None else np.array([mk(10 + i) for i in range(size)],
                                          dtype=object if cx.symbolic else
                                          (float if vt == 'float' else int))
  got = uniform_prob(X, prob=cx.stored(q, pscale_of(ps)), inside=inside, pscale=PS[ps])
  es = [X] if size is None else list(X)
  gs = [got] if size is None else list(got)
  for e, g in zip(es, gs):
    if not cx.symbolic:
      near(cx, e, a, b)
    if ok(e):
      cx.eq(cx.linear(g, pscale_of(ps)), q, 'inside')
    else:
      outside(cx, g, ps)


for vt in ('float', 'int'):
  for ps in ('one', 'log'):
    add('C19', 'helper_{}_{}'.format(vt, ps), helper, vt=vt, ps=ps)
    add('C19', 'helper_array_{}_{}'.format(vt, ps), helper, vt=vt, ps=ps, size=2)


# --------------------------------------------------------------------- Bernoulli
def bernoulli(cx, pb, ps='lin', mode='all', edge=None, how='init'):
  p = cx.prob('p', hi=1.) if edge is None else float(edge)
  if edge is None:                # biases within 1e-4 of a half may count as a half
    cx.assume(not (p > 0.4999 and p < 0.5001))
  sp = cx.stored(p, pscale_of(ps)) if edge is None or ps in ('lin', 'one', 'coef') else \
      (-8.9e307 if edge == 0 else -real_off(ps))
  if edge is not None and ps in ('lin', 'one', 'coef'):
    sp = float(edge) / pscale_of(ps)
  if how == 'init':
    v = pb.RV('b', vtype=bool, prob=sp, **kw(ps))
  else:
    v = pb.RV('b', vtype=bool)
    v.set_prob(sp, **kw(ps))
  want = {True: p, False: 1. - p}
  if mode == 'all':
    d = v()
    checkscale(cx, d, ps)
    cx.same([bool(e) for e in d['b']], [False, True], 'values')
    cx.same(np.shape(d.prob), (2,), 'shape')
    vals, prs = [False, True], list(np.asarray(d.prob, dtype=object))
  elif mode == 'scalar':
    x = bool(cx.choose(2))
    d = v(x)
    checkscale(cx, d, ps)
    vals, prs = [x], [d.prob]
  else:
    vals = [bool(cx.choose(2)) for _ in range(3)]
    d = v(np.array(vals))
    prs = list(np.asarray(d.prob, dtype=object))
    cx.same(len(prs), 3, 'one probability per value')
  for x, q in zip(vals, prs):
    w = want[x]
    if not cx.issym(w) and w == 0.:
      if ps in ('lin', 'one', 'coef'):
        cx.eq(q, 0., 'zero probability')
      else:
        cx.true(q < -1e300, 'zero probability')
    elif cx.symbolic and cx.issym(w) and ps not in ('lin', 'one', 'coef') and not bool(w > 1e-12):
      pass
    else:
      if not cx.symbolic and w < 1e-12:
        continue
      cx.eq(cx.linear(q, d.pscale), w, 'probability of {}'.format(x))


def real_off(ps):
  p = pscale_of(ps)
  return (p.real if abs(p.imag) < 1e-9 else -p.real)


for ps in PS:
  for m in ('all', 'scalar', 'array'):
    add('C20', '{}_{}'.format(ps, m), bernoulli, ps=ps, mode=m)
  add('C20', 'set_{}'.format(ps), bernoulli, ps=ps, how='set')
  for e in (0, 1):
    add('C20', 'edge{}_{}'.format(e, ps), bernoulli, ps=ps, edge=e)
    add('C20', 'edge{}_scalar_{}'.format(e, ps), bernoulli, ps=ps, edge=e, mode='scalar')


def reset(cx, pb):
  """ the probability can be set again """
  v = pb.RV('b', vtype=bool, prob=cx.prob('p', hi=1.))
  q = cx.prob('q', hi=1.)
  cx.assume(q < 0.4999)
  v.set_prob(q)
  d = v()
  cx.eq(d.prob[1], q, 'true')
  cx.eq(d.prob[0], 1. - q, 'false')
  v.set_prob(0.5)
  d = v()
  cx.eq(d.prob[1], 0.5, 'true')
  cx.eq(d.prob[0], 0.5, 'false')


add('C20', 'reset', reset)


class Coin:
  """ stands in for scipy.stats.bernoulli: records the bias it is asked for, comes up as told """
  def __init__(self, cx):
    self.cx, self.asked = cx, []

  def __call__(self, p=None, **kwds):
    return Toss(self, p)

  def rvs(self, p, size=None, **kwds):
    return Toss(self, p).rvs(size)


class Toss:
  def __init__(self, coin, p):
    self.coin, self.p = coin, p

  def rvs(self, size=None, **kwds):
    self.coin.asked.append((self.p, size))
    n = 1 if size is None else int(size)
    got = [self.coin.cx.choose(2) for _ in range(n)]
    self.coin.got = got
    return got[0] if size is None else np.array(got)


def biased(cx, pb, number, ps='lin'):
  """ requests for values of a biased boolean: random ones follow the bias, others run through the set """
  import scipy.stats
  p = cx.prob('p', hi=1.)
  cx.assume(not (p > 0.4999 and p < 0.5001))
  v = pb.RV('b', vtype=bool, prob=cx.stored(p, pscale_of(ps)), **kw(ps))
  coin, real = Coin(cx), scipy.stats.bernoulli
  scipy.stats.bernoulli = coin
  try:
    d = v({number})
  finally:
    scipy.stats.bernoulli = real
  got = [bool(e) for e in np.ravel(np.asarray(d['b']))]
  cx.same(len(got), abs(number) or 1, 'number of values')
  cx.same(np.shape(d['b']), (abs(number),) if number else (), 'shape')
  if number > 0:
    cx.same(got, [bool(i % 2) for i in range(number)], 'the values in turn')
  else:
    if coin.asked:                  # however the bias is drawn, SciPy must be asked for the right one
      cx.same(len(coin.asked), 1, 'drawn once')
      cx.eq(coin.asked[0][0], p, 'bias')
      cx.same(got, [bool(e) for e in coin.got], 'values drawn')
  for x, q in zip(got, np.ravel(np.asarray(d.prob, dtype=object))):
    cx.eq(cx.linear(q, d.pscale), p if x else 1. - p, 'probability')


for n in (0, -1, -2, 1, 2, 3, 4):
  add('C20', 'biased_{}'.format(n), biased, number=n)
for ps in ('log', 'coef'):
  for n in (0, -2):
    add('C20', 'biased_{}_{}'.format(n, ps), biased, number=n, ps=ps)
