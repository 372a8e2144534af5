""" C29: conditional (Gibbs) sampling """
import collections
import contextlib
import scipy.stats
from checks.common import *
from symx.registry import add

NAMES = 'xyz'


class Standard:
  """ an arbitrary standardised law in place of the normal one: an increasing distribution function and its inverse """

  def __init__(self, cx):
    self.cx = cx
    self.F = cx.uf('F', 0.02, 0.98, (0.1, 0.9), monotone=True)
    self.Q = cx.uf('Q', -4., 4.)
    self.D = cx.uf('D', 0.01, 1.)

  def phi(self, z):
    if not self.cx.issym(z) and np.isinf(z):
      return 1. if z > 0 else 0.
    return self.F(z)

  def each(self, f, *xs):
    if not any(np.ndim(x) for x in xs):
      return f(*[x[()] if isinstance(x, np.ndarray) else x for x in xs])
    xs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xs])
    out = np.empty(xs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
      out[i] = f(*[x[i] for x in xs])
    return out if self.cx.symbolic else out.astype(float)

  def cdf(self, x, loc=0., scale=1.):
    return self.each(lambda e, m, s: self.phi((e - m) / s), x, loc, scale)

  def pdf(self, x, loc=0., scale=1.):
    return self.each(lambda e, m, s: self.D((e - m) / s) / s, x, loc, scale)

  def ppf(self, u, loc=0., scale=1.):
    def inv(v, m, s):
      z = self.Q(v)
      self.cx.assume(self.F(z) == v if self.cx.symbolic else abs(self.F(z) - v) < 1e-9)
      return m + s * z
    return self.each(inv, u, loc, scale)


@contextlib.contextmanager
def law(cx):
  n = scipy.stats.norm
  std = Standard(cx)
  for k in ('cdf', 'ppf', 'pdf'):
    setattr(n, k, getattr(std, k))
  try:
    yield std
  finally:
    for k in ('cdf', 'ppf', 'pdf'):
      delattr(n, k)


def gauss(cx, n, fixed=False):
  """ mean, covariance (of an arbitrary triangular factor) """
  mean = [cx.real('m' + NAMES[i], -2., 2.) for i in range(n)]
  if fixed:
    C = {2: [[4., -2.], [-2., 4.]], 3: [[15., 9., -6.], [9., 15., -6.], [-6., -6., 12.]]}[n]   # dyadic regression coefficients
    scale = cx.real('c', 0.25, 4.)       # symbolic, for exact arithmetic
    return cx.asarray(mean), cx.asarray([[scale * e for e in r] for r in C])
  L = [[cx.real('l{}{}'.format(i, j), 0.5 if i == j else -1., 2. if i == j else 1.) if j <= i else 0. for j in range(n)]
       for i in range(n)]
  C = [[sum(L[i][k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]
  return cx.asarray(mean), cx.asarray(C)


def lims_of(cx, n, inf=()):
  lo = [-np.inf if (i, 0) in inf else cx.real('lo' + NAMES[i], -6., -2.5) for i in range(n)]
  hi = [np.inf if (i, 1) in inf else cx.real('hi' + NAMES[i], 2.5, 6.) for i in range(n)]
  return lo, hi


def condmom(C, mean, i, vals):
  """ conditional mean and variance of the i-th given the others, by Cramer's rule """
  n = len(mean)
  o = [j for j in range(n) if j != i]
  if not o:
    return mean[i], C[i, i]
  d = [vals[j] - mean[j] for j in o]
  if len(o) == 1:
    k = o[0]
    return mean[i] + C[i, k] * d[0] / C[k, k], C[i, i] - C[i, k] * C[i, k] / C[k, k]
  a, b = o
  det = C[a, a] * C[b, b] - C[a, b] * C[a, b]
  wa = (C[i, a] * C[b, b] - C[i, b] * C[a, b]) / det
  wb = (C[i, b] * C[a, a] - C[i, a] * C[a, b]) / det
  return mean[i] + wa * d[0] + wb * d[1], C[i, i] - wa * C[i, a] - wb * C[i, b]


def follows(cx, std, v, m, s, lo, hi, u, label):
  """ v lies at the u-th part between the limits, in probability """
  a = 0. if isinstance(lo, float) and np.isinf(lo) else std.phi((lo - m) / s)
  b = 1. if isinstance(hi, float) and np.isinf(hi) else std.phi((hi - m) / s)
  cx.eq(std.phi((v - m) / s), a + u * (b - a), label)


def moments(cx, pb, n=2):
  """ conditional standard deviations and regression coefficients """
  from probayes.cond_cov import CondCov
  mean, C = gauss(cx, n)
  with law(cx):
    cc = CondCov(mean, C, [[-np.inf, np.inf]] * n)
  vals = [cx.real('v' + NAMES[i], -3., 3.) for i in range(n)]
  for i in range(n):
    m, var = condmom(C, mean, i, vals)
    cx.eq(cc._stdv[i] * cc._stdv[i], var, 'conditional variance')


for n in (2, 3):
  add('C29', 'moments_{}'.format(n), moments, n=n)


def interp(cx, pb, n=2, i=0, inf=(), number=0, fixed=False, pdf=False, scalar=False):
  """ one variable given the others """
  from probayes.cond_cov import CondCov
  mean, C = gauss(cx, n, fixed)
  lo, hi = lims_of(cx, n, inf)
  with law(cx) as std:
    cc = CondCov(mean, C, [[lo[j], hi[j]] for j in range(n)])
    vals = [cx.real('v' + NAMES[j], -3., 3.) for j in range(n)]
    args = [{number} if j == i else (vals[j] if scalar else np.asarray(cx.asarray(vals[j]))) for j in range(n)]
    u = cx.draw(0., 1., None) if number <= 0 and not number else None
    cx.nrand -= 1 if u is not None else 0
    got = cc.interp(*args, cond_pdf=pdf)
    if pdf:
      got, dens = got
    m, var = condmom(C, mean, i, vals)
    s = cx.sqrt(var)
    if u is not None:
      follows(cx, std, got, m, s, lo[i], hi[i], u, 'conditional probability of the sample')
      if pdf:
        cx.eq(dens, std.pdf(got, m, s), 'conditional density')
    else:
      cx.same(np.shape(got), (number,), 'number of values')
      for j in range(number):
        follows(cx, std, got[j], m, s, lo[i], hi[i], j / (number - 1), 'conditional probability of the values')


for n, i in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
  fx = n > 2
  add('C29', 'sample_{}_{}'.format(n, i), interp, n=n, i=i, fixed=fx)
  add('C29', 'sample_{}_{}_unlimited'.format(n, i), interp, n=n, i=i, fixed=fx, inf=[(j, k) for j in range(n) for k in (0, 1)])
  add('C29', 'sample_{}_{}_halflimited'.format(n, i), interp, n=n, i=i, fixed=fx, inf=[(j, 1) for j in range(n)])
  add('C29', 'grid_{}_{}'.format(n, i), interp, n=n, i=i, fixed=True, number=3)
  add('C29', 'density_{}_{}'.format(n, i), interp, n=n, i=i, fixed=fx, pdf=True, inf=[(j, k) for j in range(n) for k in (0, 1)])


def fieldof(cx, pb, mean, C, n, lims, tsteps=None, process=False, names=NAMES):
  """ a field with a multivariate density (of which only mean and covariance matter) for transitions """
  import scipy.stats._multivariate as mv

  class Frozen:
    pass
  fr = Frozen()
  fr.mean, fr.cov = mean, C
  fr.pdf = fr.logpdf = fr.cdf = fr.logcdf = fr.rvs = lambda *a, **k: 1.

  class Gen(mv.multivariate_normal_gen):
    def __call__(self, *args, **kwds):
      return fr
  vs = [pb.RV(names[i], vset=[lims[0][i], lims[1][i]], vtype=float) for i in range(n)]
  rf = pb.RF(*vs)
  if process:
    rf = pb.SP(rf)
    rf.set_prob(1.)
  kw = {} if tsteps is None else {'tsteps': tsteps}
  rf.set_tran(Gen(), mean, C, **kw)
  return rf


def sweep(cx, pb, n=2, tsteps=None, back=False, steps=1, process=False, names=NAMES):
  """ steps of a field sample one variable after another from its conditional """
  mean, C = gauss(cx, n, True)
  lims = ([-np.inf] * n, [np.inf] * n)
  with law(cx) as std:
    rf = fieldof(cx, pb, mean, C, n, lims, tsteps, process, names)
    cur = {names[i]: cx.real('v' + names[i], -3., 3.) for i in range(n)}
    at = 0
    for t in range(steps):
      todo = list(range(n)) if not tsteps else list(range(n))[at:at + tsteps]
      at = 0 if not tsteps or at + tsteps >= n else at + tsteps
      us = np.ravel(np.asarray(cx.draw(0., 1., len(todo)), dtype=object))
      cx.nrand -= len(todo)
      given = dict(reversed(list(cur.items()))) if back else dict(cur)
      d = rf.step(given)
      new = dict(cur)
      for i, u in zip(todo, us):
        m, var = condmom(C, mean, i, [new[k] for k in names[:n]])
        got = d[names[i] + "'"]
        follows(cx, std, got, m, cx.sqrt(var), -np.inf, np.inf, u, 'step {}: {}'.format(t, names[i]))
        new[names[i]] = got
      for k in names[:n]:
        cx.eq(d[k], cur[k], 'step {}: predecessor'.format(t))
        if names.index(k) not in todo:
          cx.eq(d[k + "'"], cur[k], 'step {}: unchanged'.format(t))
      cx.eq(cx.linear(d.prob, d.pscale), 1., 'conditional probability not defined')
      cur = new


for n in (2, 3):
  for b in (False, True):
    add('C29', 'sweep_{}{}'.format(n, '_back' if b else ''), sweep, n=n, back=b)
    for ts in range(1, n):
      add('C29', 'sweep_{}_by_{}{}'.format(n, ts, '_back' if b else ''), sweep, n=n, tsteps=ts, back=b, steps=n + 1 if ts == 1 else 2)
  add('C29', 'sweep_{}_process'.format(n), sweep, n=n, tsteps=1, process=True, steps=3)


def direct(cx, pb, n=2, i=0, names=NAMES, form='dict', pdf=False):
  """ one variable given the others: keyed values are taken in the order given """
  from probayes.cond_cov import CondCov
  from probayes.rf_utils import sample_cond_cov
  mean, C = gauss(cx, n, True)
  lo, hi = [-np.inf] * n, [np.inf] * n
  with law(cx) as std:
    cc = CondCov(mean, C, [[lo[j], hi[j]] for j in range(n)])
    vals = [cx.real('v' + names[j], -3., 3.) for j in range(n)]
    given = {names[j]: vals[j] for j in range(n)}
    u = cx.draw(0., 1., None)
    cx.nrand -= 1
    kw = {'cond_cov': cc}
    if pdf:
      kw['cond_pdf'] = True
    if form == 'dict':
      got = sample_cond_cov(given, unknown=names[i], **kw)
    elif form == 'none':
      got = sample_cond_cov({**given, names[i]: None}, **kw)
    elif form == 'kwds':
      got = sample_cond_cov(unknown=names[i], **given, **kw)
    else:
      got = sample_cond_cov(*[{0} if j == i else np.asarray(cx.asarray(vals[j])) for j in range(n)], **kw)
    m, var = condmom(C, mean, i, vals)
    s = cx.sqrt(var)
    if pdf:
      got, dens = got
      cx.eq(dens, std.pdf(got, m, s), 'conditional density')
    follows(cx, std, got, m, s, lo[i], hi[i], u, 'conditional probability of the sample')
    cx.same(list(given), list(names[:n]), 'values given')
    for k, v in zip(names, vals):
      cx.eq(given[k], v, 'values given')


for f in ('dict', 'none', 'kwds', 'args'):
  for n, i, ks in ((2, 0, 'xy'), (2, 1, 'za'), (3, 0, 'zay'), (3, 1, 'zay')):
    add('C29', 'direct_{}_{}{}'.format(f, ks, i), direct, n=n, i=i, names=ks, form=f, pdf=f != 'args' and i == 1)

for n, ks in ((2, 'ya'), (3, 'zay'), (3, 'yzx')):
  add('C29', 'sweep_' + ks, sweep, n=n, names=ks)
  add('C29', 'sweep_{}_by_1'.format(ks), sweep, n=n, names=ks, tsteps=1, steps=n)


def custom(cx, pb, n=2, tsteps=None, back=False, steps=1, extra=False, via='tfun', names=NAMES):
  """ conditional sampling functions """
  vs = [pb.RV(names[i], vset=[-50., 50.], vtype=float) for i in range(n)]
  rf = pb.RF(*vs)
  g = {k: [cx.real('g{}{}'.format(k, j), -2., 2.) for j in range(n)] for k in names[:n]}
  off = cx.real('off', -2., 2.) if extra else 0.
  calls = []

  def f(unknown=None, offset=0., **v):
    calls.append((unknown, dict(v)))
    return sum(a * v[k] for a, k in zip(g[unknown], names)) + offset
  ekw = {'offset': off} if extra else {}
  if tsteps:
    ekw['tsteps'] = tsteps
  if via == 'cf':
    rf.set_tfun(pb.CF(rf, None, f, **ekw))
  elif via == 'func':
    from probayes.func import Func
    rf.set_tfun(Func(f, **ekw))
  else:
    rf.set_tfun(f, **ekw)
  cur = {names[i]: cx.real('v' + names[i], -3., 3.) for i in range(n)}
  at = 0
  for t in range(steps):
    todo = list(range(n)) if not tsteps else list(range(n))[at:at + tsteps]
    at = 0 if not tsteps or at + tsteps >= n else at + tsteps
    given = dict(reversed(list(cur.items()))) if back else dict(cur)
    d = rf.step(given)
    new = dict(cur)
    for i in todo:
      k = names[i]
      new[k] = sum(a * new[j] for a, j in zip(g[k], names)) + off
    cx.same([c[0] for c in calls], [names[i] for i in todo], 'variables sampled')
    del calls[:]
    for k in names[:n]:
      cx.eq(d[k], cur[k], 'step {}: predecessor'.format(t))
      cx.eq(d[k + "'"], new[k], 'step {}: successor'.format(t))
    cur = new


for v in ('cf', 'func'):
  for e in (False, True):
    add('C29', 'custom_{}{}'.format(v, '_extra' if e else ''), custom, n=2, steps=2, via=v, extra=e)
for n in (2, 3):
  for b in (False, True):
    add('C29', 'custom_{}{}'.format(n, '_back' if b else ''), custom, n=n, back=b)
    for ts in range(1, n):
      add('C29', 'custom_{}_by_{}{}'.format(n, ts, '_back' if b else ''), custom, n=n, tsteps=ts, back=b, steps=n + 1)
  add('C29', 'custom_{}_extra'.format(n), custom, n=n, extra=True, tsteps=1, steps=2)


def chain(cx, pb, n=2, tsteps=1, steps=3):
  """ Gibbs chains accept every step """
  vs = [pb.RV(NAMES[i], vset=[-50., 50.], vtype=float) for i in range(n)]
  p = pb.SP(pb.RF(*vs))
  dens = lambda *v: 1. + sum((i + 1) * e * e for i, e in enumerate(v))
  def prob(**k):
    return dens(*[k[j] for j in NAMES[:n]])
  p.set_prob(prob)
  g = {k: [cx.real('g{}{}'.format(k, j), -2., 2.) for j in range(n)] for k in NAMES[:n]}
  p.set_tfun(lambda unknown=None, **v: sum(a * v[k] for a, k in zip(g[unknown], NAMES)), tsteps=tsteps)
  p.set_scores('gibbs')
  cur = {NAMES[i]: cx.real('v' + NAMES[i], -3., 3.) for i in range(n)}
  at = 0
  samples = [s for s in p.sampler(dict(cur), stop=steps)]
  cx.same(len(samples), steps, 'samples')
  for t, s in enumerate(samples):
    new = dict(cur)
    for i in list(range(n))[at:at + tsteps]:
      k = NAMES[i]
      new[k] = sum(a * new[j] for a, j in zip(g[k], NAMES))
    at = 0 if at + tsteps >= n else at + tsteps
    if t == 0 and s.q is None:
      new, at = cur, 0
    cx.same(s.u, True, 'step {} accepted'.format(t))
    for k in NAMES[:n]:
      cx.eq(s.v[k], new[k], 'step {}: {}'.format(t, k))
    cx.eq(s.v.prob, dens(*[new[k] for k in NAMES[:n]]), 'probability')
    cur = new


for n, ts in ((2, 1), (2, 2), (3, 1), (3, 2)):
  add('C29', 'chain_{}_{}'.format(n, ts), chain, n=n, tsteps=ts)


def posterior(cx, pb, tsteps=1, steps=3, ps='lin'):
  """ parameters sampled conditional on data """
  from checks.rvs import kw, pscale_of
  sc = pscale_of(ps)
  X, Y = cx.reals('x', (2,), -3., 3.), cx.reals('y', (2,), -3., 3.)
  x, y, a, b = (pb.RV(k, vset=[-4., 4.], vtype=float) for k in 'xyab')
  stats, paras = x & y, a & b
  calls, n = [], []

  def cond(x, y, a, b, unknown):
    n.append(cx.real('c{}'.format(len(n)), -3., 3.))
    v = n[-1]
    calls.append((unknown, x, y, a, b, v))
    return v
  paras.set_tfun(cond, tsteps=tsteps, x=X, y=Y)
  p = pb.SP(stats, paras)
  p.set_tfun(paras)

  def lik(x, y, a, b):
    return cx.emap(lambda e: cx.stored(e, sc), 0.5 + 0.02 * x - 0.03 * y + 0.04 * a - 0.05 * b)
  p.set_prob(lik, **kw(ps))
  p.set_scores('gibbs')
  cur = {'a': cx.real('a', -3., 3.), 'b': cx.real('b', -3., 3.)}
  ss = [s for s in p.sampler(dict(cur), {'x,y': [X, Y]}, stop=steps, iid=True, joint=True)]
  cx.same(len(ss), steps, 'samples')
  at = 0
  for t, s in enumerate(ss):
    new = dict(cur)
    if t or s.q is not None:
      for k in ('a', 'b')[at:at + tsteps]:
        u, gx, gy, va, vb, v = calls.pop(0)
        cx.same(u, k, 'variable sampled')
        cx.eq(gx, X, 'data')
        cx.eq(gy, Y, 'data')
        cx.eq(va, new['a'], 'condition')
        cx.eq(vb, new['b'], 'condition')
        new[k] = v
      at = 0 if at + tsteps >= 2 else at + tsteps
    for k in 'ab':
      cx.eq(s.v[k], new[k], 'step {}: {}'.format(t, k))
    want = 1. / 64.
    for i in range(2):
      want = want * (0.5 + 0.02 * X[i] - 0.03 * Y[i] + 0.04 * new['a'] - 0.05 * new['b'])
    q = s.v.prob
    cx.eq(cx.linear(q if not np.ndim(q) else np.ravel(q)[0], s.v.pscale), want, 'step {}: probability'.format(t))
    cx.same(s.u, True, 'accepted')
    cur = new
  cx.same(len(calls), 0, 'further calls')


for ps in ('lin', 'log'):
  for ts in (1, 2):
    add('C29', 'posterior_{}_{}'.format(ps, ts), posterior, tsteps=ts, ps=ps)


for n, ks in ((2, 'ya'), (3, 'zay')):
  add('C29', 'custom_' + ks, custom, n=n, names=ks)
