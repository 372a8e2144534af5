""" C33: distribution objects as probabilities; cumulative functions as samplers """
import collections
import scipy.stats
from checks.common import *
from checks.rvs import PS, kw, pscale_of, checkscale
from checks.variables import FORMS, mkset, spaced
from symx.registry import add


def lawof(cx, kind='cont', params=('loc', 'scale'), sizes=None):
  """ a scipy-like distribution object with an arbitrary density, cumulative law, inverse and sampler of (value, *parameters) """
  D = cx.uf('D', 0.05, 1., (0.1, 0.9))
  F = cx.uf('F', 0.02, 0.98, (0.1, 0.9))
  Q = cx.uf('Q', -50., 50., (-9., 9.))
  seen = []

  def bind(args, kwds):
    got = dict(zip(params, args))
    for k, v in kwds.items():
      if k in got or k not in params:
        raise TypeError('unexpected argument ' + k)
      got[k] = v
    return [got[k] for k in params]

  def each(f):
    def g(self, x, *args, **kwds):
      p = bind(args, kwds)
      if any(np.ndim(e) for e in [x] + p):
        xs = np.broadcast_arrays(*[np.asarray(e, dtype=object) for e in [x] + p])
        out = np.empty(xs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
          out[i] = f(xs[0][i], [e[i] for e in xs[1:]])
        return out if cx.symbolic else out.astype(float)
      return f(*[x[()] if isinstance(x, np.ndarray) else x, [e[()] if isinstance(e, np.ndarray) else e for e in p]])
    return g

  def rvs(self, *args, **kwds):
    size = kwds.pop('size', None)
    kwds.pop('random_state', None)
    seen.append((bind(args, kwds), size))
    return np.arange(size) + 0.25 if size else 0.25

  base = scipy.stats.rv_continuous if kind == 'cont' else scipy.stats.rv_discrete
  den, lden = ('pdf', 'logpdf') if kind == 'cont' else ('pmf', 'logpmf')
  Law = type('Law', (base,), {den: each(lambda x, p: D(x, *p)), lden: each(lambda x, p: cx.logp(D(x, *p))),
                              'cdf': each(lambda x, p: F(x, *p)), 'ppf': each(lambda u, p: Q(u, *p)), 'rvs': rvs})
  law = Law(name='law') if params == ('loc', 'scale') else Law(name='law', shapes=', '.join(params))
  law.D, law.F, law.Q, law.seen = D, F, Q, seen
  return law


def params(cx, how):
  """ parameters (values in order, positional, keywords) """
  p = [cx.real('m', -5., 5.), cx.real('s', 0.5, 5.)]
  if how == 'kwds':
    return p, (), {'loc': p[0], 'scale': p[1]}
  if how == 'swapped':
    return p, (), {'scale': p[1], 'loc': p[0]}
  if how == 'args':
    return p, tuple(p), {}
  return p, (p[0],), {'scale': p[1]}


def mkrv(cx, pb, law, form, how, ps='lin', late=False, cls='RV'):
  a, b = cx.real('a', -20., 20.), cx.real('b', -20., 20.)
  cx.assume(b > a + 0.01)
  p, args, kwds = params(cx, how)
  kwds = dict(kwds, **kw(ps))
  if cls == 'Prob':
    return pb.Prob(law, *args, **kwds), p, a, b
  if late:
    v = pb.RV('x', mkset(form, a, b), vtype=float)
    v.set_prob(law, *args, **kwds)
  elif args:
    v = pb.RV('x', mkset(form, a, b), float, law, *args, **kwds)
  else:
    v = pb.RV('x', mkset(form, a, b), vtype=float, prob=law, **kwds)
  return v, p, a, b


def each(x):
  return [x] if not np.ndim(x) else list(np.ravel(np.asarray(x, dtype=object)))


def density(cx, pb, size=None, how='kwds', ps='lin', late=False, form='cc', form_of='plain', cls='RV'):
  """ the density of the object with the declared parameters, at the values themselves """
  law = lawof(cx)
  v, p, a, b = mkrv(cx, pb, law, form, how, ps, late, cls)
  checkscale(cx, v, ps)
  x = cx.real('x', -30., 30.) if size is None else cx.reals('x', (size,), -30., 30.)
  if cls == 'Prob':
    q = v(x)
  elif form_of == 'field':
    y = pb.RV('y', [0., 2.], vtype=float, **kw(ps))
    f = pb.RF(v, y)
    d = f({'x': x, 'y': 1.})
    for e, r in zip(each(x), each(cx.linear(d.prob, d.pscale))):
      cx.eq(r, law.D(e, *p) * 0.5, 'density in a field')
    return
  else:
    d = v(x if form_of == 'plain' else {'x': x} if form_of == 'name' else {v: x})
    checkscale(cx, d, ps)
    cx.same(dict(d.dims), {'x': None if size is None else 0}, 'axis')
    for e, g in zip(each(x), each(d['x'])):
      cx.eq(g, e, 'value')
    q = d.prob
  cx.same(np.shape(q), () if size is None else (size,), 'shape')
  for e, r in zip(each(x), each(cx.linear(q, pscale_of(ps)))):
    cx.eq(r, law.D(e, *p), 'density')
  # both the density and its logarithm, whichever is the scale
  e = each(x)[0]
  cx.eq(v['prob'](e), law.D(e, *p), 'density by name')
  cx.eq(v['logp'](e), cx.logp(law.D(e, *p)), 'log density by name')
  cx.eq(v.pfun[0](e), law.F(e, *p), 'cumulative function')
  u = cx.real('u', 0., 1.)
  cx.eq(v.pfun[1](u), law.Q(u, *p), 'inverse cumulative function')
  cx.eq(v.pfun[-1](u), law.Q(u, *p), 'inverse cumulative function')
  v.sfun(size=3)
  v.sfun()
  cx.same([s for _, s in law.seen], [3, None], 'sample sizes')
  for q, _ in law.seen:
    for e, w in zip(q, p):
      cx.eq(e, w, 'parameters of the sampler')


for how in ('kwds', 'swapped', 'args', 'mixed'):
  for ps in ('lin', 'log'):
    add('C33', 'density_{}_{}'.format(how, ps), density, how=how, ps=ps, size=None if how == 'args' else 2)
    add('C33', 'density_late_{}_{}'.format(how, ps), density, how=how, ps=ps, late=True, size=2 if how == 'args' else None)
for c in ('plain', 'name', 'var', 'field'):
  for z in (None, 3):
    for ps in ('lin', 'log'):
      add('C33', 'density_{}_{}_{}'.format(c, z, ps), density, size=z, ps=ps, form_of=c)
for z in (None, 2):
  add('C33', 'density_prob_{}'.format(z), density, size=z, cls='Prob')
  add('C33', 'density_prob_log_{}'.format(z), density, size=z, cls='Prob', ps='log')


def quantiles(cx, pb, form, n, how='kwds', src='scipy', ps='lin', call='call'):
  """ values asked for are evenly spaced, or drawn uniformly, in cumulative probability between the limits """
  law = lawof(cx)
  if src == 'scipy':
    v, p, a, b = mkrv(cx, pb, law, form, how, ps)
  else:
    a, b = cx.real('a', -20., 20.), cx.real('b', -20., 20.)
    cx.assume(b > a + 0.01)
    p, args, kwds = params(cx, how)
    v = pb.RV('x', mkset(form, a, b), vtype=float)
    f = lambda x: law.D(x, *p)
    v.set_prob(lambda x: law.pdf(x, *p))
    if args:         # given before the values, as for any function
      v.set_pfun((lambda m, x, scale: law.cdf(x, m, scale), lambda m, x, scale: law.ppf(x, m, scale)), *args, **kwds)
    else:
      v.set_pfun((law.cdf, law.ppf), **kwds)
  A, B = law.F(a, *p), law.F(b, *p)
  cx.assume(B > A + 0.01)
  k = abs(n) if n else 1
  if n is None or n <= 0:
    us = each(cx.draw(0., 1., k if n else None))
    cx.nrand -= k
    want = [A + u * (B - A) for u in us]
  else:
    want = spaced(cx, A, B, n, form)
  arg = None if n is None else {n}
  if call == 'evaluate':
    got = v.evaluate(arg)['x']
  elif call == 'field':
    y = pb.RV('y', [0., 2.], vtype=float)
    got = np.ravel(pb.RF(y, v)({'y': 1., 'x': arg})['x'])
    got = got if n else got[0]
  else:
    d = v(arg)
    got = d['x']
    for x, q in zip(each(got), each(cx.linear(d.prob, d.pscale))):
      cx.eq(q, law.D(x, *p), 'density of the values')
  cx.same(np.shape(got), (k,) if n else (), 'shape')
  for u, x in zip(want, each(got)):
    cx.eq(x, law.Q(u, *p), 'value at its cumulative probability')


for f in FORMS:
  for n in (1, 2, 3, -2):
    add('C33', 'quantiles_{}_{}'.format(f, n), quantiles, form=f, n=n)
    add('C33', 'quantiles_pfun_{}_{}'.format(f, n), quantiles, form=f, n=n, src='pfun', how='kwds' if n == 1 else 'mixed')
for c in ('evaluate', 'field'):   # the tests pin that {name: {n}} of one variable spaces by value
  for n in (2, -2, 0, None):
    add('C33', 'quantiles_{}_{}'.format(c, n), quantiles, form='cc', n=n, call=c)
add('C33', 'quantiles_none', quantiles, form='oc', n=None)
add('C33', 'quantiles_0', quantiles, form='oo', n=0, ps='log')


def discrete(cx, pb, mode, ps='lin', args=False):
  """ the mass of the members; members are requested as without a distribution """
  law = lawof(cx, 'disc', ('n', 'p'))
  n, p = cx.real('n', 1., 9.), cx.real('p', 0.1, 0.9)
  if args:
    v = pb.RV('k', [2, 5, 7], int, law, n, p, **kw(ps))
  else:
    v = pb.RV('k', [2, 5, 7], vtype=int, prob=law, n=n, p=p, **kw(ps))
  call = {'all': (lambda: v(), [2, 5, 7]), 'one': (lambda: v(5), [5]), 'three': (lambda: v(np.array([7, 2, 7])), [7, 2, 7]),
          'two': (lambda: v({2}), [2, 5]), 'four': (lambda: v({4}), [2, 5, 7, 2]), 'outside': (lambda: v(6), [6])}[mode]
  d = call[0]()
  cx.same([int(e) for e in each(d['k'])], call[1], 'values')
  for k, q in zip(call[1], each(cx.linear(d.prob, d.pscale))):
    cx.eq(q, law.D(k, n, p), 'mass')
  cx.same(np.size(d.prob), len(call[1]), 'one mass per value')


for m in ('all', 'one', 'three', 'two', 'four', 'outside'):
  for ps in ('lin', 'log'):
    add('C33', 'mass_{}_{}'.format(m, ps), discrete, mode=m, ps=ps, args=ps == 'log')


def conditional(cx, pb, ps='lin', sd=True, sizes=(2, None, None), order='names', back=False, joint=False):
  """ parameters of a distribution object taken from other variables """
  law = lawof(cx)
  x, m, s = (pb.RV('x', [-30., 30.], vtype=float), pb.RV('m', [-5., 5.], vtype=float), pb.RV('s', [0.5, 5.], vtype=float))
  f = pb.SD(pb.RF(x), pb.RF(m, s)) if sd else pb.RF(x, m, s)
  f.set_prob(law, order={'names': {'x': 0, 'm': 'loc', 's': 'scale'}, 'places': {'x': 0, 'm': 1, 's': 2},
                         'mixed': {'s': 'scale', 'm': 1, 'x': 0}}[order], **kw(ps))
  V = {}
  for k, z, lo, hi in zip('xms', sizes, (-30., -5., 0.5), (30., 5., 5.)):
    V[k] = cx.real(k, lo, hi) if z is None else cx.reals(k, (z,), lo, hi)
  given = dict(reversed(list(V.items()))) if back else V
  d = f(given, joint=True) if joint else f(given)
  q = np.asarray(cx.linear(d.prob, d.pscale), dtype=object)
  axes = [(int(d.dims[k]), z) for k, z in zip('xms', sizes) if z is not None]
  cx.same(sorted(a for a, _ in axes), list(range(len(axes))), 'one axis per variable')
  if not joint:
    cx.same([a for a, _ in axes], list(range(len(axes))), 'axes in order')
  cx.same(q.shape, tuple(z for _, z in sorted(axes)), 'shape')
  for k, z in zip('xms', sizes):
    cx.eq(np.ravel(d[k])[0] if z is None else np.ravel(d[k])[-1], V[k] if z is None else V[k][-1], 'value')
  for idx in np.ndindex(*q.shape):
    at = [V[k] if z is None else V[k][idx[int(d.dims[k])]] for k, z in zip('xms', sizes)]
    w = law.D(*at)
    cx.eq(q[idx], w / 10. / 4.5 if joint else w, 'density')


for ps in ('lin', 'log'):
  for z in ((2, None, None), (None, 2, None), (2, 2, None), (2, 2, 2), (None, None, None)):
    add('C33', 'conditional_{}_{}'.format(''.join(str(e or 's') for e in z), ps), conditional, sizes=z, ps=ps)
    add('C33', 'field_{}_{}'.format(''.join(str(e or 's') for e in z), ps), conditional, sizes=z, ps=ps, sd=False)
for o in ('places', 'mixed'):
  for b in (False, True):
    add('C33', 'conditional_{}_{}'.format(o, int(b)), conditional, sizes=(2, 2, None), order=o, back=b)
for ps in ('lin', 'log'):
  add('C33', 'joint_' + ps, conditional, sizes=(2, None, 2), ps=ps, joint=True)


R2PI = math.sqrt(2. * math.pi)


def _sech2(cx, z):
  e = cx.exp(-z)
  return e / (1. + e) ** 2


# parameters, constructor, density, cumulative function, support
FAMILIES = {
    'normal': ((0.5, 2.), 'Normal', lambda cx, x, m, s: cx.exp(-(x - m) * (x - m) / (2. * s * s)) / (s * R2PI), None, (-20., 20.)),
    'exponential': ((2.,), 'Exponential', lambda cx, x, r: r * cx.exp(-r * x), lambda cx, x, r: 1. - cx.exp(-r * x), (0.001, 4.)),
    'uniform': ((1, 3), 'Uniform', lambda cx, x, a, b: 1. / (b - a), lambda cx, x, a, b: (x - a) / (b - a), (1., 3.)),
    'uniformf': ((1., 3.), 'Uniform', lambda cx, x, a, b: 1. / (b - a), lambda cx, x, a, b: (x - a) / (b - a), (1., 3.)),
    'logistic': ((1., 2.), 'Logistic', lambda cx, x, m, s: _sech2(cx, (x - m) / s) / s,
                 lambda cx, x, m, s: 1. / (1. + cx.exp(-(x - m) / s)), (-9., 9.)),
    'laplace': ((0, 2), 'Laplace', lambda cx, x, m, b: cx.exp(-abs(x - m) / b) / (2. * b),
                lambda cx, x, m, b: cx.exp((x - m) / b) / 2. if x < m else 1. - cx.exp((m - x) / b) / 2., (-9., 9.)),
    'pareto': ((1, 2), 'Pareto', lambda cx, x, m, a: 2. / (x * x * x), lambda cx, x, m, a: 1. - 1. / (x * x), (1.001, 50.)),
    'rayleigh': ((2,), 'Rayleigh', lambda cx, x, s: x / 4. * cx.exp(-x * x / 8.), lambda cx, x, s: 1. - cx.exp(-x * x / 8.), (0.01, 9.)),
    'gumbel': ((1, 2), 'Gumbel', None, None, (-3., 20.)),
    'gamma': ((3, 1), 'Gamma', lambda cx, x, k, t: x * x * cx.exp(-x) / 2., lambda cx, x, k, t: 1. - (x * x / 2. + x + 1.) * cx.exp(-x), (0.01, 20.)),
    'erlang': ((2, 1), 'Erlang', lambda cx, x, k, t: x * cx.exp(-x), lambda cx, x, k, t: 1. - (x + 1.) * cx.exp(-x), (0.01, 20.)),
    'geometric': ((0.25,), 'Geometric', None, None, None),
}


def erfs(cx):
  """ the error function stands for an arbitrary increasing function and its inverse """
  if not cx.symbolic:
    return
  import sympy
  from symx import icons
  E, V = cx.uf('erf', -1., 1., (-0.9, 0.9), monotone=True), cx.uf('erfinv', -30., 30., (-2., 2.))

  def erf(x):
    y = E(x)
    cx.assume(V(y) == x)
    return y

  def inv(u):
    y = V(u)
    cx.assume(E(y) == u)
    return y
  icons.LAWS.update({sympy.erf: erf, sympy.erfinv: inv})


def near(cx, x, y, what):
  """ equal but for rounding of the constants that sympy writes in """
  if cx.symbolic:
    cx.le(x, y + 1e-9, what)
    cx.le(y, x + 1e-9, what)
  else:
    cx.eq(x, y, what)


def symbolic(cx, pb, family, ps='lin', size=None, cls='RV', called='x'):
  """ densities, cumulative functions and inverses of symbolic distributions """
  import sympy.stats
  erfs(cx)
  par, name, pdf, cdf, (lo, hi) = FAMILIES[family]
  if cls == 'RV':
    v = pb.RV(called, [lo, hi], vtype=float)
    d = getattr(sympy.stats, name)(v[:], *par)
    v.set_prob(d, **kw(ps))
  else:
    import sympy
    d = getattr(sympy.stats, name)(sympy.Symbol(called), *par)
    v = pb.Prob(d, **kw(ps)) if cls == 'Prob' else pb.SympyProb(d)
  x = cx.real('x', lo, hi, (max(lo, -2.), min(hi, 3.))) if size is None else cx.reals('x', (size,), lo, hi)
  if cls == 'RV':
    r = v(x)
    checkscale(cx, r, ps)
    for e, g in zip(each(x), each(r[called])):
      cx.eq(g, e, 'value')
    q = r.prob
  elif cls == 'Prob':
    q = v(x)
  else:
    q = v['logp' if ps == 'log' else 'prob'](x)
  cx.same(np.shape(q), () if size is None else (size,), 'shape')
  for e, g in zip(each(x), each(cx.linear(q, pscale_of(ps)))):
    cx.eq(g, pdf(cx, e, *par), 'density')
  if size:
    return
  e = x
  if family == 'laplace':   # rounding may take either piece where they meet
    cx.assume(abs(e) > 1e-6)
  p = v['prob'](e)
  cx.eq(p, pdf(cx, e, *par), 'density by name')
  cx.eq(cx.exp(v['logp'](e)), p, 'log density by name')
  keys = list(v[''])
  if family in ('gamma', 'erlang', 'uniformf') and 'icdf' not in keys:  # not solved by sympy
    cx.eq(v['cdf'](e), cdf(cx, e, *par), 'cumulative function')
    return
  for k in ('cdf', 'icdf'):
    cx.same(k in keys, True, k)
  c = v['cdf'](e)
  if cdf:
    cx.eq(c, cdf(cx, e, *par), 'cumulative function')
  near(cx, v['icdf'](c), e, 'inverse of the cumulative function')
  u = cx.real('u', 0.01, 0.99)
  if family == 'laplace':
    cx.assume(abs(u - 0.5) > 1e-6)
  near(cx, v['cdf'](v['icdf'](u)), u, 'cumulative function of the inverse')
  if cls != 'Sympy':
    cx.eq(v.pfun[0](e), c, 'cumulative function')
    cx.eq(v.pfun[1](u), v['icdf'](u), 'inverse cumulative function')


for f in FAMILIES:
  if FAMILIES[f][2]:
    for ps in ('lin', 'log'):
      add('C33', 'sympy_{}_{}'.format(f, ps), symbolic, family=f, ps=ps)
    add('C33', 'sympy_{}_array'.format(f), symbolic, family=f, size=2, ps='log' if f in ('normal', 'pareto') else 'lin')
for c in ('Prob', 'Sympy'):
  for f in ('normal', 'laplace', 'exponential'):
    for ps in ('lin', 'log'):
      add('C33', 'sympy_{}_{}_{}'.format(c, f, ps), symbolic, family=f, ps=ps, cls=c)
for nm in ('height', 'x__'):
  for c in ('RV', 'Prob', 'Sympy'):
    add('C33', 'sympy_{}_named_{}'.format(c, nm), symbolic, family='normal', ps='log', cls=c, called=nm)


def mvarof(cx, n):
  """ a scipy-like multivariate distribution object: an arbitrary density of the values along the last axis """
  import scipy.stats._multivariate as mv
  D = cx.uf('D', 0.05, 1., (0.1, 0.9))

  def over(f):
    def g(x):
      x = np.asarray(x, dtype=object)
      assert x.shape[-1] == n, 'values lie along the last axis'
      out = np.empty(x.shape[:-1], dtype=object)
      for i in np.ndindex(*out.shape):
        out[i] = f(*x[i])
      out = out.squeeze()   # as scipy does
      return (out if cx.symbolic else out.astype(float))[()]
    return g

  class Frozen:
    pass

  class Gen(mv.multivariate_normal_gen):
    def __call__(self, *args, **kwds):
      fr = Frozen()
      fr.pdf, fr.logpdf = over(lambda *x: D(*x)), over(lambda *x: cx.logp(D(*x)))
      fr.cdf = fr.logcdf = fr.rvs = None
      fr.mean, fr.cov = (list(args) + [None, None])[:2]
      return fr
  return Gen(), D


def multivariate(cx, pb, sizes=(2, 3), ps='lin', cls='Prob', to=None, names='xy'):
  """ the density over every combination of the values given """
  n = len(sizes)
  gen, D = mvarof(cx, n)
  V = {k: cx.real(k, -3., 3.) if z is None else cx.reals(k, (z,), -3., 3.) for k, z in zip(names, sizes)}
  if cls == 'Prob':
    p = pb.Prob(gen, [0.] * n, np.eye(n), **kw(ps))
    q = p(V) if to is None else p(V, pscale=pscale_of(to))
    if to is not None:
      ps = to
    axes = [(i, z) for i, z in enumerate(sizes) if z is not None and z > 1]
    order = {k: j for j, (i, _) in enumerate(axes) for k in names[i]}
  else:
    f = pb.RF(*[pb.RV(k, [-4., 4.], vtype=float) for k in names])
    f.set_prob(gen, [0.] * n, np.eye(n), **kw(ps))
    d = f(V)
    q = d.prob
    order = {k: int(d.dims[k]) for k, z in zip(names, sizes) if z is not None}
  q = np.asarray(cx.linear(q, pscale_of(ps)), dtype=object)
  want = [z for k, z in zip(names, sizes) if z is not None and (z > 1 or cls != 'Prob')]
  cx.same(q.shape, tuple(want), 'one axis per variable')
  for idx in np.ndindex(*q.shape):
    at = [V[k] if z is None else V[k][idx[order[k]] if k in order else 0] for k, z in zip(names, sizes)]
    cx.eq(q[idx], D(*at), 'density')


for z in ((None, None), (2, None), (None, 2), (2, 2), (2, 3), (3, 2), (2, None, 2), (2, 3, 2)):
  for c in ('Prob', 'RF'):
    for ps in ('lin', 'log'):
      add('C33', 'multi_{}_{}_{}'.format(c, ''.join(str(e or 's') for e in z), ps), multivariate, sizes=z, ps=ps, cls=c,
          names='xyz'[:len(z)] if ps == 'lin' else 'zax'[:len(z)])
for a, b in (('lin', 'log'), ('log', 'lin')):
  add('C33', 'multi_to_{}'.format(b), multivariate, sizes=(2, 3), ps=a, to=b)


def drawn(cx, pb, size=0, typed=False):
  """ as many values are drawn as asked for, each of its own, of the type asked for """
  from probayes.sympy_prob import sympy_sfun
  seen, D = [], object()

  def draw(distr):
    cx.true(distr is D, 'distribution drawn from')
    seen.append(cx.real('r{}'.format(len(seen)), -5., 5.))
    return seen[-1]
  kw = {'dtype': lambda e: 2. * e} if typed else {}
  got = sympy_sfun(D, size, _sfunc=draw, **kw)
  n = size or 1
  cx.same(len(seen), n, 'values drawn')
  cx.same(np.shape(got), (size,) if size else (), 'shape')
  for e, w in zip(each(got), seen):
    cx.eq(e, 2. * w if typed else w, 'value')


for z in (0, 1, 3):
  for t in (False, True):
    add('C33', 'drawn_{}_{}'.format(z, t), drawn, size=z, typed=t)
