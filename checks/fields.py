""" C23: joint probabilities of fields of independent or jointly distributed variables """
from checks.common import *
from checks.variables import FORMS, mkset, within, near
from checks.rvs import PS, kw, pscale_of
from symx.registry import add

NAMES = 'xyzw'


class V:
  """ one variable with values to evaluate and its expected probabilities """


def vec(cx, f):
  def g(x):
    r = cx.emap(f, x)
    return r if cx.symbolic or not np.ndim(r) else np.asarray(r, dtype=float)
  return g


def mkvar(cx, pb, name, kind, ps, size, inside=False):
  v = V()
  sc = pscale_of(ps)
  v.ps = ps
  if kind == 'float':
    a, b = cx.real('a' + name, -20., 20.), cx.real('b' + name, -20., 20.)
    cx.assume(b > a + 0.01)
    v.var = pb.RV(name, vset=mkset('co', a, b), vtype=float, **kw(ps))
    mk = lambda i: cx.real(name + str(i), -40., 40.)
    v.lin = lambda e: 1. / (b - a) if within(e, a, b, 'co') else 0.
    lims = (a, b)
  elif kind == 'fun':
    f = cx.uf('f' + name, 0.05, 1., (0.1, 0.9))
    v.var = pb.RV(name, vset=[-10., 10.], vtype=float, prob=vec(cx, lambda e: cx.stored(f(e), sc)), **kw(ps))
    mk = lambda i: cx.real(name + str(i), -9., 9.)
    v.lin = f
    lims = ()
  elif kind == 'int':
    v.var = pb.RV(name, vset={7, -3, 2}, vtype=int, **kw(ps))
    mk = lambda i: [-3, 2, 7, 4][cx.choose(4)]
    v.lin = lambda e: 1. / 3. if e != 4 else 0.
    lims = ()
  elif kind == 'mem':                 # members only
    v.var = pb.RV(name, vset={7, -3, 2}, vtype=int, **kw(ps))
    mk = lambda i: [-3, 2, 7][cx.choose(3)]
    v.lin = lambda e: 1. / 3.
    lims = ()
  else:
    q = cx.prob('q' + name, lo=0.01, hi=0.49)
    v.var = pb.RV(name, vtype=bool, prob=cx.stored(q, sc), **kw(ps))
    mk = lambda i: bool(cx.choose(2))
    v.lin = lambda e: q if e else 1. - q
    lims = ()
  v.vals = [mk(i) for i in range(size or 1)]
  if inside:
    for e in v.vals:
      cx.assume(e > lims[0])
      cx.assume(e < lims[1])
  for e in v.vals:
    if lims:
      near(cx, e, *lims)
  dt = object if cx.symbolic and kind in ('float', 'fun') else \
      {'float': float, 'fun': float, 'int': int, 'mem': int, 'bool': bool}[kind]
  v.arg = v.vals[0] if size is None else np.array(v.vals, dtype=dt)
  v.size = size
  return v


def zero(cx, q, pscale, label):
  if cx.iscomplex(pscale):
    cx.true(q < -1e300, label)
  else:
    cx.eq(q, 0., label)


def entry(cx, d, q, parts, label):
  if any(not cx.issym(p) and p == 0. for p in parts):
    return zero(cx, q, d.pscale, label + ' (zero)')
  want = 1.
  for p in parts:
    want = want * p
  cx.eq(cx.linear(q, d.pscale), want, label)


def _grown(pb, vs, many):
  rf = pb.RF(vs[0])
  if many:
    rf.add_var(list(vs[1:]) if many == 'list' else pb.RF(*vs[1:]))
  else:
    for v in vs[1:]:
      rf.add_var(v)
  return rf


# ways of putting the same variables together
BUILDS = {
    'ampfield': lambda pb, vs: vs[0] & pb.RF(*vs[1:]),
    'ampfields': lambda pb, vs: pb.RF(*vs[:-1]) & pb.RF(vs[-1]),
    'ampdep': lambda pb, vs: pb.RF(*vs[:-1]) & pb.SD(vs[-1]),
    'tuple': lambda pb, vs: pb.RF(tuple(vs)),
    'list': lambda pb, vs: pb.RF(list(vs)),
    'field': lambda pb, vs: pb.RF(pb.RF(*vs)),
    'dict': lambda pb, vs: pb.RF(collections.OrderedDict((v.name, v) for v in vs)),
    'grown': lambda pb, vs: _grown(pb, vs, ''),
    'grownlist': lambda pb, vs: _grown(pb, vs, 'list'),
    'grownfield': lambda pb, vs: _grown(pb, vs, 'field'),
}


def joint(cx, pb, kinds, scales=None, sizes=None, how='dict', inside=False):
  """ the product of the probabilities of each variable """
  n = len(kinds)
  scales, sizes = scales or ['lin'] * n, sizes or [None] * n
  vs = [mkvar(cx, pb, NAMES[i], kinds[i], scales[i], sizes[i], inside) for i in range(n)]
  rf = pb.RF(*[v.var for v in vs])
  args = collections.OrderedDict((NAMES[i], vs[i].arg) for i in range(n))
  if how == 'reverse':
    args = collections.OrderedDict(reversed(list(args.items())))
  if how == 'kwds':
    d = rf(**args)
  elif how == 'objects':
    d = rf({v.var: v.arg for v in vs})
  elif how == 'amp':
    rf = vs[0].var & vs[1].var
    for v in vs[2:]:
      rf = rf & v.var
    d = rf(args)
  elif how in BUILDS:
    rf = BUILDS[how](pb, [v.var for v in vs])
    cx.same(rf.keylist, list(NAMES[:n]), 'order of the variables')
    d = rf(args)
  else:
    d = rf(args)
  cx.same(set(d.keys()), set(NAMES[:n]), 'variables')
  axes, dims, shape = [], {}, []
  for i in range(n):
    dims[NAMES[i]] = None if sizes[i] is None else len(shape)
    if sizes[i] is not None:
      shape.append(sizes[i])
      axes.append(i)
  got = {k: d.dims.get(k) for k in NAMES[:n]}
  cx.same(got, dims, 'axes')
  cx.same(np.shape(d.prob), tuple(shape), 'shape')
  for i in range(n):
    cx.eq(np.ravel(np.asarray(d[NAMES[i]], dtype=object)), np.array(vs[i].vals, dtype=object), 'values')
  P = np.asarray(d.prob, dtype=object)
  for idx in np.ndindex(*shape):
    at = [0] * n
    for a, i in zip(axes, idx):
      at[a] = i
    entry(cx, d, P[idx] if shape else P[()], [vs[i].lin(vs[i].vals[at[i]]) for i in range(n)], 'joint probability')


for k in ('float', 'fun', 'int', 'bool'):
  add('C23', 'single_{}'.format(k), joint, kinds=[k])
  add('C23', 'single_array_{}'.format(k), joint, kinds=[k], sizes=[2])
  for l in ('float', 'fun', 'int', 'bool'):
    add('C23', 'pair_{}_{}'.format(k, l), joint, kinds=[k, l], inside=(k == l == 'float'))
    add('C23', 'pair_array_{}_{}'.format(k, l), joint, kinds=[k, l], inside=(k == l == 'float'),
        sizes=[2, 2 if l != 'float' or k == 'float' else 1])
for s in PS:
  for t in PS:
    add('C23', 'scales_{}_{}'.format(s, t), joint, kinds=['fun', 'bool'], scales=[s, t], sizes=[2, 2])
  add('C23', 'scales3_{}'.format(s), joint, kinds=['bool', 'fun', 'mem'], scales=[s, 'log', 'coef'], sizes=[None, 2, 2])
  add('C23', 'outside_{}'.format(s), joint, kinds=['int', 'float'], scales=[s, s], sizes=[2, None])
  add('C23', 'uniform_{}'.format(s), joint, kinds=['float', 'int'], scales=[s, s], sizes=[None, None])
for h in ('kwds', 'objects', 'amp', 'reverse'):
  add('C23', 'how_' + h, joint, kinds=['fun', 'bool'], sizes=[2, 2], how=h)
  add('C23', 'how3_' + h, joint, kinds=['fun', 'bool', 'mem'], sizes=[2, None, 2], how=h)
for h in BUILDS:
  add('C23', 'built_' + h, joint, kinds=['fun', 'bool', 'mem'], sizes=[2, None, 2], how=h)
  add('C23', 'built_log_' + h, joint, kinds=['mem', 'fun'], sizes=[None, 2], how=h, scales=['log', 'lin'])
for z in ((2, None, None), (None, 2, None), (None, None, 2), (2, 2, None), (2, None, 3), (None, 3, 2), (2, 3, 2)):
  add('C23', 'triple_{}'.format(''.join(str(e or 's') for e in z)), joint, kinds=['fun', 'fun', 'bool'], sizes=list(z))
  add('C23', 'triple_log_{}'.format(''.join(str(e or 's') for e in z)), joint, kinds=['fun', 'mem', 'fun'],
      sizes=[z[0], z[1] and 1, z[2]], scales=['log', 'lin', 'logoff'])


def shared(cx, pb, scales=('lin', 'lin'), third=None, n=2, how='str'):
  """ values given jointly share one axis """
  x = mkvar(cx, pb, 'x', 'fun', scales[0], n)
  y = mkvar(cx, pb, 'y', 'bool', scales[1], n)
  vs = [x, y]
  if third is not None:
    vs.append(mkvar(cx, pb, 'z', 'mem', 'lin', third or None))
  rf = pb.RF(*[v.var for v in vs])
  key = 'x,y' if how == 'str' else (x.var, y.var)
  args = collections.OrderedDict([(key, (x.arg, y.arg))])
  if third is not None:
    args['z'] = vs[2].arg
  d = rf(args)
  dims = {'x': 0, 'y': 0}
  shape = (n,)
  if third is not None:
    dims['z'] = 1 if third else None
    shape += (third,) if third else ()
  cx.same({k: d.dims.get(k) for k in dims}, dims, 'axes')
  cx.same(np.shape(d.prob), shape, 'shape')
  for v, k in zip(vs, NAMES):
    cx.eq(np.ravel(np.asarray(d[k], dtype=object)), np.array(v.vals, dtype=object), 'values')
  P = np.asarray(d.prob, dtype=object)
  for idx in np.ndindex(*shape):
    parts = [x.lin(x.vals[idx[0]]), y.lin(y.vals[idx[0]])]
    if third is not None:
      parts.append(vs[2].lin(vs[2].vals[idx[1] if third else 0]))
    entry(cx, d, P[idx], parts, 'joint probability')


for h in ('str', 'objects'):
  add('C23', 'shared_' + h, shared, how=h)
  add('C23', 'shared_log_' + h, shared, how=h, scales=('log', 'coef'), n=3)
for t in (0, 2):
  add('C23', 'shared_third{}'.format(t), shared, third=t)


def keyed(cx, pb, order='yx', kinds=('fun', 'bool', 'mem'), own=None, n=2, how='str', scales=None):
  """ values given jointly in any order of names, of neighbours or not """
  names = NAMES[:len(kinds)] if own is not None or len(order) == 3 else NAMES[:2]
  scales = scales or ['lin'] * len(names)
  vs = {k: mkvar(cx, pb, k, kinds[i], scales[i], n if k in order else own or None) for i, k in enumerate(names)}
  rf = pb.RF(*[vs[k].var for k in names])
  key = ','.join(order) if how != 'objects' else tuple(vs[k].var for k in order)
  val = tuple(vs[k].arg for k in order)
  args = collections.OrderedDict([(key, list(val) if how == 'list' else val)])
  for k in names:
    if k not in order:
      if how == 'first':
        args = collections.OrderedDict([(k, vs[k].arg)] + list(args.items()))
      else:
        args[k] = vs[k].arg
  d = rf(args)
  dims, nd = {}, 0
  for k in names:
    if k in dims:
      continue
    if k in order:
      dims.update({j: nd for j in order})
      nd += 1
    else:
      dims[k] = nd if own else None
      nd += 1 if own else 0
  cx.same({k: d.dims.get(k) for k in names}, dims, 'axes')
  shape = [0] * nd
  for k in names:
    if dims[k] is not None:
      shape[dims[k]] = vs[k].size
  cx.same(np.shape(d.prob), tuple(shape), 'shape')
  for k in names:
    cx.eq(np.ravel(np.asarray(d[k], dtype=object)), np.array(vs[k].vals, dtype=object), 'values of ' + k)
  P = np.asarray(d.prob, dtype=object)
  for idx in np.ndindex(*shape):
    entry(cx, d, P[idx], [vs[k].lin(vs[k].vals[0 if dims[k] is None else idx[dims[k]]]) for k in names],
          'joint probability')


for o in ('xy', 'yx'):
  for h in ('str', 'objects', 'list'):
    add('C23', 'keyed_{}_{}'.format(o, h), keyed, order=o, how=h)
  add('C23', 'keyed_{}_3'.format(o), keyed, order=o, n=3, kinds=('bool', 'fun'))
for o in ('xy', 'yx', 'xz', 'zx', 'yz', 'zy'):
  for w in (0, 2, 3):
    add('C23', 'keyed_{}_own{}'.format(o, w), keyed, order=o, own=w, kinds=('bool', 'fun', 'mem') if 'y' not in o else ('fun', 'bool', 'mem'))
  add('C23', 'keyed_{}_first'.format(o), keyed, order=o, own=3, how='first', kinds=('bool', 'mem', 'fun'))
for o in ('xyz', 'zyx', 'yzx', 'xzy'):
  add('C23', 'keyed_' + o, keyed, order=o, kinds=('bool', 'fun', 'bool'))
for s in ('log', 'coef', 'logoff'):
  add('C23', 'keyed_yx_' + s, keyed, order='yx', kinds=('fun', 'bool'), scales=['lin', s])
  add('C23', 'keyed_zx_' + s, keyed, order='zx', own=2, kinds=('bool', 'mem', 'fun'), scales=[s, 'lin', s])


def whole(cx, pb, ps='lin', how='none'):
  """ without values discrete fields are evaluated over the whole of their sets """
  b = mkvar(cx, pb, 'x', 'bool', ps, 2)
  k = mkvar(cx, pb, 'y', 'mem', ps, 1)
  rf = b.var & k.var
  d = rf() if how == 'none' else rf({'x': None, 'y': None}) if how == 'dict' else rf({'x': [True, False][cx.choose(2)]})
  Y = [int(e) for e in np.ravel(d['y'])]
  cx.same(sorted(Y), [-3, 2, 7], 'values')
  if how == 'part':
    cx.same(np.shape(d.prob), (3,), 'shape')
    for j in range(3):
      entry(cx, d, d.prob[j], [b.lin(bool(d['x'])), 1. / 3.], 'joint probability')
    return
  X = [bool(e) for e in np.ravel(d['x'])]
  cx.same(sorted(X), [False, True], 'values')
  cx.same(np.shape(d.prob), (2, 3), 'shape')
  tot = 0.
  for i in range(2):
    for j in range(3):
      tot = tot + cx.linear(d.prob[i, j], d.pscale)
      entry(cx, d, d.prob[i, j], [b.lin(X[i]), 1. / 3.], 'joint probability')
  cx.eq(tot, 1., 'total probability')


for ps in PS:
  for h in ('none', 'dict', 'part'):
    add('C23', 'whole_{}_{}'.format(h, ps), whole, ps=ps, how=h)


def iid(cx, pb, how, ps='lin'):
  """ independent identically distributed values multiply """
  sc = pscale_of(ps)
  f = cx.uf('f', 0.05, 1., (0.1, 0.9))
  x = pb.RV('x', vset=[-10., 10.], vtype=float, **kw(ps))
  y = pb.RV('y', vset=[-10., 10.], vtype=float, **kw(ps))
  rf = x & y

  def p(x, y):
    u, v = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
    out = np.empty(u.shape, dtype=object)
    for i in np.ndindex(*u.shape):
      out[i] = cx.stored(f(u[i], v[i]), sc)
    return out if cx.symbolic else out.astype(float)
  rf.set_prob(p, **kw(ps))
  X, Y = cx.reals('x', (2,), -9., 9.), cx.reals('y', (2,), -9., 9.)
  d = rf({'x': X, 'y': Y}, iid=True if how == 'all' else ['x'] if how == 'x' else False)
  if how == 'none':
    cx.same(np.shape(d.prob), (2, 2), 'shape')
    for i in range(2):
      for j in range(2):
        cx.eq(cx.linear(d.prob[i, j], d.pscale), f(X[i], Y[j]), 'joint probability')
  elif how == 'x':
    cx.same(np.shape(d.prob), (2,), 'shape')
    for j in range(2):
      cx.eq(cx.linear(d.prob[j], d.pscale), f(X[0], Y[j]) * f(X[1], Y[j]), 'product over x')
  else:
    want = f(X[0], Y[0]) * f(X[0], Y[1]) * f(X[1], Y[0]) * f(X[1], Y[1])
    q = d.prob if not np.ndim(d.prob) else np.ravel(d.prob)[0]
    cx.same(int(np.size(d.prob)), 1, 'shape')
    cx.eq(cx.linear(q, d.pscale), want, 'product over all')


for h in ('none', 'x', 'all'):
  for ps in ('lin', 'log', 'coef'):
    add('C23', 'iid_{}_{}'.format(h, ps), iid, how=h, ps=ps)


def multivariate(cx, pb, n, sizes, ps='lin', back=False):
  """ a scipy-style multivariate density sees the variables in their order """
  import scipy.stats._multivariate as mv
  f = cx.uf('f', 0.05, 1., (0.1, 0.9))
  sc = pscale_of(ps)

  class Frozen:
    def _all(self, x, g):
      x = np.asarray(x, dtype=object)
      assert x.shape[-1] == n
      out = np.empty(x.shape[:-1], dtype=object)
      for i in np.ndindex(*out.shape):
        out[i] = g(f(*list(x[i])))
      out = np.squeeze(out)           # as scipy does
      if not out.ndim:
        return out[()]
      return out if cx.symbolic else out.astype(float)

    def pdf(self, x):
      return self._all(x, lambda e: e)

    def logpdf(self, x):
      return self._all(x, cx.logp)

  class Gen(mv.multivariate_normal_gen):
    def __call__(self, *args, **kwds):
      return Frozen()

  vs = [pb.RV(NAMES[i], vset=[-10., 10.], vtype=float, **kw(ps)) for i in range(n)]
  rf = pb.RF(*vs)
  rf.set_prob(Gen(), [0.] * n, np.eye(n))
  X = [cx.real(NAMES[i], -9., 9.) if sizes[i] is None else cx.reals(NAMES[i], (sizes[i],), -9., 9.)
       for i in range(n)]
  order = range(n) if not back else reversed(range(n))
  d = rf({NAMES[i]: X[i] for i in order})
  shape = tuple(s for s in sizes if s is not None)
  cx.same(np.shape(d.prob), shape, 'shape')
  P = np.asarray(d.prob, dtype=object)
  for idx in np.ndindex(*shape):
    it = iter(idx)
    at = [X[i] if sizes[i] is None else X[i][next(it)] for i in range(n)]
    cx.eq(cx.linear(P[idx] if shape else P[()], d.pscale), f(*at), 'density')


for ps in ('lin', 'log'):
  for z in ((2, 3), (2, None), (None, 2), (None, None), (2, 2, 3), (None, 2, 2), (2, None, 2), (2, 2, None), (None,) * 3,
            (2, 1, 2, 2)):
    add('C23', 'multivariate_{}_{}'.format(''.join(str(e or 's') for e in z), ps), multivariate, n=len(z),
        sizes=list(z), ps=ps)


def multishared(cx, pb, ps='lin'):
  import scipy.stats
  g = scipy.stats.multivariate_normal([0.5, -0.5], [[1.5, -1.], [-1., 2.]])
  rf = pb.RV('x', vset=[-10., 10.], vtype=float, **kw(ps)) & pb.RV('y', vset=[-10., 10.], vtype=float, **kw(ps))
  rf.set_prob(scipy.stats.multivariate_normal, [0.5, -0.5], [[1.5, -1.], [-1., 2.]])
  X, Y = np.array([0.25, 1., -2.]), np.array([1., 0.5, 3.])
  d = rf({'x,y': (X, Y)})
  cx.same(np.shape(d.prob), (3,), 'shape')
  for i in range(3):
    cx.eq(cx.linear(d.prob[i], d.pscale), float(g.pdf([X[i], Y[i]])), 'density')


for ps in ('lin', 'log'):
  add('C23', 'multivariate_shared_' + ps, multishared, ps=ps)
  for z in ((None, None), (2, 2), (None, None, None), (2, None, 2)):
    add('C23', 'multivariate_back_{}_{}'.format(''.join(str(e or 's') for e in z), ps), multivariate, n=len(z),
        sizes=list(z), ps=ps, back=True)


def direct(cx, pb, ps='lin', passdims=False, size=2):
  """ a joint function is evaluated at the given values """
  sc = pscale_of(ps)
  f = cx.uf('f', 0.05, 1., (0.1, 0.9))
  x = pb.RV('x', vset=[-10., 10.], vtype=float)
  y = pb.RV('y', vset={7, -3, 2}, vtype=int)
  rf = x & y
  seen = []

  def p(x, y, dims=None):
    seen.append(dims)
    if not np.ndim(x) and not np.ndim(y):
      return cx.stored(f(x, y), sc)
    u, v = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
    out = np.empty(u.shape, dtype=object)
    for i in np.ndindex(*u.shape):
      out[i] = cx.stored(f(u[i], v[i]), sc)
    return out if cx.symbolic else out.astype(float)
  rf.set_prob(p, **dict(kw(ps), **({'passdims': True} if passdims else {})))
  X = cx.reals('x', (size,), -9., 9.) if size else cx.real('x', -9., 9.)
  d = rf({'x': X, 'y': np.array([2, 7])}) if size else rf({'x': X, 'y': 2})
  if passdims:
    dims = {k: d for k, d in (seen[-1] or {}).items() if d is not None}
    cx.same(dims, {'x': 0, 'y': 1} if size else {}, 'axes passed')
  if not size:
    cx.eq(cx.linear(d.prob, d.pscale), f(X, 2), 'joint probability')
    return
  cx.same(np.shape(d.prob), (size, 2), 'shape')
  for i in range(size):
    for j, k in enumerate((2, 7)):
      cx.eq(cx.linear(d.prob[i, j], d.pscale), f(X[i], k), 'joint probability')


for ps in PS:
  add('C23', 'direct_' + ps, direct, ps=ps)
  add('C23', 'direct_scalar_' + ps, direct, ps=ps, size=None)
add('C23', 'direct_passdims', direct, passdims=True)
add('C23', 'direct_passdims_scalar', direct, passdims=True, size=None)


def proposal(cx, pb, ps='lin', own=False, deps=False):
  """ proposals carry primed names and the proposal (or joint) probability """
  x = mkvar(cx, pb, 'x', 'fun', ps, 2)
  y = mkvar(cx, pb, 'y', 'bool', ps, 2)
  rf = x.var & y.var
  if own:
    g = cx.uf('g', 0.05, 1., (0.1, 0.9))

    def prop(x, y):
      u, v = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
      out = np.empty(u.shape, dtype=object)
      for i in np.ndindex(*u.shape):
        out[i] = g(u[i], int(v[i]))
      return out if cx.symbolic else out.astype(float)
    rf.set_prop(prop, **({'deps': {'x', 'y'}} if deps else {}))
  d = rf.propose({'x': x.arg, 'y': y.arg})
  cx.same(set(d.keys()), {"x'", "y'"}, 'primed variables')
  cx.same({k: d.dims.get(k) for k in d.keys()}, {"x'": 0, "y'": 1}, 'axes')
  for i in range(2):
    for j in range(2):
      if own:
        cx.eq(d.prob[i, j], g(x.vals[i], int(y.vals[j])), 'proposal probability')
      else:
        entry(cx, d, d.prob[i, j], [x.lin(x.vals[i]), y.lin(y.vals[j])], 'joint probability')


for ps in ('lin', 'log', 'coef'):
  add('C23', 'propose_' + ps, proposal, ps=ps)
add('C23', 'propose_own', proposal, own=True)
add('C23', 'propose_own_deps', proposal, own=True, deps=True)


def ownscale(cx, pb, ps, scales=('lin', 'lin'), how='set'):
  """ the joint probability on a scale requested for the field """
  x = mkvar(cx, pb, 'x', 'fun', scales[0], 2)
  y = mkvar(cx, pb, 'y', 'bool', scales[1], 2)
  rf = x.var & y.var
  if how == 'set':
    rf.set_prob(pscale=PS[ps])
  else:
    rf.pscale = PS[ps]
  d = rf({'x': x.arg, 'y': y.arg})
  samescale(cx, d.pscale, pscale_of(ps), 'scale')
  for i in range(2):
    for j in range(2):
      entry(cx, d, d.prob[i, j], [x.lin(x.vals[i]), y.lin(y.vals[j])], 'joint probability')


for ps in ('one', 'coef', 'log', 'zero', 'logoff', 'logneg'):
  for s in (('lin', 'lin'), ('log', 'coef'), ('log', 'log')):
    for h in ('set', 'attribute'):
      add('C23', 'own_{}_{}_{}_{}'.format(ps, s[0], s[1], h), ownscale, ps=ps, scales=s, how=h)


def ownsingle(cx, pb, ps, s, kind, how='set'):
  """ fields of one variable """
  x = mkvar(cx, pb, 'x', kind, s, 2)
  rf = pb.RF(x.var)
  if how == 'set':
    rf.set_prob(pscale=PS[ps])
  else:
    rf.pscale = PS[ps]
  d = rf({'x': x.arg})
  samescale(cx, d.pscale, pscale_of(ps), 'scale')
  for i in range(2):
    entry(cx, d, d.prob[i], [x.lin(x.vals[i])], 'probability')


for ps in ('one', 'coef', 'log', 'logoff'):
  for s in ('lin', 'log', 'coef'):
    for k in ('fun', 'bool'):
      add('C23', 'ownsingle_{}_{}_{}'.format(ps, s, k), ownsingle, ps=ps, s=s, kind=k)
