""" C06: log-scale results do not depend on how small the log-probabilities are """
from checks.common import *
from checks.pd_cond import S as SC
from symx.registry import add

NNI = -1.7976931348623158e+308
SHIFT = 1e5


def inputs(cx, st, off=0., zeros=(), tag='t', lo=1e-3, hi=1e3):
  """ positive weights, an arbitrary common log shift, and the stored log values """
  shp = shape_of(st)
  W = cx.probs(tag, shp, zeros, lo=lo, hi=hi) if shp else cx.prob(tag, lo=lo, hi=hi)
  s = cx.real('shift_' + tag, -SHIFT, SHIFT, (-3000., -1000.))
  L = cx.emap(lambda w: NNI if iszero(w) else cx.logp(w) + s - off, W)
  cx.underflow()
  return W, s, L


def iszero(w):
  return isinstance(w, float) and w == 0.


def build(pb, st, L, off=0.):
  od, dims = collections.OrderedDict(), collections.OrderedDict()
  for k, _, s, d in st:
    od[k] = valsfor(k, s)
    dims[k] = d
  ps = complex(off, 0.) if off >= 0 else complex(-off, math.pi)
  return pb.PD(name_of(st), od, dims=dims, prob=L, pscale=ps)


def logtable(cx, pd, label='result'):
  """ assignment -> log-probability, read from the stored values """
  ps = pd.pscale
  if not cx.iscomplex(ps):
    cx.fail('{}: log scale lost: {}'.format(label, ps))
    return {}
  off = ps.real if ps.imag == 0 else -ps.real
  keys = list(pd.keys())
  prob = np.asarray(pd.prob, dtype=object)
  out = {}
  for i in np.ndindex(*prob.shape):
    a = frozenset((k, vkey(pd[k]) if pd.dims[k] is None else
                   vkey(np.ravel(pd[k])[i[pd.dims[k]]])) for k in keys)
    v = prob[i]
    out[a] = v if isinstance(v, float) and v < -1e300 else v + off
  return out


def weights(st, W):
  """ assignment -> weight """
  out = {}
  W = np.asarray(W, dtype=object)
  for i in np.ndindex(*W.shape):
    a = frozenset((k, vkey(valsfor(k, s)) if d is None else vkey(valsfor(k, s)[i[d]]))
                  for k, _, s, d in st)
    out[a] = W[i]
  return out


def eqlog(cx, got, want, label):
  """ want: assignment -> (weight, shift) meaning log(weight) + shift """
  if set(got) != set(want):
    cx.fail('{}: assignments differ'.format(label))
    return
  for a in sorted(want, key=lambda s: sorted(map(str, s))):
    w, s = want[a]
    l = '{} at {}'.format(label, dict(sorted(a)))
    if iszero(w):
      cx.true(got[a] < -1e300, l + ' stays impossible')
    else:
      cx.eq(got[a], cx.logp(w) + s if cx.issym(w) or w > 0 else NNI, l, atol=1e-6)


def marginalise(cx, pb, struct, keys, off=0., zeros=()):
  st = SC[struct]
  W, s, L = inputs(cx, st, off, zeros)
  res = build(pb, st, L, off).marginalise(list(keys))
  keep = {k for k, _, _, _ in st} - set(keys)
  eqlog(cx, logtable(cx, res), {a: (w, s) for a, w in project(weights(st, W), keep).items()},
        'marginal')


def conditionalise(cx, pb, struct, keys, off=0., zeros=()):
  st = SC[struct]
  W, s, L = inputs(cx, st, off, zeros)
  t = weights(st, W)
  conds = set(keys) | {k for k, c, _, _ in st if c == 'c'}
  tot = project(t, conds)
  want = {}
  for a, w in t.items():
    n = tot[frozenset(x for x in a if x[0] in conds)]
    want[a] = (w if iszero(w) else w / n, 0.)
  res = build(pb, st, L, off).conditionalise(list(keys))
  eqlog(cx, logtable(cx, res), want, 'conditional')


def bayes(cx, pb, struct, keys, off=0.):
  """ joint over evidence = posterior, however small the joint is """
  st = SC[struct]
  W, s, L = inputs(cx, st, off)
  t = weights(st, W)
  joint = build(pb, st, L, off)
  cond = [k for k, c, _, _ in st if c == 'c']
  ev = joint.marginal(list(keys))
  res = joint / ev
  tot = project(t, set(keys) | set(cond))
  want = {a: (w / tot[frozenset(x for x in a if x[0] in keys or x[0] in cond)], 0.)
          for a, w in t.items()}
  eqlog(cx, logtable(cx, res), want, 'posterior')


def likelihood(cx, pb, off=0.):
  """ prior x likelihood, normalised: P(h|x) """
  sh = [('h', 'm', 3, 0)]
  sl = [('x', 'm', None, None), ('h', 'c', 3, 0)]
  Wh, s1, Lh = inputs(cx, sh, 0., tag='h')
  Wl, s2, Ll = inputs(cx, sl, off, tag='l')
  post = (build(pb, sl, Ll, off) * build(pb, sh, Lh)).conditionalise('x')
  n = Wh[0] * Wl[0] + Wh[1] * Wl[1] + Wh[2] * Wl[2]
  want = {}
  for i in range(3):
    want[frozenset([('h', float(valsfor('h', 3)[i])), ('x', float(valsfor('x', None)))])] = \
        (Wh[i] * Wl[i] / n, 0.)
  eqlog(cx, logtable(cx, post), want, 'posterior')


def expectation(cx, pb, struct, keys, off=0., zeros=()):
  st = SC[struct]
  W, s, L = inputs(cx, st, off, zeros)
  t = weights(st, W)
  res = build(pb, st, L, off).expectation(list(keys))
  rest = {k for k, _, sz, _ in st if k not in keys and sz is not None}
  for k in keys:
    num, den = {}, {}
    for a, w in t.items():
      b = frozenset(x for x in a if x[0] in rest)
      v = dict(a)[k]
      num[b] = w * v + num.get(b, 0.)
      den[b] = w + den.get(b, 0.)
    if len(num) == 1:
      cx.eq(np.ravel(res[k])[0], list(num.values())[0] / list(den.values())[0],
            'expectation of ' + k)
    else:
      got = np.ravel(res[k])
      (r,) = rest
      for i, v in enumerate(valsfor(r, len(got))):
        b = frozenset([(r, float(v))])
        cx.eq(got[i], num[b] / den[b], 'expectation of {} given {}={}'.format(k, r, v))


def quantile(cx, pb, n):
  st = [('x', 'm', n, 0)]
  W, s, L = inputs(cx, st)
  q = cx.real('q', 0.02, 0.98)
  a = build(pb, st, L).quantile(q)
  b = pb.PD('x', {'x': valsfor('x', n)}, prob=W, pscale=1.).quantile(q)
  cx.eq(a['x'], b['x'], 'quantile against the linear scale')


for off in (0., 4.5, -3.25):
  t = 'off%g' % off
  add('C06', 'marginalise_y_' + t, marginalise, struct='x2y3', keys='y', off=off)
  add('C06', 'marginalise_x_' + t, marginalise, struct='x2y3', keys='x', off=off)
  add('C06', 'conditionalise_x_' + t, conditionalise, struct='x2y3', keys='x', off=off)
  add('C06', 'conditionalise_y_' + t, conditionalise, struct='x2y3_swapped', keys='y', off=off)
  add('C06', 'conditionalise_scalar_' + t, conditionalise, struct='xs', keys='s', off=off)
  add('C06', 'likelihood_' + t, likelihood, off=off)
  add('C06', 'expectation_' + t, expectation, struct='one', keys='x', off=off)
  add('C06', 'expectation_joint_' + t, expectation, struct='x2y3', keys='xy', off=off)
  add('C06', 'expectation_of_x_' + t, expectation, struct='x2y3', keys='x', off=off)
  add('C06', 'bayes_y_' + t, bayes, struct='x2y3', keys='y', off=off)
add('C06', 'marginalise_cond', marginalise, struct='xy_c', keys='y')
add('C06', 'marginalise_xz', marginalise, struct='xyz_rot', keys='xz')
add('C06', 'conditionalise_cond', conditionalise, struct='xy_c_mid', keys='x')
add('C06', 'conditionalise_xz', conditionalise, struct='xyz_rot', keys='xz')
add('C06', 'conditionalise_sy', conditionalise, struct='xys', keys='sy')
add('C06', 'bayes_cond', bayes, struct='xy_c', keys='x')
add('C06', 'bayes_xz', bayes, struct='xyz', keys='xz')
add('C06', 'bayes_scalar', bayes, struct='xs', keys='s')
for z in ((0,), (1, 4), (0, 1, 2)):
  t = ''.join(map(str, z))
  add('C06', 'zero_marginalise_' + t, marginalise, struct='x2y3', keys='y', zeros=z)
  add('C06', 'zero_conditionalise_' + t, conditionalise, struct='x2y3', keys='x', zeros=z)
add('C06', 'zero_expectation', expectation, struct='one', keys='x', zeros=(1,))
add('C06', 'quantile_2', quantile, n=2)
add('C06', 'quantile_3', quantile, n=3)
