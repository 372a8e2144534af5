""" C07: expectation; C08: quantile """
from checks.common import *
from checks.pd_cond import S as SC
from symx.registry import add


def symvals(cx, st, which, lo=-1e3):
  out = {}
  for k, _, s, _ in st:
    if k in which:
      out[k] = cx.real('v' + k, lo, 1e3) if s is None else cx.reals('v' + k, (s,), lo, 1e3)
  return out


def expectation(cx, pb, struct, keys=None, scale='lin', exponent=None, zeros=(), arg=list,
                vals=None):
  st = SC[struct]
  margs = [k for k, t, _, _ in st if t == 'm']
  conds = [k for k, t, _, _ in st if t == 'c']
  ks = list(keys or margs)
  V = symvals(cx, st, ks, -1e3 if exponent in (None, 0, 1, 2, 3, 4) else 0.1) if vals is None else \
      {k: np.array(vals[k]) for k in vals}
  pd, P = mkpd(cx, pb, st, scale, zeros=zeros, vals=V)
  P = np.asarray(P, dtype=object)
  dims = {k: d for k, _, _, d in st}
  axes = sorted({dims[k] for k in ks if dims[k] is not None})
  left = [a for a in range(P.ndim) if a not in axes]
  if zeros:
    for i in np.ndindex(*[P.shape[a] for a in left]):
      cx.assume(sum_over(P, left, i, None) > 0)
  a = None if keys is None else (ks[0] if arg is str else arg(ks))
  res = pd.expectation(a) if exponent is None else pd.expectation(a, exponent)
  cx.same(set(res.keys()), set(ks) | set(conds), 'keys of the result')
  for k in conds:
    cx.same(list(np.ravel(res[k])), list(np.ravel(valsfor(k, [s for n, _, s, _ in st if n == k][0]))),
            'conditional values')
  for k in ks:
    if dims[k] is None:
      v = V[k]
      cx.eq(res[k], v ** (1 if exponent is None else exponent), 'singleton ' + k)
      continue
    got = np.asarray(res[k], dtype=object)
    shp = tuple(P.shape[a] for a in left)
    if got.shape != shp:
      cx.fail('expectation of {}: shape {} rather than {}'.format(k, got.shape, shp))
      continue
    v = np.ravel(V[k])
    for i in np.ndindex(*shp):
      num = sum_over(P, left, i, lambda j: float(v[j[dims[k]]]) ** (1 if exponent is None else exponent)
                     if not cx.issym(v[j[dims[k]]]) else v[j[dims[k]]] ** (1 if exponent is None else exponent))
      cx.eq(got[i], num / sum_over(P, left, i, None), 'expectation of {} at {}'.format(k, i))


def sum_over(P, left, i, f):
  tot = None
  for j in np.ndindex(*P.shape):
    if all(j[a] == x for a, x in zip(left, i)):
      t = P[j] if f is None else P[j] * f(j)
      tot = t if tot is None else tot + t
  return tot


for s in ('one', 'x2y3', 'x2y3_swapped', 'xy_c', 'xy_c_front', 'xy_c_mid', 'xs', 'xy_cs', 'shared_yz',
          'shared_first', 'xyz_rot'):
  ks = [k for k, t, _, _ in SC[s] if t == 'm']
  for sc in ('lin', 'coef', 'log', 'logoff', 'logneg'):
    if sc in ('lin', 'log') or s in ('x2y3', 'xy_c'):
      add('C07', 'all_{}_{}'.format(s, sc), expectation, struct=s, scale=sc)
  for k in ks:
    if not s.startswith('shared'):
      add('C07', 'of_{}_{}'.format(s, k), expectation, struct=s, keys=[k], arg=str)
      add('C07', 'of_{}_{}_log'.format(s, k), expectation, struct=s, keys=[k], scale='log', arg=tuple)
  add('C07', 'square_' + s, expectation, struct=s, exponent=2)
add('C07', 'of_xyz_rot_xy', expectation, struct='xyz_rot', keys=['x', 'y'])
add('C07', 'of_xyz_swap_zx', expectation, struct='xyz_swap12', keys=['z', 'x'], arg=set)
add('C07', 'of_shared_yz', expectation, struct='shared_yz', keys=['y', 'z'])
add('C07', 'of_shared_y', expectation, struct='shared_yz', keys=['y'])
add('C07', 'cube_one', expectation, struct='one', exponent=3, scale='log')
add('C07', 'ints', expectation, struct='one', vals={'x': [3, 1, 2]})
add('C07', 'bools', expectation, struct='x2y3', vals={'x': [False, True], 'y': [4, 5, 6]})
add('C07', 'zeros', expectation, struct='x2y3', keys=['y'], zeros=(1, 3))
add('C07', 'zeros_log', expectation, struct='x2y3', keys=['x'], zeros=(1, 3), scale='log')
add('C07', 'wxyz', expectation, struct='wxyz', keys=['x', 'w'], thorough=True)
add('C07', 'wxyz_all_log', expectation, struct='wxyz', scale='log', thorough=True)
add('C07', 'wxyz_perm', expectation, struct='wxyz_perm', keys=['z', 'w'], thorough=True)
add('C07', 'wxyz_perm_log', expectation, struct='wxyz_perm', keys=['x'], scale='logoff', thorough=True)


# ------------------------------------------------------------------- quantiles
def cumulative(P):
  flat = list(np.ravel(np.asarray(P, dtype=object)))
  c, out = 0., []
  for p in flat:
    c = p + c
    out.append(c)
  return out


def near(cx, cum, q):
  """ keep clear of exact ties, where rounding picks the side """
  if not cx.symbolic:
    for c in cum:
      if abs(c - q * cum[-1]) < 1e-7 * cum[-1]:
        raise_assume(cx)


def raise_assume(cx):
  cx.assume(False)


def quantile(cx, pb, struct, scale='lin', nq=1, desc=False, order=True, lo=None):
  """ each quantile lies between the adjacent values whose cumulative probabilities bracket it """
  st = SC[struct]
  V = {}
  for k, _, s, _ in st:
    if s is not None:
      v = cx.increasing('v' + k, s, -1e3, 1e3)
      V[k] = v[::-1] if desc else v
    else:
      V[k] = cx.real('v' + k, -1e3, 1e3)
  pd, P = mkpd(cx, pb, st, scale, vals=V, lo=lo or 1e-6)
  P = np.asarray(P, dtype=object)
  qs = [cx.real('q%d' % i, 0.01, 0.99) for i in range(nq)]
  cum = cumulative(P)
  for q in qs:
    near(cx, cum, q)
  if nq == 1:
    res = [pd.quantile(qs[0])]
  else:
    res = pd.quantile(qs)
    cx.same(len(res), nq, 'number of quantiles')
  last = P.ndim - 1
  for q, r in zip(qs, res):
    cx.same(set(r.keys()), {k for k, _, _, _ in st}, 'keys')
    # index of the last cell whose cumulative probability does not exceed q
    i = 0
    for n, c in enumerate(cum):
      if c <= q * cum[-1]:
        i = n
      else:
        break
    ui = np.unravel_index(i, P.shape)
    for k, _, s, d in st:
      if s is None:
        cx.eq(r[k], V[k], 'singleton ' + k)
        continue
      a = V[k][ui[d]]
      if d < last or ui[d] == s - 1:
        cx.eq(r[k], a, 'value of {} where the cumulative probability reaches q'.format(k))
      else:
        b = V[k][ui[d] + 1]
        l, h = (b, a) if desc else (a, b)
        cx.le(l, r[k], 'quantile of {} above its bracket'.format(k))
        cx.le(r[k], h, 'quantile of {} below its bracket'.format(k))


def uniform_median(cx, pb, n):
  """ equal probabilities: linear interpolation of the cumulative distribution """
  v = cx.increasing('v', n, -1e3, 1e3)
  p = cx.real('p', 1e-3, 1e3)
  P = cx.asarray(np.array([p] * n, dtype=object))
  q = cx.real('q', 0.01, 0.99)
  near(cx, [(i + 1.) for i in range(n)], q)
  r = pb.PD('x', {'x': v}, prob=P).quantile(q)['x']
  for i in range(n - 1):
    lo, hi = (i + 1.) / n, (i + 2.) / n
    if q >= lo and q < hi:
      cx.eq(r, v[i] + (v[i + 1] - v[i]) * (q - lo) * n, 'interpolated')
      return
  cx.eq(r, v[0], 'below the first cumulative probability')


def scale_free(cx, pb, n, scale):
  """ neither the scale nor the normalisation changes a quantile """
  v = cx.increasing('v', n, -1e3, 1e3)
  P = cx.probs('p', (n,), lo=1e-3, hi=1e3)
  q = cx.real('q', 0.01, 0.99)
  near(cx, cumulative(P), q)
  tot = sum_over(P, [], (), None)
  N = cx.emap(lambda x: x / tot, P)
  d = np.abs(np.diff(N)) if not cx.symbolic else None
  if d is not None and any(abs(float(x) - min(q, 1 - q)) < 1e-7 for x in d):
    raise_assume(cx)
  a = pb.PD('x', {'x': v}, prob=N).quantile(q)['x']
  ps = SCALES[scale]
  b = pb.PD('x', {'x': v}, prob=cx.stored(P, ps), pscale=ps).quantile(q)['x']
  cx.eq(b, a, 'quantile of the unnormalised distribution')


def singleton(cx, pb, scale):
  x = cx.real('x', -10, 10)
  pd, _ = mkpd(cx, pb, [('x', 'm', None, None)], scale, vals={'x': x})
  q = cx.real('q', 0.01, 0.99)
  cx.eq(pd.quantile(q)['x'], x, 'singleton')
  r = pd.quantile([q, 0.5])
  cx.same(len(r), 2, 'number of quantiles')


for sc in ('lin', 'coef', 'log', 'logoff'):
  add('C08', 'bracket_one_' + sc, quantile, struct='one', scale=sc)
  add('C08', 'scale_free_2_' + sc, scale_free, n=2, scale=sc)
  add('C08', 'singleton_' + sc, singleton, scale=sc)
add('C08', 'bracket_one_two', quantile, struct='one', nq=2)
add('C08', 'bracket_one_desc', quantile, struct='one', desc=True)
add('C08', 'bracket_xs', quantile, struct='xs')
add('C08', 'bracket_x2y3', quantile, struct='x2y3')
add('C08', 'bracket_x2y3_swapped', quantile, struct='x2y3_swapped')
add('C08', 'bracket_x2y3_log', quantile, struct='x2y3', scale='log')
add('C08', 'scale_free_3', scale_free, n=3, scale='coef')
add('C08', 'scale_free_3_log', scale_free, n=3, scale='log', thorough=True)
add('C08', 'uniform_2', uniform_median, n=2)
add('C08', 'uniform_4', uniform_median, n=4)
add('C08', 'bracket_xyz', quantile, struct='xyz', thorough=True)


def unordered(cx, pb, n=3, other=None):
  """ values in no order have no quantile: their number is given instead """
  v = cx.reals('v', (n,), -10., 10.)
  cx.distinct(v)
  vals = {'x': v}
  st = [('x', 'm', n, 0)]
  if other:
    vals['y'] = cx.increasing('w', other)
    st.append(('y', 'm', other, 1))
  pd, P = mkpd(cx, pb, st, vals=vals, lo=1e-3)
  q = cx.real('q', 0.01, 0.99)
  near(cx, cumulative(P), q)
  r = pd.quantile(q)
  up = [bool(v[i + 1] > v[i]) for i in range(n - 1)]
  if all(up) or not any(up):
    if not other:
      cx.le(min(v[0], v[n - 1]), r['x'], 'within the values')
      cx.le(r['x'], max(v[0], v[n - 1]), 'within the values')
    else:
      cx.true(any(bool(r['x'] == e) for e in v), 'one of the values')
  else:
    cx.same(r['x'], {n}, 'unordered values')
  if other:
    cx.le(vals['y'][0], r['y'], 'within the ordered values')
    cx.le(r['y'], vals['y'][other - 1], 'within the ordered values')


add('C08', 'unordered_3', unordered)
add('C08', 'unordered_4', unordered, n=4, thorough=True)
add('C08', 'unordered_with_ordered', unordered, other=2)
for e in (0, 1, 4, -1, 0.5):
  for s in ('one', 'x2y3', 'xs') if e != 0.5 else ('x2y3',):
    for sc in ('lin', 'log'):
      add('C07', 'moment_{}_{}_{}'.format(str(e).replace('.', 'h'), s, sc), expectation, struct=s, exponent=e, scale=sc)
