""" C11: aggregation of distributions; C12: redistribution over new marginals; C21: iid products """
from checks.common import *
from checks.pd_cond import S as SC
from checks.pd_access import S as SA
from symx.registry import add


# ------------------------------------------------------------------------ C11
def singles(cx, pb, keys, n, scale='lin', method='summate', sets=()):
  """ n single samples make one list, holding every sample once, in order """
  marg, cond = keys
  V, P, pds = [], [], []
  ps = SCALES[scale]
  for i in range(n):
    v = {k: ({i + 2} if k in sets else cx.real('{}{}'.format(k, i))) for k in marg + cond}
    p = cx.prob('p%d' % i)
    V.append(v)
    P.append(p)
    pds.append(pb.PD(','.join(marg) + ('|' + ','.join(cond) if cond else ''),
                     collections.OrderedDict((k, v[k]) for k in marg + cond),
                     dims={k: None for k in v}, prob=cx.stored(p, ps), pscale=ps))
  if method == 'summate':
    res = pb.summate(*pds)
  else:
    res = pds[0]
    res = res + pds[1]
  names(cx, res, marg, cond)
  samescale(cx, res.pscale, ps)
  cx.same(tuple(np.shape(res.prob)), (n,), 'shape')
  cx.eq(np.asarray(cx.linear(res.prob, res.pscale), dtype=object), np.array(P, dtype=object), 'probabilities')
  for k in marg + cond:
    if k in sets:
      cx.same(res[k], {sum(i + 2 for i in range(n))}, 'count of ' + k)
    else:
      cx.same(res.dims[k], 0, 'dimension of ' + k)
      cx.eq(np.ravel(res[k]), np.array([v[k] for v in V], dtype=object), 'values of ' + k)


def joined(cx, pb, struct, key, sizes, scale='lin', method='summate'):
  """ distributions over adjoining ranges of one axis are joined along it """
  st = SA[struct]
  d = [dd for k, _, _, dd in st if k == key][0]
  pds, tables = [], []
  off = 0
  for i, n in enumerate(sizes):
    s2 = [(k, t, n if dd == d else s, dd) for k, t, s, dd in st]
    vals = {k: valsfor(k, 6)[off:off + n] for k, _, _, dd in st if dd == d}
    pd, _ = mkpd(cx, pb, s2, scale, prefix='p%d' % i, vals=vals)
    pds.append(pd)
    tables.append(table(cx, pd))
    off += n
  res = pb.summate(*pds) if method == 'summate' else pds[0] + pds[1]
  names(cx, res, [k for k, t, _, _ in st if t == 'm'], [k for k, t, _, _ in st if t == 'c'])
  samescale(cx, res.pscale, SCALES[scale])
  want = {}
  for t in tables:
    want.update(t)
  eqtable(cx, table(cx, res), want, 'joined distribution')
  for pd, t in zip(pds, tables):
    eqtable(cx, table(cx, pd, 'operand'), t, 'operand unchanged')


def join_any(cx, pb, axis, n=2):
  """ whatever values two ranges of one size hold, they are joined end to end """
  fix = np.array([4., 7.])
  ps, vs = [], []
  for i in range(2):
    v = cx.reals('v%d' % i, (n,), -50., 50.)
    p = cx.reals('p%d' % i, (n, 2) if axis == 0 else (2, n), 0., 1.)
    vals = collections.OrderedDict((('x', v if axis == 0 else fix), ('y', v if axis == 1 else fix)))
    ps.append(pb.PD('x,y', vals, dims={'x': 0, 'y': 1}, prob=p))
    vs.append((v, p))
  j = cx.choose(n)             # where they differ
  cx.assume(abs(vs[1][0][j] - vs[0][0][j]) > 0.5)
  res = pb.summate(*ps)
  key = 'xy'[axis]
  cx.eq(np.ravel(res[key]), np.concatenate([np.ravel(v) for v, _ in vs]), 'values joined')
  cx.eq(np.ravel(res['yx'[axis]]), fix, 'other values')
  cx.eq(res.prob, np.concatenate([p for _, p in vs], axis=axis), 'probabilities')


def join_none(cx, pb, n=3):
  """ ranges that differ, anywhere, along two axes have no axis to be joined along, nor have those that differ along none """
  ps, vs = [], []
  for i in range(2):
    v = cx.reals('v%d' % i, (n,), -50., 50.)
    w = cx.reals('w%d' % i, (2,), -50., 50.)
    ps.append(pb.PD('x,y', {'x': v, 'y': w}, dims={'x': 0, 'y': 1}, prob=cx.reals('p%d' % i, (n, 2), 0., 1.)))
    vs.append((v, w))
  j, k = cx.choose(n), cx.choose(2)
  cx.assume(abs(vs[1][0][j] - vs[0][0][j]) > 0.5)
  cx.assume(abs(vs[1][1][k] - vs[0][1][k]) > 0.5)
  cx.raises(lambda: pb.summate(*ps), 'joining ranges that differ along two axes', (AssertionError, ValueError, KeyError, IndexError))


def join_reject(cx, pb, how):
  """ distributions that cannot be aggregated are refused rather than mangled """
  one = [('x', 'm', 2, 0), ('y', 'm', 2, 1)]
  a, _ = mkpd(cx, pb, one, prefix='a')
  E = (AssertionError, ValueError, KeyError, IndexError)
  if how == 'scale':
    b, _ = mkpd(cx, pb, one, 'log', prefix='b', vals={'x': valsfor('x', 6)[3:5]})
  elif how == 'marg':
    b, _ = mkpd(cx, pb, [('x', 'm', 2, 0), ('z', 'm', 2, 1)], prefix='b')
  elif how == 'cond':
    b, _ = mkpd(cx, pb, [('x', 'm', 2, 0), ('y', 'c', 2, 1)], prefix='b')
  elif how == 'two':
    b, _ = mkpd(cx, pb, one, prefix='b', vals={'x': valsfor('x', 6)[3:5], 'y': valsfor('y', 6)[3:5]})
  elif how == 'none':
    b, _ = mkpd(cx, pb, one, prefix='b')
  elif how == 'singleton':
    st = [('x', 'm', 2, 0), ('s', 'm', None, None)]
    a, _ = mkpd(cx, pb, st, prefix='a')
    b, _ = mkpd(cx, pb, st, prefix='b', vals={'x': valsfor('x', 6)[3:5], 's': -3.})
  cx.raises(lambda: pb.summate(a, b), 'aggregating distributions differing in ' + how, E)


for sc in SCALES:
  for n in (1, 2, 3):
    add('C11', 'singles_xy_{}_{}'.format(n, sc), singles, keys=(['x', 'y'], []), n=n, scale=sc)
  add('C11', 'singles_cond_' + sc, singles, keys=(['y'], ['x']), n=3, scale=sc)
  add('C11', 'singles_add_' + sc, singles, keys=(['x'], ['c']), n=2, scale=sc, method='add')
add('C11', 'singles_one', singles, keys=(['x'], []), n=4)
add('C11', 'singles_set', singles, keys=(['x', 'y'], []), n=3, sets=('y',))
add('C11', 'singles_big', singles, keys=(['x', 'y', 'z'], ['c', 'd']), n=6)
for s, k, sz in (('one', 'x', (2, 2)), ('one', 'x', (2, 3, 1)), ('x2y3', 'x', (1, 2)), ('x2y3', 'y', (2, 2)),
                 ('xy_swap', 'x', (2, 1)), ('xy_swap', 'y', (1, 2)), ('xyz', 'y', (2, 3)),
                 ('xyz_rot', 'z', (1, 2)), ('xyz_rot', 'x', (2, 1, 3)), ('xys', 'y', (2, 2)), ('xy_c', 'c', (1, 1)),
                 ('xy_c', 'x', (2, 2)), ('xyz_mix', 'x', (1, 2)), ('xyz_mix', 'z', (2, 2)),
                 ('sharedlast', 'x', (1, 2)), ('sharedc', 'x', (2, 2)), ('sharedlast', 'z', (2, 1))):
  for sc in ('lin', 'logoff'):
    add('C11', 'joined_{}_{}_{}_{}'.format(s, k, ''.join(map(str, sz)), sc), joined, struct=s, key=k,
        sizes=sz, scale=sc)
SA['pairc'] = [('x', 'm', 2, 0), ('y', 'c', 2, 1), ('z', 'c', 2, 1)]
SA['pairm'] = [('z', 'm', 2, 1), ('x', 'm', 2, 0), ('y', 'c', 2, 1)]
for s in ('pairc', 'pairm'):
  for k in 'yx':
    add('C11', 'joined_{}_{}'.format(s, k), joined, struct=s, key=k, sizes=(2, 1), scale='log')
add('C11', 'joined_add', joined, struct='xyz_rot', key='y', sizes=(2, 1), method='add')
for a in (0, 1):
  add('C11', 'any_{}'.format(a), join_any, axis=a)
  add('C11', 'any3_{}'.format(a), join_any, axis=a, n=3)
add('C11', 'none_2', join_none, n=2)
add('C11', 'none_3', join_none)
for how in ('scale', 'marg', 'cond', 'two', 'none', 'singleton'):
  add('C11', 'reject_' + how, join_reject, how=how)


# ------------------------------------------------------------------------ C12
def remarg(cx, pb, struct, edges, sizes_new, scale='lin', kw=False, sing=False):
  """ each probability goes to the bin its new values fall into; the rest is unchanged """
  st = SA[struct]
  pd, P = mkpd(cx, pb, st, scale)
  shp = shape_of(st)
  new = list(edges)
  E = {k: np.array(edges[k], dtype=float) for k in new}
  V = {k: cx.reals('v' + k, shp, -3., 3.) for k in new}
  dv = collections.OrderedDict((k, E[k]) for k in new)
  if sing:
    dv['s9'] = 4.5
  dist = pb.Distribution(','.join(dv), dv)
  before = np.array(pd.prob, copy=True)
  if kw:
    res = pd.remarginalise(dist, **V)
  else:
    res = pd.remarginalise(dist, dict(V))
  conds = [k for k, t, _, _ in st if t == 'c']
  names(cx, res, new + (['s9'] if sing else []), conds)
  samescale(cx, res.pscale, pd.pscale)
  cx.same({k: res.dims[k] for k in new}, {k: i for i, k in enumerate(new)}, 'dimensions')
  for k in new:
    cx.same([float(x) for x in np.ravel(res[k])], [float(x) for x in E[k]], 'values of ' + k)
  for k in conds:
    cx.same([float(x) for x in np.ravel(res[k])], [float(x) for x in np.ravel(pd[k])], 'values of ' + k)
  P = np.asarray(P, dtype=object)
  want = {}
  for i in np.ndindex(*shp):
    cell = []
    for k in new:
      j = 0
      while j + 1 < len(E[k]) and V[k][i] >= float(E[k][j + 1]):
        j += 1
      cell.append((k, float(E[k][j])))
    for k, t, s, d in st:
      if t == 'c':
        cell.append((k, float(valsfor(k, s)) if d is None else float(valsfor(k, s)[i[d]])))
    if sing:
      cell.append(('s9', 4.5))
    c = frozenset(cell)
    want[c] = want[c] + P[i] if c in want else P[i]
  got = table(cx, res)
  for a, p in got.items():
    w = want.pop(a, None)
    if w is None:
      cx.le(p, 1e-9, 'mass in an empty bin')
    else:
      cx.eq(p, w, 'mass in bin ' + str(sorted(map(str, a))))
  cx.same(len(want), 0, 'bins lost')
  for i in np.ndindex(*shp):
    cx.eq(pd.prob[i], before[i], 'operand unchanged')


def remarg_reject(cx, pb):
  pd, P = mkpd(cx, pb, SA['x2y3'])
  dist = pb.Distribution('u', {'u': np.array([0., 1.])})
  E = (AssertionError, ValueError, KeyError, TypeError)
  cx.raises(lambda: pd.remarginalise(dist, {'u': np.zeros((3, 2))}), 'values of another shape', E)
  cx.raises(lambda: pd.remarginalise({'u': 1}, {'u': np.zeros((2, 3))}), 'not a distribution', E)
  pd, P = mkpd(cx, pb, SA['allsing'])
  cx.raises(lambda: pd.remarginalise(dist, {'u': np.zeros((1,))}), 'a single value', E)


R2 = {'u': (0., 1.)}
R3 = {'u': (-1., 0., 1.)}
R22 = {'u': (0., 1.), 'w': (-1., 1.)}
SA['x2'] = [('x', 'm', 2, 0)]
SA['x2y2'] = [('x', 'm', 2, 0), ('y', 'm', 2, 1)]
SA['x2c2'] = [('x', 'm', 2, 0), ('c', 'c', 2, 1)]
SA['c2x2'] = [('c', 'c', 2, 0), ('x', 'm', 2, 1)]
SA['xsc2'] = [('x', 'm', 2, 0), ('c', 'c', None, None)]
SA['x3c2'] = [('x', 'm', 2, 1), ('y', 'm', 1, 2), ('c', 'c', 2, 0)]
for s, e, n in (('one', R3, 'R3'), ('x2', R3, 'R3'), ('x2', R22, 'R22'), ('x2y2', R2, 'R2'), ('x2c2', R2, 'R2'), ('c2x2', R2, 'R2'),
                ('xsc2', R22, 'R22'), ('xsc2', R3, 'R3'), ('x3c2', R2, 'R2'), ('x2y2', R3, 'R3'), ('c2x2', R22, 'R22')):
  for sc in ('lin', 'coef', 'log', 'logneg'):
    add('C12', 'remarg_{}_{}_{}'.format(s, n, sc), remarg, struct=s, edges=e, sizes_new=None, scale=sc,
        thorough=(s, n) == ('c2x2', 'R22') or ((s, n) == ('x2y2', 'R3') and sc != 'lin'))
SA['x2bc'] = [('x', 'm', 2, 0), ('b', 'c', None, None), ('c', 'c', 2, 1)]
SA['x2cb'] = [('c', 'c', 2, 0), ('x', 'm', 2, 1), ('b', 'c', 1, 2)]
SA['x2pair'] = [('x', 'm', 1, 1), ('b', 'c', 2, 0), ('c', 'c', 2, 0)]
SA['x2paird'] = [('b', 'c', 2, 1), ('x', 'm', 1, 0), ('c', 'c', 2, 1), ('d', 'c', 1, 2)]
SA['x1ba'] = [('x', 'm', 1, 0), ('b', 'c', 2, 2), ('a', 'c', 2, 1)]
SA['bx1a'] = [('b', 'c', 2, 2), ('x', 'm', 1, 1), ('a', 'c', 2, 0)]
for s in ('x2bc', 'x2cb', 'x2pair', 'x2paird', 'x1ba', 'bx1a'):
  for sc in ('lin', 'log'):
    add('C12', 'remarg_{}_R2_{}'.format(s, sc), remarg, struct=s, edges=R2, sizes_new=None, scale=sc)
add('C12', 'remarg_kw', remarg, struct='x2', edges=R22, sizes_new=None, kw=True)
add('C12', 'remarg_sing', remarg, struct='x2', edges=R3, sizes_new=None, sing=True)
add('C12', 'remarg_reject', remarg_reject)


# ------------------------------------------------------------------------ C21
def iid(cx, pb, struct, keys, scale='lin', zeros=False):
  """ the product along independent samples is the product of their probabilities """
  st = SA[struct]
  pd, P = mkpd(cx, pb, st, scale, zeros=(0, 4) if zeros else ())
  before = np.array(pd.prob, copy=True)
  res = pd.prod(keys[0] if len(keys) == 1 else list(keys))
  names(cx, res, [k for k, t, _, _ in st if t == 'm'], [k for k, t, _, _ in st if t == 'c'])
  axes = {d for k, _, _, d in st if k in keys}
  want = {}
  P = np.asarray(P, dtype=object)
  for i in np.ndindex(*P.shape):
    c = []
    for k, _, s, d in st:
      if k in keys:
        c.append((k, ('set', s)))
      else:
        c.append((k, vkey(valsfor(k, s) if d is None else valsfor(k, s)[i[d]])))
    c = frozenset(c)
    want[c] = want[c] * P[i] if c in want else P[i]
  eqtable(cx, table(cx, res), want, 'product of samples', atol=1e-12)
  for i in np.ndindex(*P.shape):
    cx.eq(pd.prob[i], before[i], 'operand unchanged')


def iid_reject(cx, pb):
  pd, P = mkpd(cx, pb, SA['xy_cs'])
  E = (AssertionError, ValueError, KeyError)
  cx.raises(lambda: pd.prod('c'), 'product along a conditional', E)
  cx.raises(lambda: pd.prod('nokey'), 'product along an unknown variable', E)
  pd, P = mkpd(cx, pb, SA['xs'])
  cx.raises(lambda: pd.prod('s'), 'product along a single value', E)


def counted(cx, pb, ns, scales, cond, method='product'):
  """ products of sets of n and m samples hold n + m samples with multiplied probabilities """
  pds, Ps = [], []
  for i, (n, sc) in enumerate(zip(ns, scales)):
    st = [('c', 'c', 3, 0)] if cond == 'array' else []
    od = collections.OrderedDict([('x', {n})])
    dims = {'x': None}
    name = 'x'
    if cond == 'array':
      od['c'] = valsfor('c', 3)
      dims['c'] = 0
      name = 'x|c'
      P = cx.probs('p%d' % i, (3,))
    else:
      if cond == 'scalar':
        od['c'] = 3.5
        dims['c'] = None
        name = 'x|c'
      P = cx.prob('p%d' % i)
    pds.append(pb.PD(name, od, dims=dims, prob=cx.stored(P, SCALES[sc]), pscale=SCALES[sc]))
    Ps.append(P)
  if method == 'mul':
    res = pds[0] * pds[1]
  else:
    res = pb.product(*pds)
  names(cx, res, ['x'], ['c'] if cond else [])
  cx.same(res['x'], {sum(ns)}, 'number of samples')
  if cond:
    cx.same([float(x) for x in np.ravel(res['c'])],
            [float(x) for x in np.ravel(valsfor('c', 3) if cond == 'array' else 3.5)], 'conditional values')
  w = Ps[0]
  for P in Ps[1:]:
    w = w * P
  cx.eq(np.asarray(cx.linear(res.prob, res.pscale), dtype=object), np.asarray(w, dtype=object), 'probability')


def counted_mismatch(cx, pb, how):
  """ sets conditioned on different values are not multiplied """
  E = (AssertionError, ValueError, KeyError)
  def mk(i, c, p):
    arr = isinstance(c, np.ndarray)
    return pb.PD('x|c', collections.OrderedDict([('x', {2 + i}), ('c', c)]), dims={'x': None, 'c': 0 if arr else None},
                 prob=p, pscale=1.)
  if how == 'scalar':
    a, b = mk(0, 1.5, cx.prob('a')), mk(1, 2.5, cx.prob('b'))
  elif how == 'array':
    a, b = mk(0, np.array([1., 2.]), cx.probs('a', (2,))), mk(1, np.array([1., 3.]), cx.probs('b', (2,)))
  elif how == 'size':
    a, b = mk(0, np.array([1., 2.]), cx.probs('a', (2,))), mk(1, np.array([1., 2., 3.]), cx.probs('b', (3,)))
  cx.raises(lambda: pb.product(a, b), 'different conditions', E)


for s, kss in (('one', ('x',)), ('x2y3', ('x', 'y', 'xy')), ('xy_swap', ('x', 'y')), ('xyz', ('y', 'xz')),
               ('xyz_rot', ('x', 'y', 'z', 'xy', 'yz')), ('xy_c', ('x', 'xy')), ('xy_c_front', ('x', 'y')),
               ('xys', ('x',)), ('xyz_mix', ('x', 'z')), ('sharedlast', ('xy', 'z'))):
  for ks in kss:
    if s == 'x2y3' and ks == 'xy':
      continue
    for sc in SCALES:
      add('C21', 'iid_{}_{}_{}'.format(s, ks, sc), iid, struct=s, keys=list(ks), scale=sc,
          thorough=sc in ('logoff',) and s not in ('one', 'xyz_rot'))
add('C21', 'iid_zeros', iid, struct='x2y3', keys=['y'], zeros=True)
add('C21', 'iid_reject', iid_reject)
for c in (None, 'scalar', 'array'):
  for ns, scs in (((2, 3), ('lin', 'lin')), ((2, 3), ('log', 'log')), ((2, 3), ('lin', 'log')), ((2, 3), ('coef', 'lin')),
                  ((1, 4), ('logoff', 'logneg')), ((2, 3, 1), ('lin', 'lin', 'lin')), ((2, 3, 5), ('log', 'coef', 'lin'))):
    add('C21', 'counted_{}_{}_{}'.format(c, ''.join(map(str, ns)), ''.join(x[0:4] for x in scs)), counted, ns=ns,
        scales=scs, cond=c)
add('C21', 'counted_mul', counted, ns=(2, 3), scales=('lin', 'lin'), cond='array', method='mul')
for h in ('scalar', 'array', 'size'):
  add('C21', 'counted_mismatch_' + h, counted_mismatch, how=h)
