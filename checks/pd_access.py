""" C09: slicing by value; C10: reordering, renaming, rescaling, lookup """
from checks.common import *
from checks.pd_cond import S as SC
from symx.registry import add

S = dict(SC)
S.update({
    'xy_swap': [('x', 'm', 2, 1), ('y', 'm', 3, 0)],
    'xyz_mix': [('x', 'm', 2, 2), ('s', 'm', None, None), ('y', 'c', 3, 0), ('z', 'm', 2, 1)],
    'sharedc': [('x', 'm', 3, 0), ('y', 'c', 3, 0), ('z', 'm', 2, 1)],
    'apart': [('x', 'm', 3, 0), ('y', 'm', 2, 1), ('z', 'm', 3, 0)],
    'one_y': [('y', 'm', 1, 0), ('x', 'm', 3, 1)],
    'sharedlast': [('z', 'm', 2, 0), ('x', 'm', 3, 1), ('y', 'm', 3, 1)],
    'allsing': [('x', 'm', None, None), ('y', 'c', None, None)],
})


def slicing(cx, pb, struct, at, scale='lin', keepdims=False):
  """ at: {key: index}; the slice holds exactly the matching entries """
  st = S[struct]
  pd, P = mkpd(cx, pb, st, scale)
  before = table(cx, pd, 'input')
  req = {k: float(valsfor(k, [s for n, _, s, _ in st if n == k][0])[i]) for k, i in at.items()}
  res = pd(dict(req), keepdims=True) if keepdims else pd(dict(req))
  names(cx, res, [k for k, t, _, _ in st if t == 'm'], [k for k, t, _, _ in st if t == 'c'])
  samescale(cx, res.pscale, pd.pscale)
  want = {a: p for a, p in before.items() if all((k, v) in a for k, v in req.items())}
  eqtable(cx, table(cx, res), want, 'slice')
  for k in req:
    cx.same(res.dims[k] is None, not keepdims, 'dimension of ' + k)
  eqtable(cx, table(cx, pd, 'operand'), before, 'operand unchanged')


def duplicates(cx, pb, keepdims=False, axis=0, scale='lin'):
  """ every entry carrying the value is kept, in order """
  n = 3
  v = [cx.real('v%d' % i, -5, 5) for i in range(n)]
  val = cx.real('val', -5, 5)
  V = cx.asarray(np.array(v, dtype=object))
  st = [('x', 'm', n, axis), ('y', 'm', 2, 1 - axis)]
  pd, P = mkpd(cx, pb, st, scale, vals={'x': V})
  res = pd({'x': val}, keepdims=keepdims)
  P = np.asarray(P, dtype=object)
  idx = [i for i in range(n) if v[i] == val]
  want = P[idx, :] if axis == 0 else P[:, idx]
  got = np.asarray(cx.linear(res.prob, res.pscale), dtype=object)
  if len(idx) == 1 and not keepdims:
    want = np.take(want, 0, axis=axis)
    cx.eq(res['x'], val, 'value')
  else:
    cx.same(np.size(res['x']), len(idx), 'number of values')
    for i in range(len(idx)):
      cx.eq(np.ravel(res['x'])[i], val, 'value')
  cx.eq(got, want, 'probabilities')


def missing(cx, pb, scale='lin'):
  """ a value not present selects nothing """
  pd, P = mkpd(cx, pb, S['x2y3'], scale)
  for k, sh in (('x', (0, 3)), ('y', (2, 0))):
    res = pd({k: -12345.})
    cx.same(tuple(np.shape(res.prob)), sh, 'shape of an empty slice')


def unknown(cx, pb):
  pd, P = mkpd(cx, pb, S['x2y3'])
  cx.raises(lambda: pd({'nokey': 1.}), 'unknown variable', (AssertionError, KeyError, ValueError))
  cx.raises(lambda: pd({'x': np.array([1., 2.])}), 'array-valued slice', (AssertionError, ValueError))


def margcond(cx, pb, struct):
  """ 'marg' and 'cond' return the respective values """
  st = S[struct]
  pd, P = mkpd(cx, pb, st)
  for w, t in (('marg', 'm'), ('cond', 'c')):
    ks = [(k, s, d) for k, c, s, d in st if c == t]
    if not ks:
      continue
    r = pd(w)
    shared = len({d for _, _, d in ks if d is not None}) < len([1 for _, _, d in ks if d is not None])
    if not shared:
      cx.same(set(r.keys()), {k for k, _, _ in ks}, w + ' keys')
      for k, s, _ in ks:
        cx.same([float(x) for x in np.ravel(r[k])], [float(x) for x in np.ravel(valsfor(k, s))],
                w + ' values')


for s, ats in (('x2y3', ({'x': 0}, {'x': 1}, {'y': 2}, {'x': 1, 'y': 0})),
               ('xy_swap', ({'x': 0}, {'y': 2}, {'x': 1, 'y': 0})),
               ('xyz', ({'x': 1}, {'y': 0}, {'z': 2}, {'x': 0, 'z': 1}, {'y': 1, 'z': 0}, {'x': 0, 'y': 1, 'z': 2})),
               ('xyz_rot', ({'x': 1}, {'y': 2}, {'z': 1}, {'x': 0, 'y': 1}, {'y': 1, 'z': 0})),
               ('xy_c', ({'c': 1}, {'x': 0}, {'c': 0, 'y': 2})),
               ('xy_c_front', ({'c': 1}, {'x': 0}, {'c': 0, 'y': 2})),
               ('xyz_mix', ({'y': 1}, {'x': 0}, {'z': 1}, {'x': 1, 'y': 2})),
               ('xys', ({'x': 0}, {'y': 1}, {'x': 1, 'y': 0})),
               ('sharedc', ({'x': 1}, {'z': 0}, {'y': 2}, {'x': 2, 'y': 2}, {'z': 1, 'x': 0})),
               ('sharedlast', ({'x': 1}, {'z': 0}, {'y': 2})),
               ('one', ({'x': 1},))):
  for n, at in enumerate(ats):
    for sc in ('lin', 'log'):
      for kd in (False, True):
        add('C09', 'slice_{}_{}_{}{}'.format(s, ''.join(k + str(i) for k, i in at.items()), sc,
                                             '_keep' if kd else ''),
            slicing, struct=s, at=at, scale=sc, keepdims=kd, thorough=(sc == 'log' and kd))
for kd in (False, True):
  for ax in (0, 1):
    add('C09', 'duplicates_axis{}{}'.format(ax, '_keep' if kd else ''), duplicates, keepdims=kd, axis=ax)
add('C09', 'duplicates_log', duplicates, scale='log')
add('C09', 'missing', missing)
add('C09', 'missing_log', missing, scale='log')
add('C09', 'unknown', unknown)
for s in ('x2y3', 'xy_c', 'xyz_mix', 'allsing', 'xy_c_front'):
  add('C09', 'margcond_' + s, margcond, struct=s)


# ------------------------------------------------------------------------ C10
def symtable(cx, pd, label='result'):
  """ list of (assignment dict, linear probability) for symbolic values """
  lin = np.asarray(cx.linear(pd.prob, pd.pscale), dtype=object)
  out = []
  for i in np.ndindex(*lin.shape):
    out.append(({k: (pd[k] if pd.dims[k] is None else np.ravel(pd[k])[i[pd.dims[k]]])
                 for k in pd.keys()}, lin[i]))
  return out


def sorting(cx, pb, struct, key, scale='lin'):
  st = S[struct]
  n, d = [(s, dd) for k, _, s, dd in st if k == key][0]
  v = cx.reals('v', (n,), -5, 5)
  cx.distinct(v)
  pd, P = mkpd(cx, pb, st, scale, vals={key: v})
  res = pd.sorted(key)
  names(cx, res, [k for k, t, _, _ in st if t == 'm'], [k for k, t, _, _ in st if t == 'c'])
  samescale(cx, res.pscale, pd.pscale)
  w = np.ravel(res[key])
  for i in range(n - 1):
    cx.le(w[i], w[i + 1], 'ascending')
  # the permutation that sorts (values are distinct)
  perm = sorted(range(n), key=cmpkey(v))
  P = np.asarray(P, dtype=object)
  cx.eq(w, v[perm], 'values')
  cx.eq(np.asarray(cx.linear(res.prob, res.pscale), dtype=object), np.take(P, perm, axis=d), 'probabilities')
  for k, _, s, dd in st:
    if k != key:
      b = np.ravel(valsfor(k, s))
      cx.same([float(x) for x in np.ravel(res[k])],
              [float(x) for x in (b[perm] if dd == d and s is not None else b)], 'values of ' + k)


def cmpkey(v):
  import functools
  return functools.cmp_to_key(lambda a, b: -1 if v[a] < v[b] else 1)


def sort_singleton(cx, pb):
  pd, P = mkpd(cx, pb, S['xs'])
  before = table(cx, pd)
  eqtable(cx, table(cx, pd.sorted('s')), before, 'unchanged')


def redim(cx, pb, struct, new, scale='lin', scalars=True, order=None):
  st = S[struct]
  pd, P = mkpd(cx, pb, st, scale)
  before = table(cx, pd, 'input')
  ks = order or [k for k, _, s, _ in st if scalars or s is not None]
  dims = collections.OrderedDict((k, new.get(k)) for k in ks)
  res = pd.redim(dims)
  cx.same(list(res.keys())[:len(ks)], ks, 'order of variables')
  names(cx, res, [k for k, t, _, _ in st if t == 'm'], [k for k, t, _, _ in st if t == 'c'])
  samescale(cx, res.pscale, pd.pscale)
  for k in dims:
    cx.same(res.dims[k], dims[k], 'dimension of ' + k)
  eqtable(cx, table(cx, res), before, 'distribution')
  eqtable(cx, table(cx, pd, 'operand'), before, 'operand unchanged')


def rekey(cx, pb, struct, keymap, scale='lin'):
  st = S[struct]
  pd, P = mkpd(cx, pb, st, scale)
  before = table(cx, pd, 'input')
  res = pd.rekey(dict(keymap))
  f = lambda k: keymap.get(k, k)
  names(cx, res, [f(k) for k, t, _, _ in st if t == 'm'], [f(k) for k, t, _, _ in st if t == 'c'])
  samescale(cx, res.pscale, pd.pscale)
  want = {frozenset((f(k), v) for k, v in a): p for a, p in before.items()}
  eqtable(cx, table(cx, res), want, 'renamed distribution')


def rekey_clash(cx, pb, struct='x2y3', keymap={'y': 'x'}, kind='PD'):
  st = S[struct]
  pd, P = mkpd(cx, pb, st)
  if kind == 'Distribution':
    pd = pb.Distribution(pd.short_name, dict(pd), dims=dict(pd.dims))
  cx.raises(lambda: pd.rekey(dict(keymap)), 'renaming onto an existing variable',
            (AssertionError, KeyError, ValueError))
  cx.same(list(pd.keys()), [k for k, _, _, _ in st], 'variables of the operand')


def rescaled(cx, pb, struct, a, b):
  st = S[struct]
  pd, P = mkpd(cx, pb, st, a)
  before = table(cx, pd, 'input')
  res = pd.rescaled(SCALES[b])
  samescale(cx, res.pscale, SCALES[b])
  eqtable(cx, table(cx, res), before, 'rescaled distribution', atol=0.)
  eqtable(cx, table(cx, pd, 'operand'), before, 'operand unchanged')
  back = res.rescaled(SCALES[a])
  eqtable(cx, table(cx, back), before, 'rescaled back', atol=0.)


def lookup(cx, pb, struct, keys, as_dist):
  st = S[struct]
  V = {k: (cx.reals('v' + k, (s,)) if s is not None else cx.real('v' + k)) for k, _, s, _ in st}
  pd, P = mkpd(cx, pb, st, vals=V)
  r = pd.lookup(list(keys), as_dist)
  dims = {k: d for k, _, _, d in st}
  if as_dist:
    cx.same(set(r.keys()), set(keys), 'variables')
    for k in keys:
      cx.eq(np.ravel(r[k]), np.ravel(V[k]), 'values of ' + k)
      cx.same(r.dims[k], dims[k], 'dimension of ' + k)
    return
  got = {}
  for k, v in r.items():
    parts = k.split(',')
    if len(parts) == 1:
      got[k] = v
    else:
      for p, w in zip(parts, v):
        got[p] = w
      cx.same(len({dims[p] for p in parts}), 1, 'grouped variables share a dimension')
  cx.same(set(got), set(keys), 'variables')
  for k in keys:
    cx.eq(np.ravel(got[k]), np.ravel(V[k]), 'values of ' + k)


def singletons(cx, pb, struct):
  """ singleton(key) tells which variables hold single values """
  st = S[struct]
  pd, P = mkpd(cx, pb, st)
  cx.same(bool(pd.singleton()), all(s is None for _, _, s, _ in st), 'singleton()')
  for i, (k, _, s, _) in enumerate(st):
    cx.same(bool(pd.singleton(k)), s is None, 'singleton({})'.format(k))
    cx.same(bool(pd.singleton(i)), s is None, 'singleton({})'.format(i))
  cx.same(pd.singleton('nokey'), None, 'singleton of an unknown key')


for s, ks in (('one', 'x'), ('x2y3', 'xy'), ('xy_swap', 'xy'), ('xy_c_front', 'xc'), ('xyz_rot', 'yz'),
              ('sharedc', 'xyz'), ('sharedlast', 'xy'), ('xs', 'x')):
  for k in ks:
    for sc in ('lin', 'logoff'):
      add('C10', 'sorted_{}_{}_{}'.format(s, k, sc), sorting, struct=s, key=k, scale=sc)
add('C10', 'sorted_singleton', sort_singleton)
for s, news in (('x2y3', ({'x': 1, 'y': 0}, {'x': 0, 'y': 1})),
                ('xyz', ({'x': 2, 'y': 0, 'z': 1}, {'x': 1, 'y': 2, 'z': 0}, {'x': 0, 'y': 2, 'z': 1},
                         {'x': 1, 'y': 0, 'z': 2})),
                ('xyz_rot', ({'x': 0, 'y': 1, 'z': 2}, {'x': 1, 'y': 0, 'z': 2})),
                ('xy_c', ({'x': 2, 'y': 1, 'c': 0}, {'x': 2, 'y': 0, 'c': 1})),
                ('xys', ({'x': 1, 'y': 0},)), ('xyz_mix', ({'x': 0, 'y': 1, 'z': 2},)),
                ('shared_yz', ({'x': 1, 'y': 0, 'z': 0},)), ('sharedlast', ({'z': 1, 'x': 0, 'y': 0},))):
  for n, new in enumerate(news):
    for sc in ('lin', 'log'):
      add('C10', 'redim_{}_{}_{}'.format(s, n, sc), redim, struct=s, new=new, scale=sc)
for s, new in (('xs', {'x': 0}), ('xys', {'x': 1, 'y': 0}), ('xy_cs', {'x': 1, 'y': 0})):
  add('C10', 'redim_{}_partial'.format(s), redim, struct=s, new={k: v for k, v in new.items()}, scalars=False)
for s, new, o in (('x2y3', {'x': 1, 'y': 0}, 'yx'), ('xyz', {'x': 2, 'y': 0, 'z': 1}, 'zxy'), ('xs', {'x': 0}, 'sx')):
  add('C10', 'redim_{}_order'.format(s), redim, struct=s, new=new, order=list(o))
add('C10', 'redim_allsing', redim, struct='allsing', new={})
for s, km in (('x2y3', {'x': 'u'}), ('x2y3', {'x': 'u', 'y': 'w'}), ('xy_c', {'c': 'd'}), ('xs', {'s': 't'}),
              ('xy_cs', {'c': 'd', 'x': 'u'}), ('shared_yz', {'y': 'w'}), ('x2y3', {'y': 'yy'}),
              ('x2y3', {'x': 'y', 'y': 'x'}), ('xy_c', {'c': 'x', 'x': 'c'}), ('xy_c', {'c': 'x', 'x': 'u'}),
              ('xs', {'s': 'x', 'x': 's'}), ('allsing', {'x': 'y', 'y': 'x'})):
  for sc in ('lin', 'logneg'):
    add('C10', 'rekey_{}_{}_{}'.format(s, ''.join(sorted(km)) + ''.join(sorted(km.values())), sc), rekey,
        struct=s, keymap=km, scale=sc)
for kd in ('PD', 'Distribution'):
  for s, km in (('x2y3', {'y': 'x'}), ('x2y3', {'x': 'y'}), ('x2y3', {'x': 'u', 'y': 'u'}), ('xs', {'s': 'x'}),
                ('xs', {'x': 's'}), ('allsing', {'x': 'y'}), ('allsing', {'y': 'x'}), ('xy_c', {'c': 'x'}),
                ('xy_c', {'x': 'c'}), ('one_y', {'x': 'y'}), ('one_y', {'y': 'x'})):
    add('C10', 'rekey_clash_{}_{}_{}'.format(s, ''.join(sorted(km)) + ''.join(km[k] for k in sorted(km)), kd),
        rekey_clash, struct=s, keymap=km, kind=kd)
for a in SCALES:
  for b in SCALES:
    add('C10', 'rescaled_{}_{}'.format(a, b), rescaled, struct='x2y3', a=a, b=b)
    add('C10', 'rescaled_singleton_{}_{}'.format(a, b), rescaled, struct='allsing', a=a, b=b)
for s, ks in (('x2y3', 'xy'), ('x2y3', 'y'), ('xyz_mix', 'sz'), ('shared_yz', 'yz'), ('shared_yz', 'xyz'),
              ('sharedc', 'yz'), ('allsing', 'xy'), ('apart', 'xyz'), ('apart', 'xy'), ('apart', 'xz')):
  for ad in (False, True):
    if not (ad and s == 'sharedc'):
      add('C10', 'lookup_{}_{}{}'.format(s, ks, '_dist' if ad else ''), lookup, struct=s, keys=list(ks), as_dist=ad)
for s in ('x2y3', 'xs', 'allsing', 'xyz_mix', 'shared_yz'):
  add('C10', 'singleton_' + s, singletons, struct=s)


# values of variables that share a dimension select the entries where all of them occur
def together(cx, pb, axis=0, keepdims=False, scale='lin', order='xy'):
  st = [('x', 'm', 3, axis), ('y', 'm', 3, axis), ('z', 'm', 2, 1 - axis)]
  X = cx.asarray(np.array([cx.real('x%d' % i, -5, 5) for i in range(3)], dtype=object))
  Y = cx.asarray(np.array([cx.real('y%d' % i, -5, 5) for i in range(3)], dtype=object))
  x, y = cx.real('x', -5, 5), cx.real('y', -5, 5)
  pd, P = mkpd(cx, pb, st, scale, vals={'x': X, 'y': Y})
  v = {'x': x, 'y': y}
  res = pd({k: v[k] for k in order}, keepdims=keepdims)
  idx = [i for i in range(3) if X[i] == x and Y[i] == y]
  P = np.asarray(P, dtype=object)
  want = np.take(P, idx, axis=axis)
  if len(idx) == 1 and not keepdims:
    want = np.take(want, 0, axis=axis)
  cx.eq(np.asarray(cx.linear(res.prob, res.pscale), dtype=object), want, 'probabilities')
  for k, w in (('x', x), ('y', y)):
    cx.same(np.size(res[k]), len(idx), 'number of values of ' + k)
    for e in np.ravel(np.asarray(res[k], dtype=object)):
      cx.eq(e, w, 'value of ' + k)
  cx.same(res.dims['x'], res.dims['y'], 'one dimension')


for a in (0, 1):
  for kd in (False, True):
    add('C09', 'together_{}{}'.format(a, '_keep' if kd else ''), together, axis=a, keepdims=kd, order='yx' if a else 'xy')
add('C09', 'together_log', together, scale='log')
