""" C32: frequency tables of boolean observations and their evaluation """
from checks.common import *
from symx.registry import add


def boolean(cx, name):
  """ an arbitrary boolean """
  return bool(cx.int(name, 0, 1) == 1)


def observations(cx, rows, cols):
  return np.array([[boolean(cx, 'o%d%d' % (r, c)) for c in range(cols)] for r in range(rows)]).reshape(rows, cols)


def tally(obs):
  """ counts of patterns """
  n = collections.Counter(tuple(bool(e) for e in row) for row in obs.tolist())
  return n


def counts(cx, pb, rows=2, cols=2):
  obs = observations(cx, rows, cols)
  held = obs.copy()
  n = pb.bool_perm_freq(obs)
  t = tally(held)
  cx.same(np.shape(n), (2,) * cols, 'one dimension per column')
  for pat in itertools.product([False, True], repeat=cols):
    cx.eq(n[tuple(int(e) for e in pat)], t[pat], 'count')
  cx.same(obs.tolist(), held.tolist(), 'observations unchanged')


def freqs(cx, pb, rows=2, cols=2, base='none'):
  """ frequencies of labelled columns, with a baseline added to the counts """
  obs = observations(cx, rows, cols)
  b = {'none': None, 'one': 1, 'any': None}[base]
  if base == 'any':
    b = cx.real('b', 0., 10.)
  labels = list('xyzw'[:cols])
  f, r = pb.bool_perm_freq(obs, labels, **({} if b is None else {'base_freq': b}))
  b = b or 0 if base != 'any' else b
  t = tally(obs)
  tot = rows + b * 2 ** cols
  total = 0.
  for pat in itertools.product([False, True], repeat=cols):
    idx = tuple(int(e) for e in pat)
    e = (t[pat] + b) / tot
    cx.eq(r[idx], e, 'frequency')
    cx.eq(f(dict(zip(labels, pat)), dims={k: None for k in labels}), e, 'evaluated frequency')
    total = total + r[idx]
  cx.eq(total, 1., 'frequencies sum to one')


def evaluated(cx, pb, rows=2, cols=2, how='dict', order=None):
  """ any mixture of given and free labels, in any order of dimensions """
  obs = observations(cx, rows, cols)
  labels = list('xyzw'[:cols])
  f, r = pb.bool_perm_freq(obs, labels)
  t = tally(obs)
  keys = list(order or labels)
  free = [boolean(cx, 'free' + k) for k in keys]
  at = {k: boolean(cx, 'at' + k) for k in keys}
  dims, vals, nd = collections.OrderedDict(), collections.OrderedDict(), sum(free)
  run = 0
  for k, w in zip(keys, free):
    if w:
      dims[k] = run
      shp = [1] * nd
      shp[run] = 2
      vals[k] = np.array([False, True]).reshape(shp)
      run += 1
    else:
      dims[k], vals[k] = None, at[k]
  p = f(vals, dims=dims) if how == 'dict' else f(dims=dims, **vals)
  cx.same(np.shape(p), (2,) * nd, 'shape')
  for pat in itertools.product([False, True], repeat=nd):
    it = iter(pat)
    full = {k: (next(it) if w else at[k]) for k, w in zip(keys, free)}
    e = t[tuple(full[k] for k in labels)] / rows
    cx.eq(p[tuple(int(q) for q in pat)] if nd else p, e, 'evaluated frequency')


def field(cx, pb, rows=3, labels='zx', order='zx', cond=True, base=0):
  """ the frequencies as the probability of a dependence, or jointly """
  obs = observations(cx, rows, 2)
  f, r = pb.bool_perm_freq(obs, list(labels))
  t = tally(obs)
  rv = {k: pb.RV(k, vtype=bool) for k in 'xz'}
  sd = (rv[order[0]] | rv[order[1]]) if cond else pb.RF(rv[order[0]], rv[order[1]])
  sd.set_prob(f, passdims=True)
  cx.true(sd.passdims, 'dimensions passed')
  freq = lambda v: t[tuple(v[k] for k in labels)] / float(rows)
  p = sd()
  for i, a in enumerate([False, True]):
    for j, b in enumerate([False, True]):
      v = {order[0]: a, order[1]: b}
      at = [0, 0]
      at[p.dims[order[0]]] = i
      at[p.dims[order[1]]] = j
      av = {k: np.ravel(p[k]).tolist().index(v[k]) for k in v}
      cx.eq(p.prob[tuple(av[k] for k in sorted(av, key=lambda q: p.dims[q]))], freq(v), 'joint frequency')
      q = sd(v)
      cx.eq(q.prob, freq(v), 'frequency at values')
  for k in order:
    o = order[1 - order.index(k)]
    q = sd({k: True})
    for i, b in enumerate(np.ravel(q[o]).tolist()):
      cx.eq(np.ravel(q.prob)[i], freq({k: True, o: b}), 'frequency at one value')


def sliced(cx, pb, shape=(2, 3), given=(False, True), order=None, source=None, hit=None, guess=False, scal=False):
  """ arbitrary probabilities sliced by arbitrary values: given keys are scalar """
  from probayes.rf_utils import slice_by_keyvals
  keys = list('abc'[:len(shape)])
  P = cx.probs('p', shape)
  V, vals = {}, collections.OrderedDict()
  for d, (k, n) in enumerate(zip(keys, shape)):
    V[k] = cx.increasing('v' + k, n)
    shp = [1] * len(shape)
    shp[d] = n
    vals[k] = np.reshape(V[k], shp)
  names = [keys[i] for i in (order or range(len(keys)))]
  spec, dims, run = collections.OrderedDict(), collections.OrderedDict(), 0
  nd = sum(not given[keys.index(k)] for k in names)
  at = {}
  for k in names:
    if given[keys.index(k)]:
      if hit:
        at[k] = cx.choose(len(V[k]))
        spec[k] = V[k][at[k]]
      else:
        spec[k] = cx.real('s' + k, -6., 6.)
        at[k] = None
        for i, e in enumerate(V[k]):
          if bool(spec[k] == e):
            at[k] = i
      dims[k] = None
    else:
      shp = [1] * nd
      shp[run] = len(V[k])
      spec[k] = np.reshape(V[k], shp)
      dims[k] = run
      run += 1
  if source:                          # scalar key of the probabilities
    vals['s'] = cx.real('s', -5., 5.)
    spec['s'] = vals['s'] if source == 'match' else vals['s'] + 1.
    dims['s'] = None
  vdims = collections.OrderedDict((k, keys.index(k) if k in keys else None) for k in vals)
  r = slice_by_keyvals(spec, vals, P) if guess else slice_by_keyvals(spec, vals, P, vdims, dims)
  miss = any(v is None for v in at.values()) or source == 'other'
  free = [k for k in names if not given[keys.index(k)]]
  if miss:
    cx.same(int(np.size(r)), 0, 'nothing at values that are absent')
    return
  cx.same(np.shape(r), tuple(len(V[k]) for k in free), 'shape')
  for idx in itertools.product(*[range(len(V[k])) for k in free]):
    full = dict(at)
    full.update(zip(free, idx))
    e = P[tuple(full[k] for k in keys)]
    cx.eq(r[idx] if free else r, e, 'sliced probability')


def refused(cx, pb):
  from probayes.rf_utils import slice_by_keyvals
  P = cx.probs('p', (2, 2))
  a, b = cx.increasing('a', 2), cx.increasing('b', 2)
  vals = collections.OrderedDict(a=np.reshape(a, (2, 1)), b=np.reshape(b, (1, 2)))
  dims = collections.OrderedDict(a=0, b=1)
  cx.raises(lambda: slice_by_keyvals({'a': a[0]}, vals, P, dims, {'a': None}), 'missing key')
  cx.raises(lambda: slice_by_keyvals({'a': a[0], 'c': b[0]}, vals, P, dims, {'a': None, 'c': None}), 'other key')
  other = np.reshape([e + 0.5 for e in a], (2, 1))
  cx.raises(lambda: slice_by_keyvals({'a': other, 'b': b[0]}, vals, P, dims, {'a': 0, 'b': None}), 'other values')


def frefused(cx, pb):
  obs = observations(cx, 2, 2)
  cx.raises(lambda: pb.bool_perm_freq(obs.astype(int)), 'not boolean')
  cx.raises(lambda: pb.bool_perm_freq(obs[0]), 'one dimensional')
  cx.raises(lambda: pb.bool_perm_freq(obs, ['x']), 'too few labels')
  f, _ = pb.bool_perm_freq(obs, ['x', 'y'])
  cx.raises(lambda: f({'x': True, 'y': True}), 'no dimensions')
  cx.raises(lambda: f({'x': True, 'y': True}, z=1, dims={'x': None, 'y': None}), 'unknown keyword')
  cx.raises(lambda: f({'x': True}, dims={'x': None}), 'missing label')


def b2i(cx, pb, n=6, rows=None):
  from probayes.likelihoods import bin_to_int
  def row(r):
    return [cx.int('b%d%d' % (r, i), 0, 1) for i in range(n)]
  data = row(0) if rows is None else [row(r) for r in range(rows)]
  res = bin_to_int(data)
  for r, d in enumerate([data] if rows is None else data):
    e = 0
    for b in d:
      e = 2 * e + b
    cx.eq(res if rows is None else res[r], e, 'value of the digits')


def i2b(cx, pb, top=9, pad=0, how='scalar'):
  from probayes.likelihoods import int_to_bin, bin_to_int
  n = [int(cx.int('n%d' % i, 0, top)) for i in range(1 if how == 'scalar' else 2)]
  res = int_to_bin(n[0] if how == 'scalar' else (np.array(n) if how == 'array' else n), *([pad] if pad else []))
  width = max([pad] + [max(1, e.bit_length()) for e in n])
  rows = [res] if how == 'scalar' else res
  cx.same(len(rows), len(n), 'one row each')
  for e, row in zip(n, rows):
    cx.same([bool(b) for b in row], [bool((e >> i) & 1) for i in range(width)[::-1]], 'digits')
  back = bin_to_int(res.astype(int))
  for i, e in enumerate(n):
    cx.eq(back if how == 'scalar' else back[i], e, 'integer recovered')


P = 'C32'
for rows, cols in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3)):
  add(P, 'counts_%d_by_%d' % (rows, cols), counts, rows=rows, cols=cols)
add(P, 'counts_3_by_2', counts, rows=3, cols=2)
add(P, 'counts_2_by_3', counts, thorough=True, rows=2, cols=3)
for base in ('none', 'one', 'any'):
  add(P, 'freqs_2_by_2_' + base, freqs, rows=2, cols=2, base=base)
  add(P, 'freqs_3_by_1_' + base, freqs, rows=3, cols=1, base=base)
  add(P, 'freqs_1_by_3_' + base, freqs, rows=1, cols=3, base=base)
  add(P, 'freqs_3_by_2_' + base, freqs, thorough=True, rows=3, cols=2, base=base)
for how in ('dict', 'kwds'):
  add(P, 'evaluated_1_by_2_' + how, evaluated, rows=1, cols=2, how=how)
  add(P, 'evaluated_2_by_1_' + how, evaluated, rows=2, cols=1, how=how)
  add(P, 'evaluated_reversed_' + how, evaluated, rows=1, cols=2, how=how, order='yx')
add(P, 'evaluated_1_by_3', evaluated, rows=1, cols=3)
add(P, 'evaluated_rotated', evaluated, rows=1, cols=3, order='zxy')
add(P, 'evaluated_2_by_2', evaluated, thorough=True, rows=2, cols=2)
for order in ('zx', 'xz'):
  for cond in (True, False):
    add(P, 'field_%s_%s' % (order, 'dependent' if cond else 'joint'), field, rows=2, labels='zx', order=order, cond=cond)
add(P, 'field_3_rows', field, thorough=True, rows=3)
for given in itertools.product([False, True], repeat=2):
  nm = ''.join('g' if g else 'f' for g in given)
  add(P, 'sliced_' + nm, sliced, shape=(2, 3), given=given)
  add(P, 'sliced_reversed_' + nm, sliced, shape=(2, 3), given=given, order=(1, 0))
  add(P, 'sliced_guess_' + nm, sliced, shape=(2, 3), given=given, guess=True, hit=True)
  for source in ('match', 'other'):
    add(P, 'sliced_%s_%s' % (source, nm), sliced, shape=(2, 2), given=given, source=source, hit=True)
for given in itertools.product([False, True], repeat=3):
  nm = ''.join('g' if g else 'f' for g in given)
  add(P, 'sliced_three_' + nm, sliced, thorough=sum(given) > 1, shape=(2, 2, 2), given=given, hit=True)
  add(P, 'sliced_rotated_' + nm, sliced, thorough=sum(given) > 1, shape=(2, 3, 2), given=given, order=(2, 0, 1), hit=True)
add(P, 'sliced_refused', refused)
add(P, 'refused', frefused)
add(P, 'digits_to_integer', b2i, n=8)
add(P, 'digits_to_integers', b2i, n=5, rows=3)
add(P, 'integer_to_digits', i2b, top=12)
add(P, 'integer_to_digits_padded', i2b, top=12, pad=3)
for how in ('list', 'array'):
  add(P, 'integers_to_digits_' + how, i2b, top=5, how=how)
  add(P, 'integers_to_digits_padded_' + how, i2b, top=5, pad=2, how=how)
