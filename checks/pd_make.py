""" C13: construction of distributions; C14: persistence """
import contextlib
import os
import shutil
import tempfile

from checks.common import *
from checks.pd_access import S
from symx.registry import add

BAD = (AssertionError, ValueError, KeyError, TypeError, IndexError)


# ------------------------------------------------------------------------ C13
def layout(cx, pb, nvar, maxdim, kind='Distribution', autodims=False):
  """ sizes and dimensions are arbitrary: either they fit together or they are refused """
  keys = 'xyz'[:nvar]
  spec = []
  for k in keys:
    c = cx.choose(1 + 3 * (1 if autodims else maxdim), 'layout of ' + k)
    if c == 0:
      spec.append((k, None, None))
    else:
      spec.append((k, 1 + (c - 1) % 3, (c - 1) // 3))
  if autodims:
    n = 0
    for i, (k, s, d) in enumerate(spec):
      if s is not None:
        spec[i] = (k, s, n)
        n += 1
  V = collections.OrderedDict((k, cx.real('v' + k) if s is None else cx.reals('v' + k, (s,)))
                              for k, s, _ in spec)
  given = collections.OrderedDict(V)
  dims = collections.OrderedDict((k, d) for k, _, d in spec)
  nd = 1 + max([d for _, _, d in spec if d is not None], default=-1)
  shape = [1] * nd
  ok = True
  seen = {}
  for k, s, d in spec:
    if d is not None:
      if d in seen and seen[d] != s:
        ok = False
      seen[d] = s
      shape[d] = s
  kw = {} if autodims else {'dims': dims}
  def make():
    if kind == 'PD':
      P = cx.probs('p', tuple(shape)) if nd else cx.prob('p')
      return pb.PD(','.join(keys), given, prob=P, **kw), P
    return pb.Distribution(','.join(keys), given, **kw), None
  if not ok:
    cx.raises(make, 'values of different sizes on one dimension', BAD)
    return
  dist, P = make()
  cx.same(list(dist.keys()), list(keys), 'variables')
  cx.same(dist.ndim, nd, 'number of dimensions')
  cx.same([int(s) for s in dist.shape], shape, 'shape')
  cx.same(int(dist.size), int(np.prod(shape)), 'size')
  cx.same({k: dist.dims[k] for k in keys}, dict(dims), 'dimensions')
  cx.same(bool(dist.issingleton), nd == 0, 'singleton')
  cx.same([bool(b) for b in dist.aresingleton], [s is None for _, s, _ in spec], 'singletons')
  for k, s, d in spec:
    if d is None:
      cx.eq(dist[k], V[k], 'value of ' + k)
    else:
      sh = [1] * nd
      sh[d] = s
      cx.same(tuple(np.shape(dist[k])), tuple(sh), 'values of {} lie along their own axis'.format(k))
      cx.eq(np.ravel(dist[k]), V[k], 'values of ' + k)
    cx.same(given[k] is V[k] and np.shape(V[k]) == (() if s is None else (s,)), True, "caller's values unchanged")
  cx.same(dict(dims), {k: d for k, _, d in spec}, "caller's dims unchanged")
  if P is not None:
    cx.eq(np.asarray(dist.prob, dtype=object), np.asarray(P, dtype=object), 'probabilities')


def probshape(cx, pb, struct):
  """ probabilities are accepted if and only if their shape is that of the values """
  st = S[struct]
  shp = shape_of(st)
  n = cx.choose(4, 'rank')
  sh = tuple(1 + cx.choose(3, 'length') for _ in range(n))
  od = collections.OrderedDict((k, valsfor(k, s)) for k, _, s, _ in st)
  dims = {k: d for k, _, _, d in st}
  P = cx.probs('p', sh) if n else cx.prob('p')
  mk = lambda: pb.PD(name_of(st), od, dims=dims, prob=P)
  if sh == shp:
    pd = mk()
    cx.eq(np.asarray(pd.prob, dtype=object), np.asarray(P, dtype=object), 'probabilities')
  else:
    cx.raises(mk, 'probabilities of shape {} for values of shape {}'.format(sh, shp), BAD)


def refuse(cx, pb, how):
  v = cx.reals('v', (2,))
  w = cx.reals('w', (2,))
  s = cx.real('s')
  P = cx.probs('p', (2,))
  D = pb.Distribution
  F = {'scalar_dim': lambda: D('x,s', {'x': v, 's': s}, dims={'x': 0, 's': 1}),
       'missing_dim': lambda: D('x,y', {'x': v, 'y': w}, dims={'x': 0}),
       'matrix': lambda: D('x', {'x': cx.reals('m', (2, 2))}, dims={'x': 0}),
       'list': lambda: D('x', {'x': [1., 2.]}, dims={'x': 0}),
       'name': lambda: D(3, {'x': v}),
       'reserved': lambda: D('prob', {'prob': v}),
       'reserved2': lambda: D('x,attrs', {'x': v, 'attrs': w}),
       'unnamed': lambda: pb.PD('x', collections.OrderedDict([('x', v), ('y', w)]), dims={'x': 0, 'y': 0}, prob=P),
       'unnamed_scalar': lambda: pb.PD('x', collections.OrderedDict([('x', v), ('y', s)]), dims={'x': 0}, prob=P),
       'ambiguous': lambda: pb.PD('x|y|z', collections.OrderedDict([('x', v), ('y', s), ('z', s)]), dims={'x': 0}, prob=P),
       'pscale': lambda: pb.PD('x', {'x': v}, dims={'x': 0}, prob=P, pscale='nonsense')}
  if how == 'setprob':
    pd = pb.PD('x', {'x': v}, dims={'x': 0}, prob=P)
    def set_():
      pd.prob = cx.probs('q', (3,))
    cx.raises(set_, 'replacing probabilities by an array of another shape', BAD)
    return
  cx.raises(F[how], how, BAD)


def naming(cx, pb, label, marg, cond):
  """ variables before the bar are marginal and those after it conditional """
  ks = marg + cond
  od = collections.OrderedDict((k, cx.real('v' + k)) for k in ks)
  pd = pb.PD(label, od, prob=cx.prob('p'))
  cx.same(list(pd.marg.keys()), marg, 'marginal variables')
  cx.same(list(pd.cond.keys()), cond, 'conditional variables')
  cx.same(pd.short_name, ','.join(marg) + ('|' + ','.join(cond) if cond else ''), 'short name')


for kind in ('Distribution', 'PD'):
  add('C13', 'layout2_' + kind, layout, nvar=2, maxdim=2, kind=kind)
  add('C13', 'layout2d3_' + kind, layout, nvar=2, maxdim=3, kind=kind)
  add('C13', 'auto_' + kind, layout, nvar=3, maxdim=1, kind=kind, autodims=True)
  add('C13', 'layout3_' + kind, layout, nvar=3, maxdim=2, kind=kind)
  add('C13', 'layout3d3_' + kind, layout, nvar=3, maxdim=3, kind=kind, thorough=True, budget=300)
for s in ('one', 'x2y3', 'xy_swap', 'xs', 'allsing', 'sharedlast'):
  add('C13', 'probshape_' + s, probshape, struct=s)
for h in ('scalar_dim', 'missing_dim', 'matrix', 'list', 'name', 'reserved', 'reserved2', 'unnamed', 'unnamed_scalar',
          'ambiguous', 'pscale', 'setprob'):
  add('C13', 'refuse_' + h, refuse, how=h)
for n, (nm, m, c) in enumerate((('x', ['x'], []), ('x,y', ['x', 'y'], []), ('x|y', ['x'], ['y']),
                                ('x,y|z', ['x', 'y'], ['z']), ('y|z,x', ['y'], ['z', 'x']), ('p(x)', ['x'], []),
                                ('p(x,y|z)', ['x', 'y'], ['z']), ('x=1,y|z=2', ['x', 'y'], ['z']))):
  add('C13', 'naming_%d' % n, naming, label=nm, marg=m, cond=c)


# ------------------------------------------------------------------------ C14
@contextlib.contextmanager
def scratch(cx):
  """ a file name: in memory while symbolic, else in a scratch directory """
  if getattr(cx, 'engine', None) is not None or cx.__class__.__name__ == 'SymCx':
    yield '/nonexistent/probayes.h5'
    return
  d = tempfile.mkdtemp(prefix='probayes_io_')
  try:
    yield os.path.join(d, 'probayes.h5')
  finally:
    shutil.rmtree(d)


def mk(cx, pb, st, scale, kind, pre, sets=()):
  V = collections.OrderedDict((k, {2 + len(k)} if k in sets else
                               (cx.real(pre + 'v' + k) if s is None else cx.reals(pre + 'v' + k, (s,))))
                              for k, _, s, _ in st)
  if kind == 'PD':
    return mkpd(cx, pb, st, scale, prefix=pre + 'p', vals=V)[0], V
  return pb.Distribution(','.join(k for k, _, _, _ in st), V, dims=collections.OrderedDict(
      (k, d) for k, _, _, d in st)), V


def snapshot(d):
  return (list(d.keys()), dict(d.dims), d.name, {k: np.array(v, copy=True) if not isinstance(v, set) else set(v)
                                                for k, v in d.items()},
          None if getattr(d, 'prob', None) is None else np.array(d.prob, copy=True))


def samedist(cx, got, snap, st, kind, scale, label):
  keys, dims, name, vals, prob = snap
  cx.same(type(got).__name__, kind, label + ' type')
  cx.same(list(got.keys()), keys, label + ' variables in order')
  cx.same({k: (None if got.dims[k] is None else int(got.dims[k])) for k in keys}, dims, label + ' dimensions')
  for k in keys:
    if isinstance(vals[k], set):
      cx.same(got[k], vals[k], label + ' set ' + k)
    else:
      cx.same(tuple(np.shape(got[k])), tuple(np.shape(vals[k])), label + ' shape of ' + k)
      cx.eq(np.asarray(got[k], dtype=object), np.asarray(vals[k], dtype=object), label + ' values of ' + k, atol=0.)
  if kind == 'PD':
    cx.same(list(got.marg.keys()), [k for k, t, _, _ in st if t == 'm'], label + ' marginal variables')
    cx.same(list(got.cond.keys()), [k for k, t, _, _ in st if t == 'c'], label + ' conditional variables')
    samescale(cx, got.pscale, SCALES[scale])
    cx.same(tuple(np.shape(got.prob)), tuple(np.shape(prob)), label + ' shape of probabilities')
    cx.eq(np.asarray(got.prob, dtype=object), np.asarray(prob, dtype=object), label + ' probabilities', atol=0.)


def io(cx, pb, struct, scale='lin', kind='PD', how='file', sets=(), twice=False):
  """ what is read back is what was written, and writing changes nothing """
  st = S[struct]
  d, V = mk(cx, pb, st, scale, kind, '', sets)
  before = snapshot(d)
  from probayes import pd_utils
  with scratch(cx) as path:
    if how == 'file':
      pb.write_dist(path, d)
      if twice:
        pb.write_dist(path, d)
      res = pb.read_dist(path)
      if twice:
        samedist(cx, res[0], before, st, kind, scale, 'first read')
        res = pb.read_dist(path)
    else:
      res = pd_utils.deserialise(pd_utils.serialise(d))
  cx.same(len(res), 1, 'number of distributions')
  samedist(cx, res[0], before, st, kind, scale, 'read')
  samedist(cx, d, before, st, kind, scale, 'original')
  cx.same(d.name, before[2], 'name of the original')


def reuse(cx, pb):
  """ a distribution that came back can be computed with, and so can the original """
  st = S['xy_cs']
  d, P = mkpd(cx, pb, st)
  t = table(cx, d)
  with scratch(cx) as path:
    pb.write_dist(path, d)
    r, = pb.read_dist(path)
  keep = [k for k, _, _, _ in st if k != 'x']
  eqtable(cx, table(cx, r.marginalise('x')), project(t, keep), 'marginal of the copy')
  eqtable(cx, table(cx, d.marginalise('x')), project(t, keep), 'marginal of the original')


def again(cx, pb, how='memory', kind='PD'):
  """ what was serialised once can be read or written any number of times """
  st = S['xy_cs']
  d, _ = mk(cx, pb, st, 'log', kind, '')
  snap = snapshot(d)
  from probayes import pd_utils
  ser = pb.serialise(d) if hasattr(pb, 'serialise') else pd_utils.serialise(d)
  if how == 'memory':
    for i in range(2):
      r, = pd_utils.deserialise(ser)
      samedist(cx, r, snap, st, kind, 'log', 'deserialised %d' % i)
  else:
    for i in range(2):
      with scratch(cx) as path:
        pd_utils.write_serialised(path, ser)
        back = pd_utils.read_serialised(path)[0]
        for j in range(2):
          r, = pd_utils.deserialise(back)
          samedist(cx, r, snap, st, kind, 'log', 'read %d %d' % (i, j))


def several(cx, pb, how='file'):
  """ several distributions and auxiliary arrays share a file without interfering """
  specs = [('xy_c', 'log', 'PD'), ('one', 'lin', 'PD'), ('xyz', 'lin', 'Distribution'), ('xs', 'coef', 'PD')]
  ds, snaps = [], []
  for i, (s, sc, kind) in enumerate(specs):
    d, _ = mk(cx, pb, S[s], sc, kind, 'd%d' % i)
    ds.append(d)
    snaps.append(snapshot(d))
  aux = {'aux one': {'b': cx.reals('auxb', (2,)), 'a': cx.reals('auxa', (2, 2))},
         'aux two': {'a': cx.reals('auxc', (1,))}}
  from probayes import pd_utils
  with scratch(cx) as path:
    if how == 'aux':
      pd_utils.write_serialised(path, pd_utils.serialise(*ds), aux)
      ser, aux2 = pd_utils.read_serialised(path)
      res = pd_utils.deserialise(ser)
      cx.same({k: set(v) for k, v in aux2.items()}, {k: set(v) for k, v in aux.items()}, 'auxiliary names')
      for k in aux:
        for j in aux[k]:
          cx.eq(np.asarray(aux2[k][j], dtype=object), np.asarray(aux[k][j], dtype=object), 'auxiliary data', atol=0.)
    else:
      pb.write_dist(path, *ds)
      res = pb.read_dist(path)
  cx.same(len(res), len(ds), 'number of distributions')
  for (s, sc, kind), snap in zip(specs, snaps):
    hit = [r for r in res if list(r.keys()) == snap[0]]
    cx.same(len(hit), 1, 'distribution found')
    samedist(cx, hit[0], snap, S[s], kind, sc, 'read')


for s in ('one', 'x2y3', 'xy_swap', 'xyz_rot', 'xs', 'allsing', 'xy_cs', 'xyz_mix', 'sharedlast', 'xy_c_front', 'sharedc'):
  for sc in SCALES:
    add('C14', 'file_{}_{}'.format(s, sc), io, struct=s, scale=sc)
  add('C14', 'memory_{}'.format(s), io, struct=s, scale='logneg', how='memory')
for s in ('one', 'x2y3', 'xyz_rot', 'xs', 'allsing', 'xyz_mix', 'sharedlast'):
  for h in ('file', 'memory'):
    add('C14', 'dist_{}_{}'.format(h, s), io, struct=s, kind='Distribution', how=h)
add('C14', 'set_x', io, struct='allsing', sets=('x',))
add('C14', 'set_s', io, struct='xs', sets=('s',))
add('C14', 'set_memory', io, struct='xs', sets=('s',), how='memory')
add('C14', 'twice', io, struct='xs', twice=True)
add('C14', 'reuse', reuse)
for h in ('memory', 'file'):
  for k in ('PD', 'Distribution'):
    add('C14', 'again_{}_{}'.format(h, k), again, how=h, kind=k)
add('C14', 'several', several)
add('C14', 'several_aux', several, how='aux')


def nothing(cx, pb, kind='PD', sets=({None}, {3}, {-2})):
  """ sets of one number stand for that many unspecified values, an unspecified number being none """
  n = len(sets)
  V = collections.OrderedDict(('s%d' % i, set(s)) for i, s in enumerate(sets))
  V['x'] = cx.reals('x', (2,))
  nm = ','.join(V)
  if kind == 'PD':
    p = cx.reals('p', (2,), 0., 1.)
    d = pb.PD(nm, V, prob=p)
    cx.eq(d.prob, p, 'probabilities')
  else:
    d = pb.Distribution(nm, V)
  for i, s in enumerate(sets):
    e, = s
    cx.same(d['s%d' % i], {0 if e is None else e}, 'set')
    cx.same(d.dims['s%d' % i], None, 'dimension of a set')
  cx.same(d.dims['x'], 0, 'dimension')
  cx.same(tuple(d.shape), (2,), 'shape')


for k in ('PD', 'Distribution'):
  add('C13', 'nothing_' + k, nothing, kind=k)
