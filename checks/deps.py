""" C24: conditional, joint and naively combined probabilities of dependences """
from checks.common import *
from checks.rvs import PS, kw, pscale_of
from checks.fields import mkvar, NAMES, entry
from symx.registry import add


def elementwise(cx, f):
  """ a function of named arrays from one of scalars """
  def g(**v):
    ks = list(v)
    if not any(np.ndim(v[k]) for k in ks):
      return f(**v)
    bs = np.broadcast_arrays(*[np.asarray(v[k], dtype=object) for k in ks])
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
      out[i] = f(**{k: b[i] for k, b in zip(ks, bs)})
    return out if cx.symbolic else out.astype(float)
  return g


def likelihood(cx, name, keys, sc):
  """ an arbitrary conditional probability of named values """
  u = cx.uf(name, 0.05, 1., (0.1, 0.9))
  num = lambda v: (1. if v else 0.) if isinstance(v, (bool, np.bool_)) else v

  def f(**v):
    return u(*[num(v[k]) for k in keys])
  return f, elementwise(cx, lambda **v: cx.stored(f(**v), sc))


def args_of(vs, how='str'):
  if how == 'objects':
    return {v.var: v.arg for v in vs}
  return collections.OrderedDict((v.var.name, v.arg) for v in (vs if how != 'reverse' else vs[::-1]))


def axes_of(vs):
  """ axis of each variable, in order """
  dims, shape = {}, []
  for v in vs:
    dims[v.var.name] = None if v.size is None else len(shape)
    if v.size is not None:
      shape.append(v.size)
  return dims, tuple(shape)


def everything(cx, d, vs, want, what, marg, cond, strict=True):
  """ the distribution d against want(**values) whichever way its axes run """
  keys = [v.var.name for v in vs]
  cx.same(set(d.keys()), set(keys), 'variables')
  cx.same(set(d.marg), set(marg), 'marginal variables')
  cx.same(set(d.cond), set(cond), 'conditioning variables')
  n = len([v for v in vs if v.size is not None])
  cx.same(np.ndim(d.prob), n, 'number of axes')
  used = []
  for v in vs:
    k = v.var.name
    ax = d.dims.get(k)
    if v.size is None:
      cx.true(ax is None, 'no axis for a single value')
    else:
      cx.true(ax is not None, 'axis for several values')
      used.append(int(ax))
      cx.same(np.shape(d.prob)[int(ax)], v.size, 'axis length')
    cx.eq(np.ravel(np.asarray(d[k], dtype=object)), np.array(v.vals, dtype=object), 'values of ' + k)
  cx.same(sorted(used), list(range(n)), 'axes')
  P = np.asarray(d.prob, dtype=object)
  for idx in np.ndindex(*P.shape):
    val = {v.var.name: v.vals[0 if v.size is None else idx[int(d.dims[v.var.name])]] for v in vs}
    cx.eq(cx.linear(P[idx], d.pscale), want(val), what)


def build(pb, vs, nleaf, cls='op'):
  """ the dependence of the first nleaf variables on the others """
  L, R = [v.var for v in vs[:nleaf]], [v.var for v in vs[nleaf:]]
  fold = lambda e: e[0] if len(e) == 1 else e[0] & (e[1] if len(e) == 2 else pb.RF(*e[1:]))
  if cls == 'after':        # (x | z) & y
    return (L[0] | fold(R)) & fold(L[1:])
  if cls == 'before':       # x & (y | z)
    return L[0] & (fold(L[1:]) | fold(R))
  if cls == 'fieldbefore':
    return pb.RF(*L[:-1]) & (L[-1] | pb.RF(*R))
  if cls == 'fieldor':
    return pb.RF(*L) | fold(R)
  if cls == 'orfield':
    return fold(L) | pb.RF(*R)
  if cls == 'op':
    return fold(L) | fold(R)
  if cls == 'sp':
    return pb.SP(pb.RF(*L), pb.RF(*R))
  if cls == 'rf':
    return pb.SD(pb.RF(*L), pb.RF(*R))
  return pb.SD(fold(L), fold(R))


def cond(cx, pb, kinds=('fun', 'fun'), nleaf=1, sizes=None, ps='lin', scales=None, how='str', cls='op', joint=None):
  """ the probability declared, over leafs given roots """
  n = len(kinds)
  sizes = sizes or [None] * n
  vs = [mkvar(cx, pb, NAMES[i], kinds[i], (scales or ['lin'] * n)[i], sizes[i]) for i in range(n)]
  sd = build(pb, vs, nleaf, cls)
  keys = NAMES[:n]
  f, g = likelihood(cx, 'L', keys, pscale_of(ps))
  sd.set_prob(g, **kw(ps))
  args = args_of(vs, how)
  kwds = {} if joint is None else {'joint': joint}
  if how == 'kwds':
    d = sd(**args, **kwds)
  else:
    d = sd(args, **kwds)
  leafs, roots = list(keys[:nleaf]), list(keys[nleaf:])
  cx.same((sd.leafs.keylist, sd.roots.keylist), (leafs, roots), 'leafs and roots')
  if not joint:
    everything(cx, d, vs, lambda v: f(**v), 'conditional probability', leafs, roots)
    return

  def want(v):
    p = f(**v)
    for w in vs[nleaf:]:
      p = p * w.lin(v[w.var.name])
    return p
  everything(cx, d, vs, want, 'joint probability', leafs + roots, [])


for s in PS:
  add('C24', 'cond_{}'.format(s), cond, ps=s, sizes=[2, 2])
  add('C24', 'cond_scalar_{}'.format(s), cond, ps=s)
  for t in PS:
    add('C24', 'joint_{}_{}'.format(s, t), cond, ps='one' if s == 'lin' and t != 'lin' else s, scales=['lin', t], sizes=[2, 2], joint=True)
for z in ((None, 2), (2, None), (3, 2), (1, 2)):
  nm = ''.join(str(e or 's') for e in z)
  add('C24', 'cond_sizes_' + nm, cond, sizes=z)
  add('C24', 'joint_sizes_' + nm, cond, sizes=z, joint=True)
for j in (False, True):
  add('C24', 'joint_flag_{}'.format(j), cond, joint=j)
  add('C24', 'joint_flag_sizes_{}'.format(j), cond, sizes=[2, 2], joint=j)
for h in ('kwds', 'objects', 'reverse'):
  add('C24', 'cond_' + h, cond, how=h, sizes=[2, 3])
  add('C24', 'joint_' + h, cond, how=h, sizes=[2, 2], joint=True)
for c in ('rf', 'sp', 'sd'):
  add('C24', 'cond_' + c, cond, cls=c, sizes=[2, 2])
  add('C24', 'joint_' + c, cond, cls=c, sizes=[2, 2], joint=True)
for c in ('after', 'before', 'fieldbefore', 'fieldor', 'orfield'):
  add('C24', 'cond_built_' + c, cond, kinds=('fun', 'bool', 'mem'), nleaf=2, cls=c, sizes=[2, None, 2])
  add('C24', 'joint_built_' + c, cond, kinds=('bool', 'mem', 'fun'), nleaf=2, cls=c, sizes=[2, 2, None], joint=True)
  add('C24', 'cond_built4_' + c, cond, kinds=('fun', 'bool', 'mem', 'bool'), nleaf=2, cls=c, sizes=[2, None, 2, None])
for k in ('int', 'bool', 'float'):
  add('C24', 'joint_root_' + k, cond, kinds=('fun', k if k != 'int' else 'mem'), sizes=[2, None if k == 'float' else 2], joint=True)
  add('C24', 'cond_leaf_' + k, cond, kinds=(k if k != 'int' else 'mem', 'fun'), sizes=[2 if k != 'float' else None, 2])
  add('C24', 'joint_scalar_' + k, cond, kinds=(k if k != 'int' else 'mem', k if k != 'int' else 'mem'), joint=True)
for z in ((2, 2, None), (2, None, 2), (None, 2, 2), (None, None, 2), (2, None, None), (None, None, None), (2, 3, 2)):
  nm = ''.join(str(e or 's') for e in z)
  for nl in (1, 2):
    add('C24', 'cond3_{}_{}'.format(nl, nm), cond, kinds=('fun', 'bool', 'mem'), sizes=z, nleaf=nl)
    add('C24', 'joint3_{}_{}'.format(nl, nm), cond, kinds=('bool', 'mem', 'fun'), sizes=z, nleaf=nl, joint=True)
for s in ('lin', 'log', 'coef', 'logoff'):
  add('C24', 'joint3_scales_' + s, cond, kinds=('mem', 'bool', 'fun'), scales=['lin', s, 'log'], ps='logoff',
      sizes=(2, 2, 2), nleaf=1, joint=True)


def naive(cx, pb, n=2, sizes=None, scales=None, ps=None, how='SD'):
  """ p(z|x) p(z|y) ... from dependences combined in parallel """
  sizes = sizes or [None] * (n + 1)
  scales = scales or ['lin'] * n
  vs = [mkvar(cx, pb, NAMES[i], 'fun', 'lin', sizes[i]) for i in range(n + 1)]
  fs, sds = [], []
  for i in range(n):
    keys = (NAMES[0], NAMES[i + 1])
    f, g = likelihood(cx, 'L{}'.format(i), keys, pscale_of(scales[i]))
    sd = vs[0].var | vs[i + 1].var
    sd.set_prob(g, **kw(scales[i]))
    fs.append((f, keys))
    sds.append(sd)
  if how == 'amp':
    sd = sds[0] & sds[1]
  else:
    sd = pb.SD(*sds)
  d = sd(args_of(vs))

  def want(v):
    p = 1.
    for f, keys in fs:
      p = p * f(**{k: v[k] for k in keys})
    return p
  everything(cx, d, vs, want, 'combined probability', NAMES[0], NAMES[1:n + 1])


for z in ((None, None, None), (2, None, None), (None, 2, 2), (2, 2, None), (2, None, 3), (2, 2, 2)):
  add('C24', 'naive_' + ''.join(str(e or 's') for e in z), naive, sizes=z)
for s in PS:
  add('C24', 'naive_scales_' + s, naive, sizes=(2, 2, None), scales=[s, 'lin'])
  add('C24', 'naive_scales_log_' + s, naive, sizes=(2, None, 2), scales=['log', s])
  add('C24', 'naive_both_' + s, naive, sizes=(2, None, 2), scales=[s, s])
add('C24', 'naive_amp', naive, sizes=(2, 2, 2), how='amp')
add('C24', 'naive_three', naive, n=3, sizes=(2, 2, None, 2))


def structure(cx, pb, kind='rv&sd'):
  """ which variables condition which """
  x, y, z, w = [pb.RV(n, vset=[-5., 5.], vtype=float) for n in 'xyzw']
  edges = None
  F = None
  stems = preds = None
  if kind == 'rv|rv':
    s, L, R, edges = x | y, 'x', 'y', {'yx'}
  elif kind == 'rv|rf':
    s, L, R, edges = x | (y & z), 'x', 'yz', {'yx', 'zx'}
  elif kind == 'rf|rv':
    s, L, R, edges = (x & y) | z, 'xy', 'z', {'zx', 'zy'}
  elif kind == 'rf|rf':
    s, L, R, edges = (x & y) | (z & w), 'xy', 'zw', {'zx', 'zy', 'wx', 'wy'}
  elif kind == 'rv&sd':
    s, L, R, edges = x & (y | z), 'xy', 'z', {'zx', 'zy'}
  elif kind == 'rf&sd':
    s, L, R, edges = (x & w) & (y | z), 'xwy', 'z', {'zx', 'zy', 'zw'}
  elif kind == 'three':
    s, L, R, edges = pb.SD(x, y, z), 'xy', 'z', {'zx', 'zy'}
  elif kind == 'four':
    s, L, R, edges = pb.SD(x, y, w, z), 'xyw', 'z', {'zx', 'zy', 'zw'}
  elif kind == 'three_rf':
    F = pb.RF(x, w)
    s, L, R, edges = pb.SD(F, pb.RF(y), pb.RF(z)), 'xwy', 'z', {'zx', 'zy', 'zw'}
    cx.same((F.keylist, [v.name for v in F.varlist]), (['x', 'w'], ['x', 'w']), 'the field given is untouched')
  elif kind == 'parallel':
    s, L, R, edges = pb.SD(x | y, x | z), 'x', 'yz', {'yx', 'zx'}
  elif kind == 'serial':
    s, L, R, edges = pb.SD(x | y, y | z), 'x', 'z', {'yx', 'zy'}
  elif kind == 'both':
    s, L, R, edges = pb.SD(x | y, z | w), 'xz', 'yw', {'yx', 'wz'}
  elif kind == 'stems':
    s, L, R, edges = pb.SD(x | y, (y & w) | z), 'xw', 'z', {'yx', 'zy', 'zw'}
    stems, preds = 'y', 'yz'
  elif kind == 'stem':
    s, L, R, edges = pb.SD(x | (y & w), y | z), 'x', 'wz', {'yx', 'wx', 'zy'}
    stems, preds = 'y', 'yw'
  elif kind == 'fork':
    s, L, R, edges = pb.SD(x | y, z | y), 'xz', 'y', {'yx', 'yz'}
  elif kind == 'bush':
    s, L, R, edges = pb.SD((x & w) | y, y | z, x | z), 'xw', 'z', {'yx', 'yw', 'zy', 'zx'}
    stems, preds = 'y', 'yz'
  elif kind == 'unit':
    s, L, R, edges = pb.SD(x), 'x', '', set()
  elif kind == 'field':
    s, L, R, edges = pb.SD(x & y), 'xy', '', set()
  cx.same([v.name for v in s.leafs.varlist], list(L), 'leafs')
  cx.same([v.name for v in s.roots.varlist] if s.roots is not None else [], list(R), 'roots')
  got = {a.name + b.name for a, b in s.edges}
  cx.same(got, edges, 'who conditions whom')
  cx.same(set(s.keylist), set(''.join(edges) + L + R), 'variables')
  cx.same(s.name, ','.join(L) + ('|' + ','.join(R) if R else ''), 'name')
  if preds is not None:
    cx.same(set(s.stems.keys()), set(stems), 'conditioned and conditioning')
    cx.same(set(s.preds.keylist), set(preds), 'immediate predecessors of leafs')


for k in ('stems', 'stem', 'fork', 'bush', 'rv|rv', 'rv|rf', 'rf|rv', 'rf|rf', 'rv&sd', 'rf&sd', 'three', 'four', 'three_rf', 'parallel', 'serial', 'both',
          'unit', 'field'):
  add('C24', 'structure_' + k, structure, kind=k)


def posterior(cx, pb, ps='lin', rs='lin', nz=2, nx=2):
  """ Bayes' theorem from the joint distribution of a dependence """
  x = pb.RV('x', vset={0, 1, 2} if nx == 3 else {0, 1}, vtype=int, **kw(rs))
  z = pb.RV('z', vtype=bool)
  f, g = likelihood(cx, 'L', 'zx', pscale_of(ps))
  sd = z | x
  sd.set_prob(g, **kw(ps))
  j = sd({'z': np.array([False, True][:nz]), 'x': np.arange(nx)}, joint=True)
  post = j.conditionalise('z')
  cx.same((set(post.marg), set(post.cond)), ({'x'}, {'z'}), 'posterior variables')
  for a in range(nz):
    e = [f(z=bool(a), x=b) for b in range(nx)]
    for b in range(nx):
      at = [None, None]
      at[int(post.dims['z'])], at[int(post.dims['x'])] = a, b
      cx.eq(cx.linear(np.asarray(post.prob, dtype=object)[tuple(at)], post.pscale) * sum(e), e[b], 'posterior')


for s in ('lin', 'log', 'coef'):
  for t in ('lin', 'log'):
    add('C24', 'posterior_{}_{}'.format(s, t), posterior, ps='one' if s == 'lin' else s, rs=t)
add('C24', 'posterior_3', posterior, nx=3)


def iid(cx, pb, n=2, ps='lin', joint=False, nx=2, rs='lin', cls='op'):
  """ independent observations multiply, the prior enters once """
  x = mkvar(cx, pb, 'x', 'fun', rs, nx)
  z = mkvar(cx, pb, 'z', 'fun', 'lin', n)
  f, g = likelihood(cx, 'L', 'zx', pscale_of(ps))
  sd = pb.SP(z.var, x.var) if cls == 'sp' else z.var | x.var
  sd.set_prob(g, **kw(ps))
  d = sd({'z': z.arg, 'x': x.arg}, iid=True, **({'joint': True} if joint else {}))
  P = np.ravel(np.asarray(d.prob, dtype=object))
  cx.same(len(P), nx or 1, 'one probability for each condition')
  cx.eq(np.ravel(np.asarray(d['x'], dtype=object)), np.array(x.vals, dtype=object), 'conditions')
  for i, e in enumerate(x.vals):
    w = x.lin(e) if joint else 1.
    for o in z.vals:
      w = w * f(z=o, x=e)
    cx.eq(cx.linear(P[i], d.pscale), w, 'product over observations')


for s in PS:
  for j in (False, True):
    add('C24', 'iid_{}{}'.format(s, '_joint' if j else ''), iid, ps=s, joint=j)
add('C24', 'iid_three', iid, n=3, joint=True)
add('C24', 'iid_scalar', iid, nx=None, joint=True)
add('C24', 'iid_sp', iid, cls='sp', joint=True, ps='log')
add('C24', 'iid_prior_log', iid, joint=True, rs='log', ps='one')


def iid_user(cx, pb, n=2, sizes=(2,), kind='sd', key='z', ps='lin', joint=False):
  """ a probability function that takes the product over observations itself """
  names = [NAMES[i] for i in range(len(sizes))]
  vs = [mkvar(cx, pb, k, 'fun', 'lin', s) for k, s in zip(names, sizes)]
  z = mkvar(cx, pb, 'w', 'fun', 'lin', n)
  sc = pscale_of(ps)
  f, _ = likelihood(cx, 'L', 'w' + ''.join(names), sc)

  def scalars(v):
    return [e for e in np.ravel(np.asarray(v, dtype=object))]

  def product_of(*vals):
    p = None
    for o in z.vals:
      e = f(w=o, **dict(zip(names, vals)))
      p = e if p is None else p * e
    return p

  def g(**v):
    cx.same(len(scalars(v['w'])), n, 'all observations are given')
    out = np.empty([s for s in sizes if s], dtype=object)
    for at in np.ndindex(*out.shape):
      at_ = iter(at)
      out[at] = cx.stored(product_of(*[scalars(v[k])[next(at_) if s else 0] for k, s in zip(names, sizes)]), sc)
    if not out.ndim:
      return np.asarray(out[()], dtype=object)[()] if cx.symbolic else np.float64(out[()])
    return out if cx.symbolic else out.astype(float)

  rf = pb.RF(*[v.var for v in vs])
  obj = pb.SD(pb.RF(z.var), rf) if kind == 'sd' else \
        pb.SP(pb.RF(z.var), rf) if kind == 'sp' else \
        pb.RF(z.var, *[v.var for v in vs]) if kind == 'first' else pb.RF(*([v.var for v in vs] + [z.var]))
  obj.set_prob(g, **kw(ps))
  how = {'joint': True} if joint else {}
  d = obj(args_of([z] + vs), iid=True if kind in ('sd', 'sp') else ['w'], **how)
  cx.same(d['w'], {n}, 'observations are counted')
  dims = [int(d.dims[k]) for k, s in zip(names, sizes) if s]
  cx.same(sorted(dims), list(range(len(dims))), 'an axis for each condition')
  P = np.asarray(d.prob, dtype=object)
  cx.same(P.ndim, len(dims), 'no axis for the observations')
  for k, v in zip(names, vs):
    cx.eq(np.array(scalars(d[k]), dtype=object), np.array(v.vals, dtype=object), 'conditions')
  for at in np.ndindex(*[s or 1 for s in sizes]):
    vals = [v.vals[i] for v, i in zip(vs, at)]
    w = product_of(*vals)
    if joint:
      for v, e in zip(vs, vals):
        w = w * v.lin(e)
    pos = [None] * len(dims)
    for ax, i in zip(dims, [i for i, s in zip(at, sizes) if s]):
      pos[ax] = i
    cx.eq(cx.linear(P[tuple(pos)], d.pscale), w, 'product over observations')


for s in PS:
  add('C24', 'iid_user_' + s, iid_user, ps=s)
add('C24', 'iid_user_joint', iid_user, joint=True)
add('C24', 'iid_user_sp', iid_user, joint=True, kind='sp', ps='log')
add('C24', 'iid_user_scalar', iid_user, sizes=(None,))
add('C24', 'iid_user_two', iid_user, sizes=(2, 2), joint=True)
add('C24', 'iid_user_mixed', iid_user, sizes=(None, 2), n=3)
for k in ('first', 'last'):
  add('C23', 'iid_user_' + k, iid_user, kind=k)
  add('C23', 'iid_user_two_' + k, iid_user, kind=k, sizes=(2, 3), ps='log')
