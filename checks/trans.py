""" C22: transitional (conditional) probabilities of single variables """
from checks.common import *
from checks.variables import FORMS, INTSETS, mkset, within, near
from checks.rvs import PS, kw, pscale_of, checkscale, outside
from symx.registry import add


def matrix(cx, n, name='t', kind='asym'):
  """ columns are the predecessors and sum to one """
  t = cx.probs(name, (n, n))
  if kind == 'sym':                    # doubly stochastic
    for i in range(n):
      for j in range(i):
        t[i, j] = t[j, i]
  elif kind == 'asym':
    cx.assume(t[0, 1] > t[1, 0] + 0.01)
  for j in range(n):
    cx.assume(sum(t[i, j] for i in range(n)) == 1. if cx.symbolic else True)
  if not cx.symbolic and kind != 'sym':
    t = t / np.sum(t, axis=0)
    cx.assume(kind != 'asym' or t[0, 1] > t[1, 0])
  elif not cx.symbolic:
    for i in range(n):
      t[i, i] = 1. - sum(t[i, j] for j in range(n) if j != i)
      cx.assume(t[i, i] > 0.)
  return t


def members_of(which):
  return [False, True] if which == 'bool' else sorted(int(e) for e in INTSETS[which])


def mkdisc(pb, which, **kwds):
  if which == 'bool':
    return pb.RV('k', vtype=bool, **kwds)
  vs = INTSETS[which]
  return pb.RV('k', vset=list(vs) if isinstance(vs, list) else vs, vtype=int, **kwds)


def vec2(f):
  def g(succ, pred):
    if not np.ndim(succ) and not np.ndim(pred):
      return f(succ, pred)
    s, p = np.broadcast_arrays(np.asarray(succ, dtype=object), np.asarray(pred, dtype=object))
    out = np.empty(s.shape, dtype=object)
    for i in np.ndindex(*s.shape):
      out[i] = f(s[i], p[i])
    return out
  return g


def dearr(cx, f):
  """ functions returning floats when run concretely """
  def g(*a, **k):
    r = f(*a, **k)
    return r if cx.symbolic or not np.ndim(r) else r.astype(float)
  return g


def pick(cx, members, tag, size):
  if size is None:
    return members[cx.choose(len(members))]
  return [members[cx.choose(len(members))] for _ in range(size)]


def arr(which, v):
  return np.array(v, dtype=bool if which == 'bool' else int)


def checkstep(cx, d, name, want, pred, succ, what):
  """ want(s, p) against the distribution d over succ x pred """
  key = name + "'"
  cx.same(set(d.keys()), {name, key}, 'variables')
  ps, ss = np.ndim(pred), np.ndim(succ)
  dims = {key: 0 if ss else None, name: (1 if ss else 0) if ps else None}
  cx.same(dict(d.dims), dims, 'axes')
  P = list(pred) if ps else [pred]
  S = list(succ) if ss else [succ]
  cx.eq(np.ravel(np.asarray(d[name], dtype=object)), np.array(P, dtype=object), 'predecessors')
  cx.eq(np.ravel(np.asarray(d[key], dtype=object)), np.array(S, dtype=object), 'successors')
  shape = ((len(S),) if ss else ()) + ((len(P),) if ps else ())
  cx.same(np.shape(d.prob), shape, 'shape')
  pr = np.asarray(d.prob, dtype=object).reshape([len(S), len(P)])
  for i, s in enumerate(S):
    for j, p in enumerate(P):
      want(pr[i, j], s, p)


def lookup(cx, pb, which, np_=None, ns=None, ps='lin', tup=False, reverse=False, default=False, kind='asym'):
  """ entries of the transition matrix """
  M = members_of(which)
  n = len(M)
  v = mkdisc(pb, which, **kw(ps))
  t = matrix(cx, n, kind=kind)
  st = cx.emap(lambda e: cx.stored(e, pscale_of(ps)), t)
  st = st if cx.symbolic else np.asarray(st, dtype=float)
  if tup:
    u = matrix(cx, n, 'u')
    su = cx.emap(lambda e: cx.stored(e, pscale_of(ps)), u)
    su = su if cx.symbolic else np.asarray(su, dtype=float)
    v.set_tran((st, su))
  else:
    v.set_tran(st)
  use = u if tup and reverse else t
  if default:
    d = v.step(reverse=reverse) if reverse else v.step()
    pred = succ = [bool(e) if which == 'bool' else int(e) for e in v.vset]
  else:
    pred, succ = pick(cx, M, 'p', np_), pick(cx, M, 's', ns)
    a = arr(which, pred) if np_ else pred
    b = arr(which, succ) if ns else succ
    d = v.step(a, b, reverse=reverse) if reverse else v.step(a, b)
  checkscale(cx, d, ps)

  def want(q, s, p):
    cx.eq(cx.linear(q, d.pscale), use[M.index(s), M.index(p)], 'entry of the transition matrix')
  checkstep(cx, d, 'k', want, pred, succ, 'matrix')


SHAPES = ((None, None), (None, 2), (2, None), (2, 2))
for w in ('bool', 'set', 'list', 'array'):
  for a, b in SHAPES:
    add('C22', 'matrix_{}_{}_{}'.format(w, a or 'scalar', b or 'scalar'), lookup, which=w, np_=a, ns=b)
  add('C22', 'matrix_{}_default'.format(w), lookup, which=w, default=True)
  add('C22', 'tuple_{}_default'.format(w), lookup, which=w, default=True, tup=True)
  add('C22', 'tuple_{}_reverse'.format(w), lookup, which=w, default=True, tup=True, reverse=True)
for ps in PS:
  add('C22', 'matrix_' + ps, lookup, which='list' if not ps.startswith('logn') else 'bool', ps=ps, default=True)
  add('C22', 'tuple_' + ps, lookup, which='bool', ps=ps, np_=2, ns=3, tup=True, reverse=True)
for k in ('sym', 'any'):
  add('C22', 'matrix_{}_bool'.format(k), lookup, which='bool', np_=2, ns=2, kind=k)
  add('C22', 'matrix_{}_set'.format(k), lookup, which='set', default=True, kind=k)
add('C22', 'matrix_big', lookup, which='range', default=True)
add('C22', 'matrix_big_pairs', lookup, thorough=True, budget=600, which='range', np_=2, ns=2)


def fun(cx, pb, which, np_=None, ns=None, ps='lin', order='key', tup=False, reverse=False):
  """ transitions given by a function """
  f, g = cx.uf('f', 0.05, 1., (0.1, 0.9)), cx.uf('g', 0.05, 1., (0.1, 0.9))
  sc = pscale_of(ps)
  if which == 'float':
    v = pb.RV('k', vset=[-10., 10.], vtype=float, **kw(ps))
    mk = lambda t, n: cx.real(t, -9., 9.) if n is None else cx.reals(t, (n,), -9., 9.)
    a, b = mk('p', np_), mk('s', ns)
    pred, succ = a if np_ is None else list(a), b if ns is None else list(b)
  else:
    M = members_of(which)
    v = mkdisc(pb, which, **kw(ps))
    pred, succ = pick(cx, M, 'p', np_), pick(cx, M, 's', ns)
    a = arr(which, pred) if np_ else pred
    b = arr(which, succ) if ns else succ
  num = lambda x: int(x) if isinstance(x, (bool, np.bool_, np.integer)) else x
  stored = lambda h: dearr(cx, vec2(lambda s, p: cx.stored(h(num(s), num(p)), sc)))
  F, G = stored(f), stored(g)
  if order == 'key':
    mkf = lambda h: lambda pred, succ: h(succ, pred)
    kws = {'order': {'k': 'pred', "k'": 'succ'}}
  elif order == 'pos':
    mkf = lambda h: lambda succ, pred: h(succ, pred)
    kws = {'order': {"k'": 0, 'k': 1}}
  elif order == 'swap':
    mkf = lambda h: lambda pred, succ: h(succ, pred)
    kws = {'order': {"k'": 1, 'k': 0}}
  else:
    def mkf(h):
      def transition(**kk):
        return h(kk["k'"], kk['k'])
      return transition
    kws = {}
  v.set_tran((mkf(F), mkf(G)) if tup else mkf(F), **kws)
  use = g if tup and reverse else f
  d = v.step(a, b, reverse=reverse)
  checkscale(cx, d, ps)

  def want(q, s, p):
    cx.eq(cx.linear(q, d.pscale), use(num(s), num(p)), 'conditional probability')
  checkstep(cx, d, 'k', want, pred, succ, 'function')


for o in ('key', 'pos', 'swap', 'none'):
  for a, b in SHAPES:
    add('C22', 'fun_{}_{}_{}'.format(o, a or 'scalar', b or 'scalar'), fun, which='float', order=o, np_=a, ns=b)
  add('C22', 'fun_int_{}'.format(o), fun, which='list', order=o, np_=2, ns=2)
for ps in PS:
  add('C22', 'fun_' + ps, fun, which='float', order='key', np_=2, ns=2, ps=ps)
for r in (False, True):
  add('C22', 'fun_tuple_{}'.format(int(r)), fun, which='float', np_=2, ns=2, tup=True, reverse=r)
  add('C22', 'fun_tuple_int_{}'.format(int(r)), fun, which='bool', np_=2, ns=2, tup=True, reverse=r, order='pos')


def difference(cx, pb, how, np_=None, ns=None):
  """ a function of the difference between successor and predecessor """
  f = cx.uf('f', 0.05, 1., (0.1, 0.9))
  v = pb.RV('k', vset=[-10., 10.], vtype=float)
  F = dearr(cx, lambda x: cx.emap(f, x))
  if how == 'pos':
    v.set_tran(lambda x: F(x), delta={"k'": 0})
  else:
    v.set_tran(lambda step: F(step), delta={"k'": 'step'})
  mk = lambda t, n: cx.real(t, -9., 9.) if n is None else cx.reals(t, (n,), -9., 9.)
  a, b = mk('p', np_), mk('s', ns)
  d = v.step(a, b)

  def want(q, s, p):
    cx.eq(q, f(s - p), 'conditional probability')
  checkstep(cx, d, 'k', want, a if np_ is None else list(a), b if ns is None else list(b), 'difference')


for h in ('pos', 'key'):
  for a, b in SHAPES:
    add('C22', 'delta_{}_{}_{}'.format(h, a or 'scalar', b or 'scalar'), difference, how=h, np_=a, ns=b)


def flat(cx, pb, form='cc', np_=None, ns=None, ps='lin', which='float', reverse=False):
  """ a constant transition applies between values inside the set only """
  sc = pscale_of(ps)
  if which == 'float':
    a, b = cx.real('a', -20., 20.), cx.real('b', -20., 20.)
    cx.assume(b > a + 0.01)
    v = pb.RV('k', vset=mkset(form, a, b), vtype=float, **kw(ps))
    mk = lambda t, n: cx.real(t, -40., 40.) if n is None else cx.reals(t, (n,), -40., 40.)
    ok = lambda e: within(e, a, b, form)
    p, s = mk('p', np_), mk('s', ns)
    for e in ([p] if np_ is None else list(p)) + ([s] if ns is None else list(s)):
      near(cx, e, a, b)
  else:
    M = members_of(which)
    v = mkdisc(pb, which, **kw(ps))
    mk = lambda t, n: cx.int(t, M[0] - 1, M[-1] + 1) if n is None else \
        np.array([cx.int(t + str(i), M[0] - 1, M[-1] + 1) for i in range(n)], dtype=object if cx.symbolic else int)
    ok = lambda e: any(bool(e == m) for m in M)
    p, s = mk('p', np_), mk('s', ns)
  c = cx.prob('c')
  v.set_tran(cx.stored(c, sc))
  d = v.step(p, s, reverse=reverse)
  checkscale(cx, d, ps)

  def want(q, s, p):
    if ok(s) and ok(p):
      cx.eq(cx.linear(q, d.pscale), c, 'constant inside')
    else:
      outside(cx, q, ps)
  checkstep(cx, d, 'k', want, p if np_ is None else list(p), s if ns is None else list(s), 'constant')


for f in FORMS:
  add('C22', 'flat_' + f, flat, form=f)
  add('C22', 'flat_succ_' + f, flat, form=f, ns=1)
for a, b in SHAPES:
  add('C22', 'flat_{}_{}'.format(a or 'scalar', b or 'scalar'), flat, form='oc', np_=a and 1, ns=b)
  add('C22', 'flat_int_{}_{}'.format(a or 'scalar', b or 'scalar'), flat, which='list', np_=a and 1, ns=b and 1)
for ps in PS:
  add('C22', 'flat_' + ps, flat, form='co', ps=ps)
  add('C22', 'flat_own_' + ps, flat, form='cc', ps=ps, np_=1, ns=1)
  add('C22', 'flat_int_' + ps, flat, which='set', ps=ps)
add('C22', 'flat_reverse', flat, form='oo', reverse=True)


# ----------------------------------------------------------------------- sampling
def bracket(cx, M, col, u):
  """ index of the successor whose cumulative bracket holds u """
  c = 0.
  for i in range(len(M) - 1):
    c = c + col[i]
    if not cx.symbolic:
      cx.assume(abs(u - c) > 1e-9)
    if bool(u < c):
      return i
  return len(M) - 1


def sample(cx, pb, which, mode, ps='lin', n=None, tup=False, reverse=False):
  """ a successor is drawn according to the column of its predecessor """
  M = members_of(which)
  v = mkdisc(pb, which, **kw(ps))
  t = matrix(cx, len(M))
  use = t
  st = lambda m: m if ps == 'lin' else dearr(cx, lambda: cx.emap(lambda e: cx.stored(e, pscale_of(ps)), m))()
  if tup:
    use2 = matrix(cx, len(M), 'u')
    v.set_tran((st(t), st(use2)))
    use = use2 if reverse else t
  else:
    v.set_tran(st(t))
  p = pick(cx, M, 'p', None)
  col = [use[i, M.index(p)] for i in range(len(M))]
  if mode == 'value':               # a given cumulative probability
    u = cx.real('u', 0., 1.)
    cx.assume(u < 1.)
    d = v.step(p, {u}, reverse=reverse)
    us = [u]
  elif mode == 'random':
    d = v.step(p, {0}, reverse=reverse) if n is None else v.step(p, {-n}, reverse=reverse)
    us = None
  elif mode == 'none':
    d = v.step(p)
    us = None
  else:
    d = v.step(p, {n}, reverse=reverse)
    us = [0.5] if n == 1 else [i / (n - 1) for i in range(n)]
  got = d["k'"]
  g = [got] if not np.ndim(got) else list(got)
  cx.same(len(g), n or 1, 'number of successors')
  cx.same(d['k'] == p, True, 'predecessor')
  pr = [d.prob] if not np.ndim(d.prob) else list(d.prob)
  cx.same(len(pr), len(g), 'one probability per successor')
  for i, (s, q) in enumerate(zip(g, pr)):
    cx.true(any(bool(s == m) for m in M), 'successor is a member')
    s = [m for m in M if s == m][0]
    cx.eq(cx.linear(q, d.pscale), col[M.index(s)], 'probability of the successor')
    if us is not None:
      cx.same(s, M[bracket(cx, M, col, us[i])], 'successor')


for w in ('bool', 'set', 'list'):
  add('C22', 'sample_value_' + w, sample, which=w, mode='value')
  add('C22', 'sample_random_' + w, sample, which=w, mode='random')
  add('C22', 'sample_none_' + w, sample, which=w, mode='none')
  add('C22', 'sample_random2_' + w, sample, which=w, mode='random', n=2)
  for n in (1, 3):
    add('C22', 'sample_even{}_{}'.format(n, w), sample, which=w, mode='even', n=n)
for ps in PS:
  if ps != 'lin':
    for m in ('value', 'random', 'even'):
      add('C22', 'sample_{}_{}'.format(m, ps), sample, which='set' if ps in ('one', 'coef', 'log') else 'bool', mode=m,
          n=3 if m == 'even' else None, ps=ps)


COLUMNS = ((0., 0.5, 0.5), (0.5, 0., 0.5), (0.5, 0.5, 0.), (0., 0., 1.), (0., 1., 0.), (1., 0., 0.), (0.25, 0.25, 0.5))


def impossible(cx, pb, which, mode, ps='lin', n=None):
  """ successors of probability zero are never drawn """
  M = members_of(which)
  p = pick(cx, M, 'p', None)
  menu = COLUMNS if len(M) == 3 else [(0., 1.), (1., 0.), (0.5, 0.5)]
  cols = [menu[cx.choose(len(menu))] if m == p else menu[2] for m in M]
  sc = pscale_of(ps)
  t = np.array(cols).T
  v = mkdisc(pb, which, **kw(ps))
  with np.errstate(all='ignore'):
    v.set_tran(t if ps == 'lin' else pb.pscales.rescale(t, 1., sc))
  if mode == 'value':
    u = cx.real('u', 0., 1.)
    d = v.step(p, {u})
  elif mode == 'random':
    d = v.step(p, {0})
  else:
    d = v.step(p, {n})
  for s in np.ravel(np.asarray(d["k'"], dtype=object)):
    i = [j for j, m in enumerate(M) if s == m][0]
    cx.true(cols[M.index(p)][i] > 0., 'successor is possible')


for w in ('bool', 'set'):
  for m in ('value', 'random'):
    add('C22', 'impossible_{}_{}'.format(m, w), impossible, which=w, mode=m)
  for n in (1, 2, 3):
    add('C22', 'impossible_even{}_{}'.format(n, w), impossible, which=w, mode='even', n=n)
for ps in ('log', 'coef'):
  add('C22', 'impossible_' + ps, impossible, which='bool', mode='value', ps=ps)
for r in (False, True):
  add('C22', 'sample_tuple_{}'.format(int(r)), sample, which='bool', mode='value', tup=True, reverse=r)


def icdf(cx, pb, form, mode, n=None, order='key'):
  """ float successors are drawn through the conditional cumulative functions """
  a, b = cx.real('a', -20., 20.), cx.real('b', -20., 20.)
  cx.assume(b > a + 0.01)
  v = pb.RV('k', vset=mkset(form, a, b), vtype=float)
  f, F = cx.uf('f', 0.05, 1., (0.1, 0.9)), cx.uf('F', 0., 1., (0.1, 0.9))
  I = cx.uf('I', -50., 50., (-5., 5.))
  mkf = lambda h: lambda pred, succ: dearr(cx, vec2(h))(succ, pred)
  o = {'order': {'k': 'pred', "k'": 'succ'}}
  if order == 'pos':
    mkf = lambda h: dearr(cx, vec2(h))
    o = {'order': {"k'": 0, 'k': 1}}
  v.set_tran(mkf(f), **o)
  v.set_tfun((mkf(F), mkf(I)), **o)
  p = cx.real('p', -20., 20.)
  lo, hi = F(a, p), F(b, p)
  cx.assume(hi > lo + 0.01)
  us = None
  if mode == 'value':
    u = cx.real('u', 0., 1.)
    d = v.step(p, {u})
    us = [u]
  elif mode == 'random':
    u = cx.draw(0., 1., None)
    cx.nrand -= 1                      # the draw that step() will make
    d = v.step(p, {0})
    us = [lo + u * (hi - lo)]
  elif mode == 'none':
    u = cx.draw(0., 1., None)
    cx.nrand -= 1
    d = v.step(p)
    us = [lo + u * (hi - lo)]
  else:
    d = v.step(p, {n})
    oa, ob = FORMS[form]
    k = n - 1 + oa + ob
    us = [lo + (hi - lo) * (i + oa) / k for i in range(n)] if k else [(lo + hi) * 1 / 2]
    if n == 1 and not oa and not ob:
      us = [(lo + hi) * 1 / 2]
  got = d["k'"]
  g = [got] if not np.ndim(got) else list(got)
  pr = [d.prob] if not np.ndim(d.prob) else list(d.prob)
  cx.same((len(g), len(pr)), (n or 1, n or 1), 'number of successors')
  cx.eq(d['k'], p, 'predecessor')
  for s, q, w in zip(g, pr, us):
    cx.eq(s, I(w, p), 'successor')
    cx.eq(q, f(s, p), 'probability of the successor')


for f in FORMS:
  add('C22', 'icdf_random_' + f, icdf, form=f, mode='random')
  add('C22', 'icdf_even_' + f, icdf, form=f, mode='even', n=3)
add('C22', 'icdf_none', icdf, form='cc', mode='none')
add('C22', 'icdf_even1', icdf, form='cc', mode='even', n=1)
add('C22', 'icdf_value', icdf, form='cc', mode='value')
add('C22', 'icdf_pos', icdf, form='oc', mode='even', n=2, order='pos')
add('C22', 'icdf_pos_value', icdf, form='cc', mode='value', order='pos')


def flatsample(cx, pb, form, mode, ps='lin'):
  """ successors under a constant transition """
  a, b = cx.real('a', -20., 20.), cx.real('b', -20., 20.)
  cx.assume(b > a + 0.01)
  v = pb.RV('k', vset=mkset(form, a, b), vtype=float, **kw(ps))
  c = cx.prob('c')
  v.set_tran(cx.stored(c, pscale_of(ps)))
  p = cx.real('p', -20., 20.)
  cx.assume(p > a)
  cx.assume(p < b)
  if mode == 'value':
    u = cx.real('u', 0., 1.)
    cx.assume(u > 0.001)
    cx.assume(u < 0.999)
    d = v.step(p, {u})
    cx.eq(d["k'"], a + u * (b - a), 'successor')
  else:
    d = v.step(p, {0}) if mode == 'random' else v.step(p)
    cx.le(a, d["k'"], 'successor inside')
    cx.le(d["k'"], b, 'successor inside')
    cx.assume(d["k'"] > a)
    cx.assume(d["k'"] < b)
  cx.eq(d['k'], p, 'predecessor')
  q = d.prob if not np.ndim(d.prob) else d.prob[0]
  cx.eq(cx.linear(q, d.pscale), c, 'probability')


for m in ('value', 'random', 'none'):
  for f in ('cc', 'oo'):
    add('C22', 'flat_sample_{}_{}'.format(m, f), flatsample, form=f, mode=m)
  add('C22', 'flat_sample_{}_log'.format(m), flatsample, form='cc', mode=m, ps='log')


def stepped(cx, pb, arrp=False):
  """ with a delta set the successor is the predecessor moved by it """
  v = pb.RV('k', vset=[-20., 20.], vtype=float)
  v.set_tran(dearr(cx, vec2(cx.uf('f', 0.05, 1., (0.1, 0.9)))), order={"k'": 0, 'k': 1})
  h = cx.real('h', -2., 2.)
  v.set_delta(h)
  p = cx.real('p', -15., 15.) if not arrp else cx.reals('p', (2,), -15., 15.)
  d = v.step(p)
  f = cx.uf('f', 0.05, 1., (0.1, 0.9))
  if not arrp:
    cx.eq(d["k'"], p + h, 'successor')
    cx.eq(d.prob, f(p + h, p), 'probability')
    return
  cx.eq(np.ravel(np.asarray(d["k'"], dtype=object)), np.array([e + h for e in p], dtype=object), 'successors')
  for i in range(2):
    for j in range(2):
      cx.eq(d.prob[i, j], f(p[i] + h, p[j]), 'probability')


add('C22', 'stepped', stepped)
add('C22', 'stepped_array', stepped, arrp=True)


def refuse(cx, pb, what):
  """ malformed transitions are refused """
  if what == 'size':
    cx.raises(lambda: mkdisc(pb, 'list').set_tran(cx.probs('t', (2, 2))), 'size')
  elif what == 'vector':
    cx.raises(lambda: mkdisc(pb, 'list').set_tran(cx.probs('t', (3,))), 'vector')
  elif what == 'float':
    v = pb.RV('x', vset=[0., 1.], vtype=float)
    cx.raises(lambda: v.set_tran(cx.probs('t', (2, 2))), 'float')
  elif what == 'unset':
    v = mkdisc(pb, 'list')
    v.set_tran(None)
    cx.raises(lambda: v.step(4), 'no transition')
  else:
    v = pb.RV('x', vset=[0., 1.], vtype=float)
    v.set_tran(lambda x, y: 1., order={'x': 0, "x'": 1})
    cx.raises(lambda: v.step(0.5, {0}), 'no cumulative functions')


for w in ('size', 'vector', 'float', 'unset', 'tfun'):
  add('C22', 'refuse_' + w, refuse, what=w)


def kept(cx, pb, how, then):
  """ declared transitions outlast later declarations of the set and its transform """
  n = {'k': 'pred', "k'": 'succ'}
  if how == 'matrix':
    v = pb.RV('k', vset={0, 1, 2}, vtype=int)
    t = matrix(cx, 3)
    v.set_tran(t)
    want = lambda s, p: t[s, p]
  else:
    v = pb.RV('k', vset=[1., 4.], vtype=float)
    if how == 'function':
      f = cx.uf('f', 0.05, 1., (0.1, 0.9))
      v.set_tran(dearr(cx, vec2(lambda s, p: f(s, p))), order={"k'": 0, 'k': 1})
      want = f
    else:
      c = cx.prob('c')
      v.set_tran(c)
      want = lambda s, p: c
  if then == 'ufun':
    v.set_ufun((np.log, np.exp))
  elif then == 'vset':
    v.vset = {3, 4, 5} if how == 'matrix' else [1., 5.]
  elif then == 'vtype':
    v.vtype = int if how == 'matrix' else float
  off = 3 if how == 'matrix' and then == 'vset' else 0
  if how == 'matrix':
    s, p = cx.choose(3), cx.choose(3)
  else:
    s, p = cx.real('s', 1.1, 3.9), cx.real('p', 1.1, 3.9)
  d = v.step(p + off, s + off)
  cx.eq(cx.linear(d.prob, d.pscale), want(s, p), 'declared transition')


for h in ('matrix', 'function', 'constant'):
  for t in ('none', 'vset', 'vtype', 'ufun'):
    if (h, t) != ('matrix', 'ufun'):
      add('C22', 'kept_{}_{}'.format(h, t), kept, how=h, then=t)
