""" C03: product rule; C04: division """
from checks.common import *
from symx.registry import add


def V(spec):
  """ 'x2@0 y3@1 | c2@2 s' -> structure """
  out = []
  kind = 'm'
  for tok in spec.split():
    if tok == '|':
      kind = 'c'
      continue
    if '@' in tok:
      kv, d = tok.split('@')
      out.append((kv[0], kind, int(kv[1:]), int(d)))
    else:
      out.append((tok, kind, None, None))
  return out


def join(tables):
  """ the product of tables on their joint assignments """
  out = {frozenset(): 1.}
  for t in tables:
    new = {}
    for a, p in out.items():
      da = dict(a)
      for b, q in t.items():
        db = dict(b)
        if all(da.get(k, v) == v for k, v in db.items()):
          new[a | b] = p * q
    out = new
  return out


def prod(cx, pb, specs, scales=None, how='mul', zeros=()):
  sts = [V(s) for s in specs]
  scales = scales or ['lin'] * len(sts)
  pds, before = [], []
  for i, (st, sc) in enumerate(zip(sts, scales)):
    pd, _ = mkpd(cx, pb, st, sc, prefix='pqrs'[i], zeros=zeros if i == 0 else ())
    pds.append(pd)
    before.append(table(cx, pd, 'operand %d' % i))
  if how == 'mul':
    res = pds[0]
    for p in pds[1:]:
      res = res * p
  else:
    res = pb.product(*pds)
  margs = {k for st in sts for k, t, _, _ in st if t == 'm'}
  conds = {k for st in sts for k, t, _, _ in st if t == 'c'} - margs
  names(cx, res, margs, conds)
  eqtable(cx, table(cx, res), join(before), 'product')
  for i, (p, b) in enumerate(zip(pds, before)):
    eqtable(cx, table(cx, p), b, 'operand %d unchanged' % i)


EXTRA = {'logone': complex(1., 0.), 'logtwo': complex(2., 0.), 'half': 0.5}


def prod_pscale_kw(cx, pb, scale_in, scale_out, specs=('x2@0 | y2@1', 'y2@0')):
  """ product(..., pscale=s): the requested output scale is what comes back """
  sts = [V(s) for s in specs]
  sin, sout = [EXTRA[s] if s in EXTRA else SCALES[s] for s in (scale_in, scale_out)]
  pds = [mkpd(cx, pb, st, sin, prefix='pq'[i])[0] for i, st in enumerate(sts)]
  before = [table(cx, p) for p in pds]
  res = pb.product(*pds, pscale=sout)
  samescale(cx, res.pscale, sout, 'requested scale')
  eqtable(cx, table(cx, res), join(before), 'product')


def mismatch(cx, pb, scale='lin'):
  """ conditional values that differ from the marginal's are rejected """
  a, _ = mkpd(cx, pb, V('x2@0 | y2@1'), scale)
  d = cx.real('d', -5., 5., (0.5, 3.))
  cx.assume(d * d >= 0.25)
  yv = cx.asarray(np.array([valsfor('y', 2)[0], valsfor('y', 2)[1] + d], dtype=object))
  b, _ = mkpd(cx, pb, V('y2@0'), scale, prefix='q', vals={'y': yv})
  cx.raises(lambda: a * b, 'mismatched conditioning values')
  cx.raises(lambda: b * a, 'mismatched conditioning values (other order)')


def reject_dup(cx, pb, spec):
  a, _ = mkpd(cx, pb, V(spec))
  b, _ = mkpd(cx, pb, V(spec), prefix='q')
  cx.raises(lambda: a * b, 'same marginal twice')


def reject_cond(cx, pb):
  a, _ = mkpd(cx, pb, V('x2@0 | c2@1'))
  b, _ = mkpd(cx, pb, V('y2@0 | d2@1'), prefix='q')
  cx.raises(lambda: a * b, 'unrelated conditionals')


CASES = [
    ['x2@0', 'y3@0'], ['x2@0 | y3@1', 'y3@0'], ['y3@0', 'x2@0 | y3@1'],
    ['x2@1 | y3@0', 'y3@0'], ['y3@0', 'x2@1 | y3@0'],
    ['x2@0 z2@1 | y3@2', 'y3@0'], ['x2@2 z2@0 | y3@1', 'y3@0'], ['y3@0', 'z2@2 x2@1 | y3@0'],
    ['x2@0 | y2@1 z3@2', 'y2@0 z3@1'], ['x2@1 | y2@2 z3@0', 'z3@1 y2@0'],
    ['x2@0 | y2@1 z3@2', 'z3@0', 'y2@0'], ['x2@0 | c2@1', 'y3@0 | c2@1'],
    ['x2@1 | c2@0', 'y3@0 | c2@1'], ['x2@0 | c', 'y2@0 | c'],
    ['x', 'y3@0'], ['x', 'y'], ['x | y', 'y'], ['x2@0 | y', 'y'], ['y', 'x2@0 | y'],
    ['x2@0 y2@1', 'z2@0 w2@1'], ['x2@1 y3@0', 'z2@0'], ['x2@0 y2@1', 'z'],
    ['x2@0 | y2@1', 'y2@0 | z2@1', 'z2@0'], ['x3@0 y3@0', 'z2@0'], ['z2@0', 'x3@0 y3@0'],
    ['x1@0 | y2@1', 'y2@0'], ['x2@0 | y2@1 s', 'y2@0 | s'],
]
for i, c in enumerate(CASES):
  nm = '*'.join(x.replace(' ', '') for x in c)
  n = len(c)
  add('C03', 'prod_%02d_%s' % (i, nm), prod, specs=c)
  add('C03', 'prod_log_%02d_%s' % (i, nm), prod, specs=c, scales=['log'] * n)
  add('C03', 'prodn_%02d_%s' % (i, nm), prod, specs=c, how='product',
      scales=['log' if j % 2 == i % 2 else 'lin' for j in range(n)])
for a in ('lin', 'coef', 'log', 'logoff', 'logneg'):
  for b in ('lin', 'coef', 'log', 'logoff', 'logneg'):
    add('C03', 'scales_{}_{}'.format(a, b), prod, specs=['x2@0 | y2@1', 'y2@0'], scales=[a, b])
    add('C03', 'scales_scalar_{}_{}'.format(a, b), prod, specs=['x', 'y'], scales=[a, b])
for z in (0, 3):
  add('C03', 'zeros_lin_%d' % z, prod, specs=['x2@0 | y2@1', 'y2@0'], zeros=(z,))
  add('C03', 'zeros_log_%d' % z, prod, specs=['x2@0 | y2@1', 'y2@0'], scales=['log', 'log'], zeros=(z,))
for a in ('lin', 'log', 'coef'):
  for b in ('lin', 'log', 'coef', 'logoff'):
    add('C03', 'request_{}_{}'.format(a, b), prod_pscale_kw, scale_in=a, scale_out=b)
for a in ('lin', 'coef', 'half', 'log', 'logoff', 'logneg', 'logone', 'logtwo'):
  for b in ('lin', 'coef', 'half', 'log', 'logoff', 'logneg', 'logone', 'logtwo'):
    add('C03', 'request_scalar_{}_{}'.format(a, b), prod_pscale_kw, scale_in=a, scale_out=b, specs=('x', 'y'))
    if a == b:
      add('C03', 'request_scalar2_{}'.format(a), prod_pscale_kw, scale_in=a, scale_out=b, specs=('x | y', 'y'))
      add('C03', 'request_array_{}'.format(a), prod_pscale_kw, scale_in=a, scale_out=b, specs=('x2@0', 'y2@0'))
add('C03', 'mismatch_lin', mismatch)
add('C03', 'mismatch_log', mismatch, scale='log')
add('C03', 'reject_dup', reject_dup, spec='x2@0')
add('C03', 'reject_dup_scalar', reject_dup, spec='x2@0 y')
add('C03', 'reject_cond', reject_cond)
BIG = [['w2@0 | x2@1 y2@2 z2@3', 'z2@0 x2@1 y2@2'], ['w2@3 | x2@2 y2@1 z2@0', 'x2@0 | y2@1 z2@2', 'y2@1 z2@0'],
       ['w2@0 x2@1 | y2@2', 'y2@0 z2@1'], ['y3@0 z2@1', 'w2@2 x2@1 | z2@0 y3@3']]
for i, c in enumerate(BIG):
  for sc in ('lin', 'log', 'logoff'):
    add('C03', 'big_{}_{}'.format(i, sc), prod, specs=c, scales=[sc] * len(c), thorough=True)


# ------------------------------------------------------------------------- C04
def divide(cx, pb, spec, keys, scale='lin', dscale=None, perm=None):
  """ P(A,K|C) / P(K|C) is P(A|C,K), and multiplying back restores the joint """
  st = V(spec)
  pd, _ = mkpd(cx, pb, st, scale)
  before = table(cx, pd, 'joint')
  conds = [k for k, t, _, _ in st if t == 'c']
  margs = [k for k, t, _, _ in st if t == 'm']
  left = [k for k in margs if k not in keys]
  sub = project(before, set(keys) | set(conds))
  # the divisor: the marginal over keys, as the package computes it or on another scale
  div = pd.marginal(list(keys))
  eqtable(cx, table(cx, div, 'divisor'), sub, 'divisor')
  if dscale:
    div = div.rescaled(SCALES[dscale])
  res = pd / div
  names(cx, res, left, conds + list(keys))
  samescale(cx, res.pscale, pd.pscale)
  got = table(cx, res)
  want = {a: p / sub[frozenset((k, v) for k, v in a if k in set(keys) | set(conds))]
          for a, p in before.items()}
  eqtable(cx, got, want, 'quotient')
  for b, t in project(got, set(conds) | set(keys)).items():
    cx.eq(t, 1., 'quotient mass given {}'.format(dict(sorted(b))))


def divide_back(cx, pb, spec, keys, scale='lin'):
  st = V(spec)
  pd, _ = mkpd(cx, pb, st, scale)
  before = table(cx, pd, 'joint')
  div = pd.marginal(list(keys))
  res = (pd / div) * div
  eqtable(cx, table(cx, res), before, 'divide then multiply')


def bayes(cx, pb, scale='lin', order=0):
  """ posterior = likelihood * prior / evidence, for every likelihood and prior """
  lik, _ = mkpd(cx, pb, V('x2@0 | h3@1' if order == 0 else 'x2@1 | h3@0'), scale, prefix='l')
  pri, _ = mkpd(cx, pb, V('h3@0'), scale, prefix='h')
  L, H = table(cx, lik), table(cx, pri)
  joint = lik * pri
  ev = joint.marginal('x')
  post = joint / ev
  post2 = joint.conditionalise('x')
  names(cx, post, {'h'}, {'x'})
  want = {}
  for a, p in join([L, H]).items():
    d = dict(a)
    tot = 0.
    for b, q in join([L, H]).items():
      if dict(b)['x'] == d['x']:
        tot = tot + q
    want[a] = p / tot
  eqtable(cx, table(cx, post), want, 'posterior')
  eqtable(cx, table(cx, post2), want, 'posterior by conditioning')


def bayes_scalar(cx, pb, scale='lin'):
  """ posterior after observing one scalar datum """
  lik, _ = mkpd(cx, pb, V('x | h3@0'), scale, prefix='l')
  pri, _ = mkpd(cx, pb, V('h3@0'), scale, prefix='h')
  joint = lik * pri
  J = table(cx, joint)
  post = joint.conditionalise('x')
  tot = 0.
  for p in J.values():
    tot = tot + p
  eqtable(cx, table(cx, post), {a: p / tot for a, p in J.items()}, 'posterior')
  ev = joint.marginal('x')
  eqtable(cx, table(cx, joint / ev), {a: p / tot for a, p in J.items()}, 'posterior by division')


D = [('x2@0 y3@1', 'x'), ('x2@0 y3@1', 'y'), ('x2@1 y3@0', 'x'), ('x2@1 y3@0', 'y'),
     ('x2@0 y2@1 z2@2', 'y'), ('x2@0 y2@1 z2@2', 'xz'), ('x2@0 y2@1 z3@2', 'z'),
     ('x2@0 y2@1 | c3@2', 'x'), ('x2@0 y3@1 | c', 'y'), ('x2@0 y2@1 z2@2', 'yz'),
     ('x2@0 s', 's'), ('x2@0 y2@1 s', 's'), ('x2@2 y3@0 z2@1', 'y'), ('x2@2 y3@0 z2@1', 'xz')]
for i, (sp, ks) in enumerate(D):
  for sc in ('lin', 'log'):
    add('C04', 'div_{:02d}_{}_{}_{}'.format(i, sp.replace(' ', ''), ks, sc), divide, spec=sp,
        keys=list(ks), scale=sc)
for a in ('coef', 'logoff', 'log', 'lin'):
  for b in ('lin', 'log', 'coef', 'logoff'):
    add('C04', 'div_scales_{}_{}'.format(a, b), divide, spec='x2@0 y2@1', keys=['y'], scale=a, dscale=b)
for sp, ks in (('x2@0 y3@1', 'x'), ('x2@0 y3@1', 'y'), ('x2@0 y2@1 z2@2', 'y'), ('x2@0 y2@1 | c2@2', 'y')):
  for sc in ('lin', 'log'):
    add('C04', 'back_{}_{}_{}'.format(sp.replace(' ', ''), ks, sc), divide_back, spec=sp, keys=list(ks), scale=sc)
for sc in ('lin', 'coef', 'log', 'logoff', 'logneg'):
  add('C04', 'bayes_' + sc, bayes, scale=sc)
  add('C04', 'bayes_t_' + sc, bayes, scale=sc, order=1)
  add('C04', 'bayes_scalar_' + sc, bayes_scalar, scale=sc)
for sp, ks in (('w2@0 x2@1 y2@2 z2@3', 'xz'), ('w2@0 x2@1 y2@2 z2@3', 'wyz'), ('w2@2 x2@0 y2@3 z2@1', 'y'),
               ('w2@2 x2@0 y2@3 z2@1', 'xz'), ('w2@0 x2@1 y2@2 | z2@3', 'x')):
  for sc in ('lin', 'logoff'):
    add('C04', 'div_big_{}_{}_{}'.format(sp.replace(' ', ''), ks, sc), divide, spec=sp, keys=list(ks),
        scale=sc, thorough=True)


# values of a variable shared by two operands must agree, or the operands are refused
def agree(cx, pb, role, n=2, scale='lin'):
  v = cx.reals('v', (n,), -5., 5.) if n else cx.real('v', -5., 5.)
  w = cx.reals('w', (n,), -5., 5.) if n else cx.real('w', -5., 5.)
  sh = 'y%d@%s' if n else 'y'
  f = lambda d: sh % (n, d) if n else sh
  mk = lambda spec, pre, val: mkpd(cx, pb, V(spec), scale, prefix=pre, vals={'y': val})[0]
  try:
    if role == 'condmarg':
      r = mk('x2@0 | ' + f(1), 'p', v) * mk(f(0), 'q', w)
    elif role == 'margcond':
      r = mk(f(0), 'p', v) * mk('x2@0 | ' + f(1), 'q', w)
    elif role == 'condcond':
      r = mk('x2@0 | ' + f(1), 'p', v) * mk('z2@0 | ' + f(1), 'q', w)
    elif role == 'singles':
      r = mk('x | ' + f(0), 'p', v) * mk(f(0), 'q', w)
    elif role == 'divmarg':
      r = mk('x2@0 ' + f(1), 'p', v) / mk(f(0), 'q', w)
    elif role == 'divcond':
      r = mk('x2@0 z2@1 | ' + f(2), 'p', v) / mk('x2@0 | ' + f(1), 'q', w)
  except (AssertionError, ValueError):
    return
  d = np.ravel(np.asarray(v - w, dtype=object))
  for e in d:
    cx.le(e, 1e-3, 'operands with different values of a shared variable were combined')
    cx.le(-e, 1e-3, 'operands with different values of a shared variable were combined')


for role in ('condmarg', 'margcond', 'condcond', 'singles'):
  for n in (2, 3, 0):
    if role == 'singles' and n == 0:
      continue
    add('C03', 'agree_{}_{}'.format(role, n), agree, role=role, n=n)
for role in ('divmarg', 'divcond'):
  for n in (2, 3, 0):
    if n or role != 'divcond':
      add('C04', 'agree_{}_{}'.format(role, n), agree, role=role, n=n)
add('C04', 'agree_divcond_0', agree, role='divcond', n=0)


# variables sharing one dimension keep sharing it in the product, wherever they stand
SHARED = (('x2@0 y3@1 z2@0', 'w2@0'), ('w2@0', 'x2@0 y3@1 z2@0'), ('x3@0 y2@1 z2@1', 'w2@0'),
          ('w2@0', 'x3@0 y2@1 z2@1'), ('x2@0 | y2@0', 'w2@0'), ('w2@0', 'x2@0 | y2@0'),
          ('x2@0 | y2@0', 'w3@0 y2@1'), ('x2@0 | y2@0 z2@0', 'w3@0'), ('x3@0 | y2@1 z2@1', 'y2@0 z2@0'),
          ('y2@0 z2@0', 'x3@0 | y2@1 z2@1'), ('x2@0 w3@1 | y2@2 z2@2', 'y2@0 z2@0'),
          ('x3@0 | y2@1 z2@1', 'w2@0 | y2@1 z2@1'), ('x3@0 | y2@1 z2@1', 'y2@0 z2@0', 'w2@0'),
          ('w2@0', 'x3@0 | y2@1 z2@1', 'y2@0 z2@0'), ('w2@0 | x3@1 y2@2 z2@2', 'x3@0 y2@1 z2@1'),
          ('w2@0 | x3@1 y2@2 z2@2', 'y2@0 x3@1 z2@0'), ('w3@0 x2@0 | y2@1 z2@1', 'y2@0 z2@0'),
          ('w2@0 x2@0', 'y2@0 z2@0'), ('w2@0 y2@1 x2@0 z2@1', 's'), ('x2@0 | y2@0 s', 's'))


def contradict(cx, pb, specs, how='mul'):
  """ a dimension shared in one operand and not in the other leaves no joint table """
  sts = [V(s) for s in specs]
  pds = [mkpd(cx, pb, st, prefix='pq'[i])[0] for i, st in enumerate(sts)]
  cx.raises(lambda: pds[0] * pds[1] if how == 'mul' else pb.product(*pds), 'shared and separate dimensions combined')


for i, c in enumerate(SHARED):
  if c == ('w3@0 x2@0 | y2@1 z2@1', 'y2@0 z2@0'):
    continue
  add('C03', 'shared_%02d' % i, prod, specs=c)
  add('C03', 'shared_log_%02d' % i, prod, specs=c, scales=['log'] * len(c))
  add('C03', 'shared_n_%02d' % i, prod, specs=c, how='product', scales=['coef', 'logoff', 'lin'][:len(c)])
for i, c in enumerate((('x2@0 | y2@1 z2@2', 'y2@0 z2@0'), ('y2@0 z2@0', 'x2@0 | y2@1 z2@2'),
                       ('x2@0 | y2@1 z2@1', 'y2@0 z2@1'), ('y2@0 z2@1', 'x2@0 | y2@1 z2@1'))):
  add('C03', 'contradict_%d' % i, contradict, specs=c)
  add('C03', 'contradict_n_%d' % i, contradict, specs=c, how='product')
for i, (sp, ks) in enumerate((('x2@0 y3@1 z3@1', 'yz'), ('x2@0 y3@1 z3@1', 'x'), ('y3@0 x2@1 z3@0', 'yz'),
                              ('y3@0 x2@1 z3@0', 'x'), ('y3@0 z3@0 x2@1', 'x'), ('w2@0 x2@1 y2@0 z2@1', 'wy'),
                              ('w2@0 x2@1 y2@0 z2@1', 'xz'), ('x2@0 w2@1 y2@2 z2@2', 'w'),
                              ('w2@0 y2@0 x3@1 | c2@2', 'x'), ('w2@0 y2@0 x3@1 | c2@2', 'wy'),
                              ('w2@0 y2@0 x3@1 | c2@2 d2@2', 'x'), ('w2@0 x3@1 | c2@2 d2@2', 'x'))):
  for sc in ('lin', 'logoff'):
    add('C04', 'div_shared_%02d_%s' % (i, sc), divide, spec=sp, keys=list(ks), scale=sc)
    if '|' not in sp:
      add('C04', 'back_shared_%02d_%s' % (i, sc), divide_back, spec=sp, keys=list(ks), scale=sc)
