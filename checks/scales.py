""" C05: probability scales denote the same linear value """
from checks.common import *
from symx.registry import add

LO, HI = 1e-290, 1e290


def mkscale(cx, kind, tag):
  """ an arbitrary scale of the given kind """
  if kind == 'none':
    return None
  if kind == 'one':
    return 1.
  if kind == 'intone':
    return 1
  if kind == 'int':
    return 3
  if kind == 'log':
    return 0j
  if kind == 'logstr':
    return 'log'
  if kind == 'ln':
    return 'ln'
  if kind == 'zero':
    return 0
  if kind == 'coef':
    c = cx.real('c' + tag, 1e-3, 1e3, (0.1, 9.))
    return c
  if kind == 'logoff':
    return cx.complex(cx.logp(cx.real('k' + tag, 1.5, 1e3, (1.5, 9.))), 0.)
  if kind == 'logoffneg':
    return cx.complex(cx.logp(cx.real('k' + tag, 1e-3, 0.75, (0.1, 0.7))), 0.)
  if kind == 'logneg':
    return cx.complex(cx.logp(cx.real('k' + tag, 1.5, 1e3, (1.5, 9.))), math.pi)
  raise KeyError(kind)


def lin(cx, prob, scale):
  if isinstance(scale, str) or (not cx.issym(scale) and scale is not None and
                                not cx.iscomplex(scale) and scale == 0):
    scale = 0j
  return cx.linear(prob, scale)


def stored(cx, p, scale):
  if isinstance(scale, str) or (not cx.issym(scale) and scale is not None and
                                not cx.iscomplex(scale) and scale == 0):
    scale = 0j
  return cx.stored(p, 1. if scale is None else scale)


def inputs(cx, shape, name='p', lo=LO, hi=HI):
  if shape == ():
    return cx.prob(name, lo=lo, hi=hi)
  return cx.probs(name, shape, lo=lo, hi=hi)


def convert(cx, pb, a, b, shape):
  from probayes.pscales import rescale
  sa, sb = mkscale(cx, a, 'a'), mkscale(cx, b, 'b')
  P = inputs(cx, shape)
  x = stored(cx, P, sa)
  y = rescale(x, sa, sb)
  cx.eq(lin(cx, y, sb), P, 'denoted value', atol=0.)
  z = rescale(y, sb, sa)
  cx.eq(lin(cx, z, sa), P, 'denoted value after the round trip', atol=0.)
  cx.eq(z, x, 'round trip', atol=1e-9)


def convert1(cx, pb, b, shape):
  """ a single scale argument converts from plain probabilities """
  from probayes.pscales import rescale
  sb = mkscale(cx, b, 'b')
  P = inputs(cx, shape)
  cx.eq(lin(cx, rescale(P, sb), sb), P, 'denoted value', atol=0.)


def coefs(cx, pb, a):
  """ the offset and the coefficient of a scale are the same number """
  from probayes.pscales import logp_offs, prob_coef, eval_pscale
  sa = mkscale(cx, a, 'a')
  c, o = prob_coef(sa), logp_offs(sa)
  one = lin(cx, 0. if cx.iscomplex(eval_pscale(sa)) else 1., sa)
  cx.eq(c, one, 'coefficient', atol=0.)
  cx.eq(cx.exp(o) if not (isinstance(o, (int, float)) and o == 0) else 1., one, 'offset', atol=0.)


def logs(cx, pb, shape):
  from probayes.pscales import log_prob, exp_logp
  P = inputs(cx, shape)
  l = log_prob(P)
  cx.eq(l, cx.emap(cx.logp, P), 'log')
  cx.eq(exp_logp(l), P, 'exp of log', atol=0.)


def zeros(cx, pb, a, b):
  """ impossible events stay impossible, finite and ordered on every scale """
  from probayes.pscales import rescale
  sa, sb = mkscale(cx, a, 'a'), mkscale(cx, b, 'b')
  P = cx.probs('p', (3,))
  P[1] = 0.
  x = stored(cx, P, sa)
  y = rescale(x, sa, sb)
  cx.eq(lin(cx, y, sb), P, 'denoted values', atol=0.)
  z = rescale(y, sb, sa)
  cx.eq(lin(cx, z, sa), P, 'denoted values after the round trip', atol=0.)
  s = rescale(stored(cx, 0., sa), sa, sb)
  cx.eq(lin(cx, s, sb), 0., 'denoted scalar', atol=0.)
  cx.true(y[1] < y[0], 'order kept')
  cx.true(y[1] < y[2], 'order kept')
  cx.true(y[1] > -1.8e308, 'finite')


def prodscale(cx, pb, kinds):
  from probayes.pscales import prod_pscale
  ss = [mkscale(cx, k, str(i)) for i, k in enumerate(kinds)]
  want = 1.
  for s in ss:
    want = want * lin(cx, 0. if cx.iscomplex(sc(s)) else 1., s)
  r = prod_pscale(ss)
  cx.same(cx.iscomplex(r), any(cx.iscomplex(s) for s in ss), 'log if any factor is log')
  cx.eq(lin(cx, 0. if cx.iscomplex(r) else 1., r), want, 'scale of the product', atol=0.)


def sc(s):
  if isinstance(s, str):
    return 0j
  return 1. if s is None else s


def prodrule(cx, pb, kinds, out=None, shape=(2,), use_logp=None):
  from probayes.pscales import prod_rule
  ss = [mkscale(cx, k if k != 'default' else 'one', str(i)) for i, k in enumerate(kinds)]
  Ps = [inputs(cx, shape, 'p%d' % i, 1e-90, 1e90) for i in range(len(kinds))]
  xs = [stored(cx, P, s) for P, s in zip(Ps, ss)]
  kw = {'pscales': ss}
  if out is not None:
    kw['pscale'] = mkscale(cx, out, 'out')
  if use_logp is not None:
    kw['use_logp'] = use_logp
  if kinds[0] == 'default':
    kw.pop('pscales')
  r, s = prod_rule(*xs, **kw)
  if out is not None:
    samescale(cx, s, kw['pscale'], 'requested scale')
  want = Ps[0]
  for P in Ps[1:]:
    want = want * P
  cx.eq(lin(cx, r, s), want, 'product', atol=0.)


def quotient(cx, pb, a, b, out=None, shape=(2,)):
  from probayes.pscales import div_prob
  sa, sb = mkscale(cx, a, 'a'), mkscale(cx, b, 'b')
  P, Q = inputs(cx, shape, 'p', 1e-90, 1e90), inputs(cx, shape, 'q', 1e-90, 1e90)
  x, y = stored(cx, P, sa), stored(cx, Q, sb)
  so = sa
  if out is not None:
    so = mkscale(cx, out, 'out')
    r = div_prob(x, y, sa, sb, pscale=so)
  else:
    r = div_prob(x, y, sa, sb)
  cx.eq(lin(cx, r, so), P / Q, 'quotient', atol=0.)


def quotient_plain(cx, pb, shape=(2,)):
  from probayes.pscales import div_prob
  P, Q = inputs(cx, shape, 'p', 1e-90, 1e90), inputs(cx, shape, 'q', 1e-90, 1e90)
  cx.eq(div_prob(P, Q), P / Q, 'quotient', atol=0.)


def quotient_zero(cx, pb, s):
  """ 0/q = 0 on every scale, never NaN """
  from probayes.pscales import div_prob
  sa = mkscale(cx, s, 'a')
  Q = cx.prob('q')
  r = div_prob(stored(cx, np.array([0., 0.], dtype=object) if cx.symbolic else np.array([0., 0.]), sa),
               stored(cx, cx.asarray([Q, Q]), sa), sa, sa)
  cx.eq(lin(cx, r, sa), np.array([0., 0.], dtype=object), 'zero over positive', atol=0.)


def coherent(cx, pb, s):
  """ the scale of a distribution is the scale its probabilities are reported on """
  sa = mkscale(cx, s, 'a')
  P = cx.probs('p', (2,))
  pd = pb.PD('x', {'x': np.arange(2)}, prob=stored(cx, P, sa), pscale=sa)
  cx.eq(cx.linear(pd.prob, pd.pscale), P, 'denoted', atol=0.)
  for t in ('one', 'log', 'coef', 'logoff'):
    st = mkscale(cx, t, 'b')
    q = pd.rescaled(st)
    cx.eq(cx.linear(q.prob, q.pscale), P, 'denoted after rescaled', atol=0.)


K = ['one', 'coef', 'log', 'logoff', 'logneg', 'logoffneg']
for a in K:
  for b in K:
    for sh in ((), (2,)):
      add('C05', 'convert_{}_{}_{}'.format(a, b, len(sh)), convert, a=a, b=b, shape=sh)
    if a != 'coef' or b != 'coef':
      add('C05', 'zeros_{}_{}'.format(a, b), zeros, a=a, b=b)
    add('C05', 'prodscale_{}_{}'.format(a, b), prodscale, kinds=[a, b])
    for sh in ((), (2,)):
      add('C05', 'prod_{}_{}_{}'.format(a, b, len(sh)), prodrule, kinds=[a, b], shape=sh)
      add('C05', 'div_{}_{}_{}'.format(a, b, len(sh)), quotient, a=a, b=b, shape=sh)
  for b in ('none', 'intone', 'logstr', 'ln', 'zero', 'int'):
    add('C05', 'convert_{}_{}'.format(a, b), convert, a=a, b=b, shape=(2,))
  for o in ('one', 'coef', 'log', 'logoff'):
    add('C05', 'prodout_{}_{}'.format(a, o), prodrule, kinds=[a, a], out=o)
    add('C05', 'divout_{}_{}'.format(a, o), quotient, a=a, b=a, out=o, shape=())
  add('C05', 'coefs_' + a, coefs, a=a)
  add('C05', 'coherent_' + a, coherent, s=a)
  add('C05', 'div0_' + a, quotient_zero, s=a)
  add('C05', 'prod1_' + a, prodrule, kinds=[a])
for b in ('none', 'one', 'coef', 'log', 'logoff', 'logneg', 'logstr', 'ln', 'zero', 'int'):
  for sh in ((), (2,)):
    add('C05', 'convert1_{}_{}'.format(b, len(sh)), convert1, b=b, shape=sh)
for sh in ((), (3,), (2, 2)):
  add('C05', 'logs_%d' % len(sh), logs, shape=sh)
  add('C05', 'div_plain_%d' % len(sh), quotient_plain, shape=sh)
for a in K:
  for b in K:
    for c in K:
      add('C05', 'prod3_{}_{}_{}'.format(a, b, c), prodrule, kinds=[a, b, c], shape=(2,),
          thorough=not (a == 'one' or b == 'log'))
      add('C05', 'prodscale3_{}_{}_{}'.format(a, b, c), prodscale, kinds=[a, b, c], thorough=True)


def wrapped(cx, pb, a, b, how, shape=()):
  """ a probability object evaluated on a requested scale """
  from probayes.prob import Prob
  sa, sb = mkscale(cx, a, 'a'), mkscale(cx, b, 'b')
  p = inputs(cx, shape, lo=1e-6, hi=1e3)
  st = stored(cx, p, sa)
  if how == 'function':
    st = st if cx.symbolic or not np.ndim(st) else np.asarray(st, dtype=float)
    obj = Prob(lambda x: st, pscale=sa)
    got = obj(0., pscale=sb)
    same = obj(0.)
  elif how == 'keyword':
    obj = Prob(lambda x: st, pscale=sa)
    got = obj.eval_prob(x=0., pscale=sb)
    same = obj.eval_prob(x=0.)
  else:
    obj = Prob(np.asarray(st, dtype=object if cx.symbolic else float), pscale=sa)
    got = obj(pscale=sb)
    same = obj()
  cx.eq(lin(cx, got, sb), p, 'requested scale')
  cx.eq(lin(cx, same, sa), p, 'own scale')


for a in ('one', 'coef', 'log', 'logoff'):
  for b in ('one', 'coef', 'log', 'logstr', 'logoff', 'zero', 'logneg'):
    add('C05', 'prob_{}_{}'.format(a, b), wrapped, a=a, b=b, how='function')
  add('C05', 'prob_keyword_{}'.format(a), wrapped, a=a, b='log', how='keyword')
  add('C05', 'prob_array_{}'.format(a), wrapped, a=a, b='logoff', how='array', shape=(2,))
  add('C05', 'prob_vector_{}'.format(a), wrapped, a=a, b='coef', how='function', shape=(2,))

# scales left out are linear
for n in (1, 2, 3):
  add('C05', 'prod_default_{}'.format(n), prodrule, kinds=('default',) * n)
  for o in ('log', 'coef', 'logoff'):
    add('C05', 'prod_default_{}_{}'.format(n, o), prodrule, kinds=('default',) * n, out=o)
