""" C02: conditioning normalises; chain rule """
from checks.common import *
from symx.registry import add

S = {
    'x2y3': [('x', 'm', 2, 0), ('y', 'm', 3, 1)],
    'x2y3_swapped': [('x', 'm', 2, 1), ('y', 'm', 3, 0)],
    'xyz': [('x', 'm', 2, 0), ('y', 'm', 2, 1), ('z', 'm', 3, 2)],
    'xyz_rot': [('x', 'm', 2, 2), ('y', 'm', 3, 0), ('z', 'm', 2, 1)],
    'xyz_swap12': [('x', 'm', 2, 0), ('y', 'm', 3, 2), ('z', 'm', 2, 1)],
    'xy_c': [('x', 'm', 2, 0), ('y', 'm', 3, 1), ('c', 'c', 2, 2)],
    'xy_c_front': [('x', 'm', 2, 1), ('y', 'm', 3, 2), ('c', 'c', 2, 0)],
    'xy_c_mid': [('x', 'm', 2, 0), ('c', 'c', 3, 1), ('y', 'm', 2, 2)],
    'xy_cs': [('x', 'm', 2, 0), ('y', 'm', 3, 1), ('c', 'c', None, None)],
    'xs': [('x', 'm', 3, 0), ('s', 'm', None, None)],
    'xys': [('x', 'm', 2, 0), ('s', 'm', None, None), ('y', 'm', 2, 1)],
    'xs_c': [('x', 'm', 2, 0), ('s', 'm', None, None), ('c', 'c', 2, 1)],
    'shared_yz': [('x', 'm', 2, 0), ('y', 'm', 3, 1), ('z', 'm', 3, 1)],
    'shared_first': [('x', 'm', 3, 0), ('y', 'm', 3, 0), ('z', 'm', 2, 1)],
    'one': [('x', 'm', 3, 0)],
    'allsing': [('x', 'm', None, None), ('y', 'm', None, None)],
    'sing_c': [('x', 'm', None, None), ('y', 'm', None, None), ('c', 'c', 2, 0)],
    'wxyz': [('w', 'm', 2, 0), ('x', 'm', 2, 1), ('y', 'm', 2, 2), ('z', 'm', 2, 3)],
    'wxyz_perm': [('w', 'm', 2, 2), ('x', 'm', 2, 0), ('y', 'c', 2, 3), ('z', 'm', 2, 1)],
}


def cond_table(before, marg_left, conds):
  """ definition: each entry over the total of its conditioning event """
  tot = project(before, set(conds))
  out = {}
  for a, p in before.items():
    b = frozenset((k, v) for k, v in a if k in conds)
    out[a] = p / tot[b]
  return out


def conditionalise(cx, pb, struct, keys, scale='lin', zeros=(), arg=list):
  st = S[struct]
  pd, P = mkpd(cx, pb, st, scale, zeros=zeros)
  before = table(cx, pd, 'input')
  allm = [k for k, t, _, _ in st if t == 'm']
  cond = [k for k, t, _, _ in st if t == 'c']
  left = [k for k in allm if k not in keys]
  conds = cond + list(keys)
  tot = project(before, set(conds))
  for b, t in tot.items():
    cx.assume(t > 0)
  res = pd.conditionalise(keys[0] if arg is str else arg(keys))
  names(cx, res, left, conds)
  samescale(cx, res.pscale, pd.pscale)
  got = table(cx, res)
  eqtable(cx, got, cond_table(before, left, conds), 'conditional')
  # every conditioning event now carries total mass one
  for b, t in project(got, set(conds)).items():
    cx.eq(t, 1., 'mass given {}'.format(dict(sorted(b))))
  eqtable(cx, table(cx, pd, 'operand'), before, 'operand unchanged')


def chain(cx, pb, struct, keys, scale='lin'):
  """ P(A|K,B) P(K|B) = P(A,K|B) through the package's own product """
  st = S[struct]
  pd, P = mkpd(cx, pb, st, scale)
  before = table(cx, pd, 'input')
  c = pd.conditionalise(list(keys))
  m = pd.marginal(list(keys))
  for prod in (c * m, m * c):
    eqtable(cx, table(cx, prod, 'product'), before, 'chain rule')


def zero_event(cx, pb, scale):
  """ an impossible conditioning event yields zeros, never NaN """
  st = S['x2y3']
  P = cx.probs('p', (2, 3))
  for i in range(2):
    P[i, 1] = 0.
  pd, _ = mkpd(cx, pb, st, scale, P=P)
  res = pd.conditionalise('y')
  for a, p in table(cx, res).items():
    d = dict(a)
    if d['y'] == valsfor('y', 3)[1]:
      cx.eq(p, 0., 'impossible event')
    else:
      q = table(cx, pd)
      cx.eq(p * project(q, {'y'})[frozenset([('y', d['y'])])], q[a], 'possible event')


for s in ('x2y3', 'x2y3_swapped'):
  for sc in ('lin', 'coef', 'log', 'logoff', 'logneg'):
    for k in ('x', 'y'):
      add('C02', 'cond_{}_{}_{}'.format(s, sc, k), conditionalise, struct=s, keys=[k], scale=sc, arg=str)
for s in ('xyz', 'xyz_rot', 'xyz_swap12'):
  for ks in (['x'], ['y'], ['z'], ['x', 'y'], ['x', 'z'], ['z', 'y']):
    add('C02', 'cond_{}_{}'.format(s, ''.join(ks)), conditionalise, struct=s, keys=ks,
        scale='lin' if len(ks) != 2 else 'log')
for s in ('xy_c', 'xy_c_front', 'xy_c_mid', 'xy_cs'):
  for k in ('x', 'y'):
    add('C02', 'cond_{}_{}'.format(s, k), conditionalise, struct=s, keys=[k])
  add('C02', 'cond_{}_log'.format(s), conditionalise, struct=s, keys=['y'], scale='log')
for sc in ('lin', 'coef', 'log', 'logoff'):
  add('C02', 'cond_xs_' + sc, conditionalise, struct='xs', keys=['s'], scale=sc)
  add('C02', 'cond_xys_' + sc, conditionalise, struct='xys', keys=['s'], scale=sc)
add('C02', 'cond_xys_sy', conditionalise, struct='xys', keys=['s', 'y'])
add('C02', 'cond_xys_sx_log', conditionalise, struct='xys', keys=['s', 'x'], scale='log')
for sc in ('lin', 'coef', 'log', 'logoff'):
  add('C02', 'cond_allsing_' + sc, conditionalise, struct='allsing', keys=['y'], scale=sc)
  add('C02', 'cond_sing_c_' + sc, conditionalise, struct='sing_c', keys=['y'], scale=sc)
add('C02', 'cond_xs_c', conditionalise, struct='xs_c', keys=['s'])
for sc in ('lin', 'log'):
  add('C02', 'cond_shared_x_' + sc, conditionalise, struct='shared_yz', keys=['x'], scale=sc)
  add('C02', 'cond_shared_yz_' + sc, conditionalise, struct='shared_yz', keys=['y', 'z'], scale=sc)
  add('C02', 'cond_shared_first_z_' + sc, conditionalise, struct='shared_first', keys=['z'], scale=sc)
  add('C02', 'cond_shared_first_xy_' + sc, conditionalise, struct='shared_first', keys=['x', 'y'], scale=sc)
  for z in (0, 4):
    add('C02', 'cond_zero_%d_%s' % (z, sc), conditionalise, struct='x2y3', keys=['x'], zeros=(z,), scale=sc)
  add('C02', 'zero_event_' + sc, zero_event, scale=sc)
  for s, ks in (('x2y3', 'x'), ('x2y3', 'y'), ('xyz', 'y'), ('xyz', 'xz'), ('xy_c', 'x'),
                ('xy_cs', 'y'), ('xyz_rot', 'x')):
    add('C02', 'chain_{}_{}_{}'.format(s, ks, sc), chain, struct=s, keys=list(ks), scale=sc)
for ks in ('w', 'x', 'yw', 'zx', 'wxz'):
  for sc in ('lin', 'logoff'):
    add('C02', 'cond_wxyz_{}_{}'.format(ks, sc), conditionalise, struct='wxyz', keys=list(ks),
        scale=sc, thorough=True)
    if 'y' not in ks:
      add('C02', 'cond_wxyz_perm_{}_{}'.format(ks, sc), conditionalise, struct='wxyz_perm',
          keys=list(ks), scale=sc, thorough=True)
