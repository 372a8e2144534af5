""" C01: the sum rule """
from checks.common import *
from symx.registry import add

# (key, kind, size, dim)
S = {
    'x2y3': [('x', 'm', 2, 0), ('y', 'm', 3, 1)],
    'y3x2_swapped': [('x', 'm', 2, 1), ('y', 'm', 3, 0)],
    'xyz': [('x', 'm', 2, 0), ('y', 'm', 2, 1), ('z', 'm', 2, 2)],
    'xyz_rot': [('x', 'm', 2, 2), ('y', 'm', 3, 0), ('z', 'm', 2, 1)],
    'xyz_rev': [('x', 'm', 2, 2), ('y', 'm', 3, 1), ('z', 'm', 2, 0)],
    'xy_c': [('x', 'm', 2, 0), ('y', 'm', 2, 1), ('c', 'c', 3, 2)],
    'xy_c_front': [('x', 'm', 2, 1), ('y', 'm', 2, 2), ('c', 'c', 2, 0)],
    'xy_cs': [('x', 'm', 2, 0), ('y', 'm', 3, 1), ('c', 'c', None, None)],
    'xys': [('x', 'm', 2, 0), ('s', 'm', None, None), ('y', 'm', 2, 1)],
    'shared_yz': [('x', 'm', 2, 0), ('y', 'm', 3, 1), ('z', 'm', 3, 1)],
    'shared_first': [('x', 'm', 3, 0), ('y', 'm', 3, 0), ('z', 'm', 2, 1)],
    'unit': [('x', 'm', 1, 0), ('y', 'm', 2, 1)],
    'wxyz': [('w', 'm', 2, 0), ('x', 'm', 2, 1), ('y', 'm', 2, 2), ('z', 'm', 2, 3)],
    'wxyz_perm': [('w', 'm', 2, 2), ('x', 'm', 2, 0), ('y', 'c', 2, 3), ('z', 'm', 2, 1)],
}


def marginalise(cx, pb, struct, keys, scale='lin', zeros=(), how='marginalise', arg=list):
  st = S[struct]
  if scale == 'symcoef':
    scale = cx.real('coef', 1e-3, 1e3, (0.3, 3.))
  elif scale == 'symoff':
    scale = cx.complex(cx.logp(cx.real('eoff', 1e-3, 1e3, (0.3, 3.))), 0.)
  pd, P = mkpd(cx, pb, st, scale, zeros=zeros)
  before = table(cx, pd, 'input')
  allm = [k for k, t, _, _ in st if t == 'm']
  cond = [k for k, t, _, _ in st if t == 'c']
  a = keys[0] if arg is str else arg(keys)
  if how == 'marginalise':
    res = pd.marginalise(a)
    keep = [k for k in allm if k not in keys]
  else:
    res = pd.marginal(a)
    keep = list(keys)
  names(cx, res, keep, cond)
  samescale(cx, res.pscale, pd.pscale)
  got = table(cx, res)
  want = project(before, set(keep) | set(cond))
  eqtable(cx, got, want, 'sum over the removed variables')
  eqtable(cx, table(cx, pd, 'operand'), before, 'operand unchanged')


for s in ('x2y3', 'y3x2_swapped', 'unit'):
  for sc in ('lin', 'coef', 'log', 'logoff', 'logneg'):
    for k in ('x', 'y'):
      add('C01', 'sum_{}_{}_{}'.format(s, sc, k), marginalise, struct=s, keys=[k], scale=sc, arg=str)
for s in ('xyz', 'xyz_rot', 'xyz_rev'):
  for ks in (['x'], ['y'], ['z'], ['x', 'y'], ['x', 'z'], ['z', 'y']):
    add('C01', 'sum_{}_{}'.format(s, ''.join(ks)), marginalise, struct=s, keys=ks,
        scale='lin' if len(ks) != 2 else 'log')
for s in ('xy_c', 'xy_c_front', 'xy_cs', 'xys'):
  for ks in (['x'], ['y'], ['x', 'y']):
    add('C01', 'sum_{}_{}'.format(s, ''.join(ks)), marginalise, struct=s, keys=ks, arg=tuple)
  add('C01', 'sum_{}_log'.format(s), marginalise, struct=s, keys=['y'], scale='logoff')
add('C01', 'sum_shared_yz_yz', marginalise, struct='shared_yz', keys=['y', 'z'])
add('C01', 'sum_shared_yz_x', marginalise, struct='shared_yz', keys=['x'])
add('C01', 'sum_shared_first_xy', marginalise, struct='shared_first', keys=['x', 'y'])
add('C01', 'sum_shared_first_z', marginalise, struct='shared_first', keys=['z'], scale='log')
for z in (0, 2, 5):
  add('C01', 'sum_zero_lin_%d' % z, marginalise, struct='x2y3', keys=['y'], zeros=(z,))
  add('C01', 'sum_zero_log_%d' % z, marginalise, struct='x2y3', keys=['x'], zeros=(z,), scale='log')
add('C01', 'sum_zero_row_log', marginalise, struct='x2y3', keys=['y'], zeros=(0, 1, 2), scale='log')
add('C01', 'sum_symcoef', marginalise, struct='x2y3', keys=['y'], scale='symcoef')
add('C01', 'sum_symoff', marginalise, struct='x2y3', keys=['x'], scale='symoff')
for s, ks in (('xyz', ['x']), ('xyz', ['z', 'x']), ('xyz_rot', ['y']), ('xyz_rot', ['x', 'z']),
              ('xy_c', ['y']), ('xy_c_front', ['x']), ('xy_cs', ['x']), ('xys', ['s', 'x']),
              ('xys', ['s', 'y']), ('shared_yz', ['y', 'z']), ('shared_yz', ['x']),
              ('shared_first', ['z']), ('shared_first', ['x', 'y']), ('unit', ['x']), ('unit', ['y'])):
  for sc in ('lin', 'log'):
    add('C01', 'marginal_{}_{}_{}'.format(s, ''.join(ks), sc), marginalise, struct=s, keys=ks,
        how='marginal', scale=sc)
for ks in (['w'], ['x'], ['y', 'w'], ['z', 'x'], ['w', 'x', 'z']):
  add('C01', 'sum_wxyz_' + ''.join(ks), marginalise, struct='wxyz', keys=ks, thorough=True)
  add('C01', 'sum_wxyz_log_' + ''.join(ks), marginalise, struct='wxyz', keys=ks, thorough=True,
      scale='logoff')
for ks in (['w'], ['x'], ['z', 'w'], ['z', 'x'], ['w', 'x', 'z']):
  add('C01', 'sum_wxyz_perm_' + ''.join(ks), marginalise, struct='wxyz_perm', keys=ks, thorough=True)


# a dimension shared with a variable that stays cannot be summed over: nothing wrong may come back
SQ = {'first': [('x', 'm', 3, 0), ('y', 'm', 3, 0), ('z', 'm', 3, 1)],
      'last': [('z', 'm', 3, 0), ('x', 'm', 3, 1), ('y', 'm', 3, 1)],
      'apart': [('x', 'm', 3, 1), ('z', 'm', 3, 0), ('y', 'm', 3, 1)],
      'cond': [('x', 'm', 3, 0), ('y', 'c', 3, 0), ('z', 'm', 3, 1)],
      'alone': [('x', 'm', 3, 0), ('y', 'm', 3, 0)]}


def paired(cx, pb, struct, keys, how='marginalise', scale='lin'):
  st = SQ[struct]
  pd, P = mkpd(cx, pb, st, scale)
  before = table(cx, pd, 'input')
  margs = [k for k, t, _, _ in st if t == 'm']
  cond = [k for k, t, _, _ in st if t == 'c']
  keep = [k for k in margs if (k in keys) == (how == 'marginal')]
  try:
    res = getattr(pd, how)(list(keys))
  except AssertionError:
    return
  if how == 'prod':
    return cx.fail('product along a dimension that other variables share')
  names(cx, res, keep, cond)
  eqtable(cx, table(cx, res), project(before, set(keep) | set(cond)), 'sum over the removed variables')


for s in SQ:
  for ks in ('x', 'y', 'xz', 'yz') if s not in ('cond', 'alone') else ('x',):
    for h in ('marginalise', 'marginal', 'prod'):
      add('C01' if h != 'prod' else 'C21', 'paired_{}_{}_{}'.format(s, ks, h), paired, struct=s, keys=ks, how=h)
