""" Builders and oracles shared by the scenarios """
import collections
import itertools
import math

import numpy as np

# A structure is a list of variables (key, kind, size, dim): kind 'm' marginal or
# 'c' conditional; size None for a singleton (dim None).
LOG = 0j
SCALES = {'lin': 1., 'coef': 2.5, 'log': 0j, 'logoff': complex(0.75, 0.),
          'logneg': complex(0.75, math.pi)}


def valsfor(key, size):
  """ distinct concrete values for a variable """
  base = 10. * (1 + 'abcdefghijklmnopqrstuvwxyz'.index(key[0].lower()))
  if size is None:
    return base + 0.5
  return np.array([base + i for i in range(size)])


def shape_of(struct):
  nd = 1 + max([d for _, _, _, d in struct if d is not None], default=-1)
  shp = [1] * nd
  for _, _, s, d in struct:
    if d is not None:
      shp[d] = s
  return tuple(shp)


def name_of(struct):
  m = ','.join(k for k, t, _, _ in struct if t == 'm')
  c = ','.join(k for k, t, _, _ in struct if t == 'c')
  return m + ('|' + c if c else '')


def mkpd(cx, pb, struct, scale='lin', prefix='p', zeros=(), vals=None, P=None, lo=None):
  """ a PD over struct with arbitrary probabilities; returns (pd, linear array/scalar) """
  pscale = SCALES[scale] if isinstance(scale, str) else scale
  vals = vals or {}
  od = collections.OrderedDict()
  dims = collections.OrderedDict()
  for k, _, s, d in struct:
    od[k] = vals.get(k, valsfor(k, s))
    dims[k] = d
  shp = shape_of(struct)
  if P is None:
    P = cx.probs(prefix, shp, zeros, lo=lo) if shp else cx.prob(prefix, zero=bool(zeros), lo=lo)
  prob = cx.stored(P, pscale)
  pd = pb.PD(name_of(struct), od, dims=dims, prob=prob, pscale=pscale)
  return pd, P


def _key(v):
  return v


def table(cx, pd, label='result'):
  """ {frozenset((key, value))} -> linear probability, for concrete-valued PDs.
  Also obliges the PD's own bookkeeping to be consistent. """
  keys = list(pd.keys())
  dims = pd.dims
  out = {}
  axes = [k for k in keys if dims[k] is not None]
  lin = cx.linear(pd.prob, pd.pscale)
  if not axes:
    if isinstance(lin, np.ndarray):
      if lin.size != 1:
        cx.fail('{}: singleton distribution with probability array {}'.format(label, lin.shape))
        return out
      lin = lin.reshape(-1)[0]
    out[frozenset((k, vkey(pd[k])) for k in keys)] = lin
    return out
  lin = np.asarray(lin, dtype=object)
  nd = lin.ndim
  for k in axes:
    n = np.size(pd[k])
    if dims[k] >= nd or lin.shape[dims[k]] != n:
      cx.fail('{}: {} values for {} on axis {} of probability shape {}'.format(
          label, n, k, dims[k], lin.shape))
      return out
  for i in np.ndindex(*lin.shape):
    a = []
    for k in keys:
      if dims[k] is None:
        a.append((k, vkey(pd[k])))
      else:
        a.append((k, vkey(np.ravel(pd[k])[i[dims[k]]])))
    fs = frozenset(a)
    if fs in out:
      cx.fail('{}: assignment {} occurs twice'.format(label, sorted(map(str, a))))
    out[fs] = lin[i]
  return out


def vkey(v):
  if isinstance(v, (set, frozenset)):
    return ('set',) + tuple(sorted(v))
  if isinstance(v, (np.ndarray,)) and v.ndim == 0:
    v = v[()]
  if isinstance(v, (int, float, np.number, np.bool_)):
    return float(v)
  return v


def project(t, keep):
  """ sum rule on a table """
  out = {}
  for a, p in t.items():
    b = frozenset((k, v) for k, v in a if k in keep)
    out[b] = out[b] + p if b in out else p
  return out


def eqtable(cx, got, want, label, atol=1e-9):
  """ tables agree on every assignment """
  if set(got) != set(want):
    cx.fail('{}: assignments differ: got {} want {}'.format(
        label, _show(set(got) - set(want)), _show(set(want) - set(got))))
    return
  for a in sorted(want, key=lambda s: sorted(map(str, s))):
    cx.eq(got[a], want[a], '{} at {}'.format(label, dict(sorted(a))), atol=atol)


def _show(s):
  return [dict(sorted(a, key=str)) for a in list(s)[:3]]


def names(cx, pd, marg, cond, label='result'):
  cx.same(set(pd.marg.keys()), set(marg), label + ' marginal variables')
  cx.same(set(pd.cond.keys()), set(cond), label + ' conditional variables')
  cx.same(set(pd.keys()), set(marg) | set(cond), label + ' variables')


def samescale(cx, a, b, label='scale'):
  cx.true(complex_eq(cx, a, b), '{}: {} vs {}'.format(label, a, b))


def complex_eq(cx, a, b):
  a = 1. if a is None else a
  b = 1. if b is None else b
  if cx.iscomplex(a) != cx.iscomplex(b):
    return False
  return bool(a == b)
