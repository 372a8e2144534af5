""" C31: functionals evaluate each output from its own inputs """
import networkx as nx
import sympy
from checks.common import *
from checks.exprs import Probe
from symx.registry import add


def graphs(cx, pb, kind, outs, inps):
  """ output and input vertices, and their graphs """
  if kind == 'sympy':
    go, gi = nx.Graph(), nx.Graph()
    vo, vi = [sympy.Symbol(k) for k in outs], [sympy.Symbol(k) for k in inps]
    go.add_nodes_from(vo)
    gi.add_nodes_from(vi)
    icon = lambda v: v
  else:
    vo, vi = [[pb.Variable(k, vtype=float) for k in ks] for ks in (outs, inps)]
    go, gi = [pb.Field(*v) for v in (vo, vi)]
    icon = lambda v: v[:]
  return vo, vi, go, gi, icon


def call(e, how, names, v):
  """ call with the values of names (those of the function) or of all """
  if how == 'args':
    return e(*[v[k] for k in names])
  if how == 'kwds':
    return e(**{k: v[k] for k in names})
  if how == 'dict':
    return e({k: v[k] for k in names})
  if how == 'all':
    return e(**v)
  return e(dict(v))


def key(how, vs):
  """ the ways to refer to outputs or inputs """
  if how == 'objects':
    return vs[0] if len(vs) == 1 else tuple(vs)
  if how == 'names':
    return ','.join(v.name for v in vs)
  return tuple(v.name for v in vs)


def iconic(cx, pb, kind='sympy', how='kwds', at='objects'):
  vo, vi, go, gi, icon = graphs(cx, pb, kind, 'abc', 'xyz')
  a, b, c = vo
  x, y, z = [icon(v) for v in vi]
  f = pb.Functional(go, gi)
  f.add_func(key(at, [a]), 2 * x + 1)
  f.add_func(key(at, [b]), x * y - 3 * y)
  f.add_func(key(at, [c]), z - 4)
  v = {k: cx.real(k, -5., 5.) for k in 'xyz'}
  X, Y, Z = (v[k] for k in 'xyz')
  get = lambda w: f[key(at, [w])]
  cx.eq(call(get(a), how, 'x', v), 2 * X + 1, 'first')
  cx.eq(call(get(b), how, 'xy', v), X * Y - 3 * Y, 'second')
  cx.eq(call(get(c), how, 'z', v), Z - 4, 'third')
  cx.same({tuple(sorted(k)): tuple(sorted(d)) for k, d in f.deps.items()},
          {('a',): ('x',), ('b',): ('x', 'y'), ('c',): ('z',)}, 'dependences')
  cx.same((len(f), f.ndeps, bool(f)), (3, 3, True), 'number')
  cx.true(f.isiconic, 'iconic')
  if kind == 'variables':
    cx.true(a.dexpr == 2 * x + 1 and a[:] == 2 * x + 1, 'expression of the output')


for k in ('sympy', 'variables'):
  for h in ('args', 'kwds', 'dict', 'all', 'alldict'):
    add('C31', 'iconic_{}_{}'.format(k, h), iconic, kind=k, how=h)
  for t in ('names', 'tuple'):
    add('C31', 'iconic_{}_{}'.format(k, t), iconic, kind=k, at=t)


def nested(cx, pb):
  """ outputs that depend on others stand for their own expressions """
  vo, vi, go, gi, icon = graphs(cx, pb, 'variables', 'ab', 'xy')
  a, b = vo
  f = pb.Functional(go, gi)
  f.add_func(a, vi[0][:] + 2 * vi[1][:])
  f.add_func(b, 3 * a[:] - vi[1][:])
  v = {k: cx.real(k, -5., 5.) for k in 'xy'}
  cx.eq(f[b](**v), 3 * (v['x'] + 2 * v['y']) - v['y'], 'nested')
  cx.same(sorted(f.deps[frozenset('b')]), ['x', 'y'], 'dependences')


add('C31', 'nested', nested)


def function(cx, pb, kind='sympy', how='all', at='objects', ins='one', multi=False, extra=None):
  """ functions of part of the inputs are not given the others """
  vo, vi, go, gi, icon = graphs(cx, pb, kind, 'uvw', 'abc')
  kw = {'c': cx.real('extra', -5., 5.)} if extra == 'func' else {}
  f = pb.Functional(go, gi)
  p, q = Probe(cx, key='p'), Probe(cx, key='q')
  n = 1 if ins == 'one' else 2
  outs = vo[:2] if multi else vo[:1]
  if multi and n == 2:
    spec = {outs[0]: vi[0], outs[1]: vi[1]}
  elif n == 1:
    spec = {(key(at, [w]) if at != 'tuple' else w): (key(at, vi[:1]) if at != 'tuple' else vi[0]) for w in outs}
  elif at == 'objects':
    spec = {outs[0]: tuple(vi[:2])}
  else:
    spec = {'u': 'a,b'}
  f.add_func(spec, p.named(), **kw)
  f.add_func({vo[2]: vi[2]}, q.named())
  v = {k: cx.real(k, -5., 5.) for k in ('ab' if extra else 'abc')}
  got = call(f[key(at, outs)], how, 'ab'[:n], v)
  want = {k: v[k] for k in 'ab'[:n]}
  want.update(kw)
  p.bound(want, 'call')
  cx.same(len(q.calls), 0, 'calls of the other function')
  cx.eq(got, p.ret, 'value')
  if not extra:
    cx.eq(call(f[vo[2]], how, 'c', v), q.ret, 'other value')
    q.bound({'c' if how != 'args' else 'a': v['c']}, 'other call')
  cx.true(not f.isiconic, 'not iconic')


for k in ('sympy', 'variables'):
  for h in ('args', 'kwds', 'dict', 'all', 'alldict'):
    for i in ('one', 'two'):
      add('C31', 'function_{}_{}_{}'.format(k, h, i), function, kind=k, how=h, ins=i)
      add('C31', 'function_{}_{}_{}_multi'.format(k, h, i), function, kind=k, how=h, ins=i, multi=True)
  for t in ('names', 'tuple'):
    add('C31', 'function_{}_{}'.format(k, t), function, kind=k, at=t)
  add('C31', 'function_{}_names_two'.format(k), function, kind=k, at='names', ins='two')


def defaulted(cx, pb, kind='sympy', what='kwds', how='kwds'):
  """ what is given with the functional goes to every one of its functions """
  vo, vi, go, gi, icon = graphs(cx, pb, kind, 'uv', 'bcd')
  z = cx.real('z', -5., 5.)
  f = pb.Functional(go, gi, **({'a': z} if what == 'kwds' else {})) if what == 'kwds' else pb.Functional(go, gi, z)
  p, q = Probe(cx, key='p'), Probe(cx, key='q')
  f.add_func({vo[0]: vi[0]}, p.named())
  f.add_func({vo[1]: (vi[0], vi[1])}, q.named())
  v = {k: cx.real(k, -5., 5.) for k in 'bcd'}
  for o, ks, r in ((vo[0], 'b', p), (vo[1], 'bc', q), (vo[0], 'b', p)):
    got = f[o](**(v if how == 'all' else {k: v[k] for k in ks}))
    r.bound({'a': z, **{k: v[k] for k in ks}}, 'call')
    cx.eq(got, r.ret, 'value')
  cx.same((len(p.calls), len(q.calls)), (0, 0), 'other calls')


for k in ('sympy', 'variables'):
  for w in ('kwds', 'args'):
    for h in ('kwds', 'all'):
      add('C31', 'defaulted_{}_{}_{}'.format(k, w, h), defaulted, kind=k, what=w, how=h)


def ordered(cx, pb, mapping=None):
  """ an order of one's own """
  vo, vi, go, gi, icon = graphs(cx, pb, 'variables', 'uv', 'xy')
  p = Probe(cx)
  f = pb.Functional(go, gi)
  f.add_func({vo[0]: vi[0], vo[1]: vi[1]}, p.named(), order=dict(mapping))
  v = {k: cx.real(k, -5., 5.) for k in 'xy'}
  got = f[tuple(vo)](**v)
  p.bound({'abc'[m] if type(m) is int else m: v[k] for k, m in mapping.items() if m is not None}, 'call')
  cx.eq(got, p.ret, 'value')


for m in ({'x': 0, 'y': 1}, {'x': 1, 'y': 0}, {'x': 'b', 'y': 'a'}, {'x': None, 'y': 0}):
  add('C31', 'ordered_' + ''.join('{}{}'.format(k, w) for k, w in m.items()), ordered, mapping=m)


def refused(cx, pb, what='twice'):
  vo, vi, go, gi, icon = graphs(cx, pb, 'variables', 'uv', 'xy')
  x, y = [v[:] for v in vi]
  f = pb.Functional(go, gi)
  f.add_func(vo[0], x + y)
  v = {k: cx.real(k, -5., 5.) for k in 'xy'}
  cx.eq(f[vo[0]](**v), v['x'] + v['y'], 'value')
  A = (AssertionError,)
  if what == 'twice':
    cx.raises(lambda: f.add_func(vo[0], x), 'an output declared twice', A)
  elif what == 'mixed':
    cx.raises(lambda: f.add_func({vo[1]: vi[1]}, lambda y: y), 'symbols and functions', A)
  elif what == 'several':
    cx.raises(lambda: f.add_func(tuple(vo), x), 'several outputs of one expression', A)
  elif what == 'output':
    cx.raises(lambda: f.add_func(vi[1], x), 'output not among outputs', A)
  elif what == 'input':
    cx.raises(lambda: f.add_func(vo[1], sympy.Symbol('q') + x), 'input not among inputs', A)
  elif what == 'unspecified':
    g = pb.Functional(go, gi)
    cx.raises(lambda: g.add_func(vo[1], lambda y: y), 'inputs not specified', A)
  elif what == 'unknown':
    cx.raises(lambda: f[vo[1]], 'output without function', (KeyError,))


for w in ('twice', 'mixed', 'several', 'output', 'input', 'unspecified', 'unknown'):
  add('C31', 'refused_' + w, refused, what=w)


def within(cx, pb, kind='sympy', how='all', iconic=False):
  """ outputs among the inputs: a function receives its own inputs only, whatever the values given """
  vo, vi, g, _, icon = graphs(cx, pb, kind, 'xyz', 'xyz')
  x, y, z = [icon(v) for v in vo]
  f = pb.Functional(g)
  p, q = Probe(cx), Probe(cx)
  v = {k: cx.real(k, -5., 5.) for k in 'xyz'}
  if iconic:
    f.add_func(vo[0], y * 2 - z)
    f.add_func(vo[1], z + 3)
    cx.eq(call(f[vo[0]], how, 'yz', v), v['y'] * 2 - v['z'], 'first')
    cx.eq(call(f[vo[1]], how, 'z', v), v['z'] + 3, 'second')
    return
  f.add_func({vo[0]: (vo[1], vo[2])}, lambda y, z: p.named()(a=y, b=z))
  f.add_func({vo[1]: vo[2]}, lambda z: q.named()(a=z))
  got = call(f[vo[0]], how, 'yz', v)
  p.bound({'a': v['y'], 'b': v['z']}, 'first')
  cx.eq(got, p.ret, 'value')
  got = call(f[vo[1]], how, 'z', v)
  q.bound({'a': v['z']}, 'second')
  cx.eq(got, q.ret, 'value')


for k in ('sympy', 'variables'):
  for h in ('kwds', 'dict', 'all', 'alldict'):
    add('C31', 'within_{}_{}'.format(k, h), within, kind=k, how=h)
    add('C31', 'within_iconic_{}_{}'.format(k, h), within, kind=k, how=h, iconic=True)
