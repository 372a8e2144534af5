""" C34: fields hold their variables by name; fields without probabilities evaluate their variables jointly """
from checks.common import *
from checks.variables import FORMS, mkset, spaced
from symx.registry import add

SETS = {'bool': (None, [False, True]), 'int': ([4, 1, 9], [4, 1, 9]), 'mem': ({7, -3}, [-3, 7])}


def mk(cx, pb, name, kind, cls='Variable'):
  """ a variable with its values if asked for all and as many as given """
  c = getattr(pb, cls)
  if kind in FORMS:
    a, b = cx.real('a' + name, -20., 20.), cx.real('b' + name, -20., 20.)
    cx.assume(b > a + 0.01)
    v = c(name, vset=mkset(kind, a, b), vtype=float)
    return v, None, lambda n: spaced(cx, a, b, n, kind), b - a
  vset, mem = SETS[kind]
  v = c(name, vtype=bool if kind == 'bool' else int, vset=vset) if vset is not None else c(name, vtype=bool)
  got = [e.item() if hasattr(e, 'item') else e for e in v.vset]
  cx.same(sorted(got), sorted(mem), 'members')
  return v, got, lambda n: [got[i % len(got)] for i in range(n)], len(got)


def refused(cx, f, label):
  try:
    f()
  except (AssertionError, TypeError, KeyError, ValueError):
    return
  cx.fail(label)


def mkfield(pb, cls, vs, how):
  C = getattr(pb, cls)
  if how == 'args':
    return C(*vs)
  if how == 'list':
    return C(list(vs))
  if how == 'tuple':
    return C(tuple(vs))
  if how == 'dict':
    return C(collections.OrderedDict((v.name, v) for v in vs))
  if how == 'field':
    return C(C(*vs))
  if how == 'grown':
    f = C(vs[0])
    for v in vs[1:]:
      f.add_var(v)
    return f
  if how == 'grownlist':
    f = C(vs[0])
    f.add_var(list(vs[1:]))
    return f
  if how == 'grownfield':
    f = C(vs[0])
    f.add_var(C(*vs[1:]))
    return f
  f = vs[0]
  for v in vs[1:]:
    f = f & v
  return f


HOWS = ('args', 'list', 'tuple', 'dict', 'field', 'grown', 'grownlist', 'grownfield', 'and')


def holds(cx, pb, how, names='yxz', kinds=('cc', 'int', 'oo'), cls='Field'):
  """ names, order, members, lengths and equality """
  rv = 'Variable' if cls == 'Field' else 'RV'
  ms = [mk(cx, pb, k, t, rv) for k, t in zip(names, kinds)]
  vs = [m[0] for m in ms]
  f = mkfield(pb, cls, vs, how)
  cx.same(type(f).__name__, cls, 'class')
  cx.same(list(f.keylist), list(names), 'names in order')
  cx.same(set(f.keyset), set(names), 'set of names')
  cx.same((f.nvars, len(f), f.name, bool(f)), (len(names), len(names), ','.join(names), True), 'number and name')
  cx.same([a is b for a, b in zip(f.varlist, vs)], [True] * len(names), 'variables in order')
  for i, (k, v) in enumerate(zip(names, vs)):
    cx.same((f[k] is v, f[i] is v, f[i - len(names)] is v, f.vars[k] is v), (True,) * 4, 'variable ' + k)
  cx.same(f['q'], None, 'no such variable')
  cx.same(bool(f.anyfloat), any(t in FORMS for t in kinds), 'any float')
  total = 0.
  for m in ms:
    total = total + m[3] * m[3]
  L = f.eval_length()
  cx.eq(L * L, total, 'length')
  cx.le(0., L, 'length')
  if cls == 'Field':
    cx.same(bool(f == pb.Field(*vs[::-1])), True, 'equality')
    cx.same(bool(f != pb.Field(*vs[::-1])), False, 'inequality')
    cx.same(bool(f == pb.Field(*vs[1:])), False, 'equality with fewer')
    cx.same(bool(f != pb.Field(*vs[1:])), True, 'inequality with fewer')
  # one variable of each name, and nothing else
  refused(cx, lambda: f.add_var(vs[-1]), 'variable added twice')
  refused(cx, lambda: f.add_var(getattr(pb, rv)(names[1], vtype=bool)), 'variable of an existing name added')
  refused(cx, lambda: f.add_var('w'), 'name added for a variable')
  refused(cx, lambda: f.add_var([vs[0], getattr(pb, rv)('w', vtype=bool)][:1]), 'existing variable added in a list')
  refused(cx, lambda: getattr(pb, cls)(vs[0], getattr(pb, rv)(names[0], vtype=bool)), 'two variables of one name')
  if cls == 'Field':
    refused(cx, lambda: pb.Field(vs[0], pb.RV('w', vtype=bool)), 'random variable in a field of variables')


for h in HOWS:
  add('C34', 'holds_' + h, holds, how=h)
  add('C34', 'holds_rf_' + h, holds, how=h, cls='RF')
  add('C34', 'holds_two_' + h, holds, how=h, names='ba', kinds=('co', 'bool'))


# what to ask of each variable: None (not mentioned), 'all' (None given), scalar, arrays of n, {n}
def evaluate(cx, pb, kinds, asks, names='yxz', how='dict', back=False, cls='Field'):
  """ values given or requested, one axis for each variable not a scalar """
  rv = 'Variable' if cls == 'Field' else 'RV'
  ms = [mk(cx, pb, k, t, rv) for k, t in zip(names, kinds)]
  f = getattr(pb, cls)(*[m[0] for m in ms])
  args, want = collections.OrderedDict(), {}
  for k, t, a, (v, mem, req, _) in zip(names, kinds, asks, ms):
    if a is None:
      want[k] = mem
      continue
    if a == 'all':
      args[k], want[k] = None, mem
    elif isinstance(a, set):
      args[k], want[k] = a, req(list(a)[0])
    else:
      given = [cx.real(k + str(i), -30., 30.) if t in FORMS else mem[cx.choose(len(mem))] for i in range(a or 1)]
      want[k] = given
      args[k] = given[0] if not a else np.array(given, dtype=object if t in FORMS and cx.symbolic else
                                                float if t in FORMS else bool if t == 'bool' else int)
  if back:
    args = collections.OrderedDict(reversed(list(args.items())))
  d = f(args) if how == 'dict' else f(**args) if how == 'kwds' else f({f[k]: q for k, q in args.items()}) if how == 'objects' else \
      f({'{},{}'.format(*names[:2]): tuple(args[k] for k in names[:2]), **{k: args[k] for k in names[2:] if k in args}})
  cx.same(set(d.keys()), set(names[:len(kinds)]), 'variables')
  axis, dims = 0, {}
  for i, (k, a) in enumerate(zip(names, asks)):   # one axis for those given jointly, next for each other that is not a scalar
    dims[k] = None if a == 0 else axis
    if how == 'joint' and i == 0:
      continue
    axis += 1 if any(e != 0 for e in (asks[:2] if how == 'joint' and i == 1 else [a])) else 0
  cx.same({k: None if d.dims[k] is None else int(d.dims[k]) for k in d.dims}, dims, 'axes')
  for k, a in zip(names, asks):
    got = np.ravel(np.asarray(d[k], dtype=object))
    cx.same(len(got), len(want[k]), 'number of values of ' + k)
    for g, w in zip(got, want[k]):
      cx.eq(g, w, 'value of ' + k)
    if dims[k] is not None and len(want[k]) > 1:
      cx.same(int(np.argmax(np.shape(d[k]))), dims[k], 'shape of ' + k)
  cx.same(hasattr(d, 'prob') and cls == 'Field', False, 'no probability')
  refused(cx, lambda: f({'q': 1}), 'unknown variable')


A = (0, 2, {2}, {3})
for x in A:
  for y in A:
    add('C34', 'values_{}_{}'.format(x, y), evaluate, kinds=('cc', 'int'), asks=(x, y))
    add('C34', 'values_back_{}_{}'.format(x, y), evaluate, kinds=('int', 'oc'), asks=(x, y), back=True)
for h in ('kwds', 'objects'):
  add('C34', 'values_' + h, evaluate, kinds=('bool', 'co', 'mem'), asks=(2, {3}, {4}), how=h, back=True)
for z in ((0, 2, 3), (2, 0, 2), (3, 2, 2), ({2}, 2, 'all'), (2, {1}, 'all')):
  add('C34', 'values3_' + '_'.join(str(e) for e in z), evaluate, kinds=('cc', 'bool', 'mem'), asks=z)
for z in ((2, 2), (2, 'all'), ('all', {3}), (None, None), (2, None), (None, 0)):
  add('C34', 'members_' + '_'.join(str(e) for e in z), evaluate, kinds=('mem', 'int'), asks=z)
for z in ((2, 2), (0, 2), (2, 0), (0, 0), ({2}, {2})):
  for c in ('Field', 'RF'):
    add('C34', 'joint_{}_{}'.format(c, '_'.join(str(e) for e in z)), evaluate, kinds=('cc', 'bool'), asks=z, how='joint', cls=c)
    for w in (0, 2):
      add('C34', 'joint_{}_{}_with_{}'.format(c, '_'.join(str(e) for e in z), w), evaluate, kinds=('bool', 'co', 'mem'), asks=z + (w,),
          how='joint', cls=c)
