""" C25: steps and deltas of fields """
from checks.common import *
from checks.variables import mkset
from checks.rvs import kw
from symx.registry import add

NAMES = 'xyz'


def mkfield(cx, pb, n, cls='RF', kinds=None, form='cc', wide=False):
  """ variables with arbitrary limits, and the field of them """
  vs, lims = [], []
  for i in range(n):
    k = (kinds or ['float'] * n)[i]
    a = cx.real('a' + NAMES[i], -20., 0.)
    b = cx.real('b' + NAMES[i], 1., 20.)
    V = pb.Variable if cls == 'Field' else pb.RV
    if k == 'float':
      vs.append(V(NAMES[i], vset=mkset(form, a, b), vtype=float))
      lims.append((a, b))
    elif k == 'int':
      vs.append(V(NAMES[i], vset=range(-4, 7), vtype=int))
      lims.append((-4, 6))
    else:
      vs.append(V(NAMES[i], vtype=bool))
      lims.append((False, True))
  f = pb.Field(*vs) if cls == 'Field' else pb.SD(pb.RF(*vs)) if cls == 'SD' else pb.RF(*vs)
  return vs, lims, f


def length(cx, v, lims):
  return lims[1] - lims[0]


def undirected(cx, d, n):
  """ exclude the draw of no direction at all """
  k = cx.nrand
  us = np.ravel(np.asarray(cx.draw(-d, d, n), dtype=object))
  cx.nrand = k
  cx.assume(sum(u * u for u in us) > 1e-6)


def flat(x):
  """ the number in a possibly nested delta """
  while isinstance(x, (tuple, list)) or np.ndim(x):
    x = np.ravel(np.asarray(x, dtype=object))[0]
  return x


def deltas(cx, pb, n=2, how='scalar', scale=False, cls='RF', over=None, size=None):
  """ default deltas evaluated and applied to values """
  vs, lims, f = mkfield(cx, pb, n, cls)
  ds = [cx.real('d' + NAMES[i], 0.1, 3.) for i in range(n)]
  extra = {}
  if over is not None:                 # exempt from scaling
    extra = {NAMES[over]: cx.real('o', 0.1, 3.)}
  d = ds[0]
  lin = {i: (d if NAMES[i] not in extra else extra[NAMES[i]]) for i in range(n)}
  args = (extra,) if extra else ()
  kwds = {'scale': True} if scale else {}
  if how == 'scalar':
    f.set_delta(d, *args, **kwds)
  elif how == 'list':
    f.set_delta([d], *args, **kwds)
  elif how == 'dict':
    lin = dict(enumerate(ds))
    f.set_delta({NAMES[i]: ds[i] for i in reversed(range(n))}, **kwds)
  elif how == 'Delta':
    lin = dict(enumerate(ds))
    f.set_delta(f.Delta(**{NAMES[i]: ds[i] for i in range(n)}), **kwds)
  elif how == 'listdict':
    lin = dict(enumerate(ds))
    f.set_delta({NAMES[i]: [ds[i]] for i in range(n)}, **kwds)
  elif how == 'fun':
    lin = dict(enumerate(ds))
    f.set_delta(lambda: f.Delta(**{NAMES[i]: ds[i] for i in range(n)}))
  elif how == 'tuple':
    f.set_delta((d,))
  for i in range(n):
    if scale and NAMES[i] not in extra:
      lin[i] = lin[i] * length(cx, vs[i], lims[i])
  if size is None:
    vals = {NAMES[i]: cx.real('v{}'.format(i), -5., 5.) for i in range(n)}
  else:
    vals = {NAMES[i]: cx.reals('v{}_'.format(i), (size,), -5., 5.) for i in range(n)}
  if how == 'tuple':
    undirected(cx, d, n)
  ev = f.eval_delta()
  cx.same(tuple(ev._fields), tuple(NAMES[:n]), 'a delta for each variable')
  got = f.apply_delta(dict(vals), ev)
  cx.same(set(got.keys()), set(vals.keys()), 'variables')
  moved = []
  for i in range(n):
    e = flat(ev[i])
    if how in ('scalar', 'dict', 'Delta', 'fun'):
      cx.eq(e, lin[i], 'delta')
    elif how != 'tuple':
      cx.le(e, lin[i], 'delta at most')
      cx.le(-lin[i], e, 'delta at least')
    moved.append(e)
    new = np.asarray(got[NAMES[i]], dtype=object)
    old = np.asarray(vals[NAMES[i]], dtype=object)
    cx.same(new.shape, old.shape, 'shape')
    cx.eq(np.ravel(new), np.ravel(old) + e, 'values moved by the delta')
  if how == 'tuple':
    s = 0.
    for e in moved:
      s = s + e * e
    cx.eq(s, d * d, 'length of spherical delta')
    cx.true(any(bool(e != 0.) for e in moved), 'movement')


for h in ('scalar', 'list', 'dict', 'Delta', 'listdict', 'fun'):
  for c in ('RF', 'Field', 'SD'):
    add('C25', 'delta_{}_{}'.format(h, c), deltas, how=h, cls=c)
  add('C25', 'delta_{}_array'.format(h), deltas, how=h, size=2)
  if h != 'fun':
    add('C25', 'delta_{}_scaled'.format(h), deltas, how=h, scale=True)
  add('C25', 'delta_{}_three'.format(h), deltas, how=h, n=3)
  add('C25', 'delta_{}_single'.format(h), deltas, how=h, n=1)
for h in ('scalar', 'list'):
  for o in (0, 1):
    add('C25', 'delta_{}_except_{}'.format(h, o), deltas, how=h, scale=True, over=o)
  add('C25', 'delta_{}_except'.format(h), deltas, how=h, over=1)
for n in (1, 2, 3):
  add('C25', 'delta_sphere_{}'.format(n), deltas, how='tuple', n=n)
add('C25', 'delta_sphere_array', deltas, how='tuple', size=2)
add('C25', 'delta_sphere_field', deltas, how='tuple', cls='Field')


def explicit(cx, pb, how='Delta', cls='RF', n=2, default=False):
  """ a delta given to a step takes the place of the default """
  vs, lims, f = mkfield(cx, pb, n, cls)
  if default:
    f.set_delta(cx.real('def', 0.1, 3.))
  ds = [cx.real('d' + NAMES[i], -3., 3.) for i in range(n)]
  D = f.Delta(**{NAMES[i]: ds[i] for i in range(n)})
  vals = {NAMES[i]: cx.real('v{}'.format(i), -5., 5.) for i in range(n)}
  if how == 'Delta':
    got = f.apply_delta(dict(vals), f.eval_delta(D))
  elif how == 'apply':
    got = f.apply_delta(dict(vals), D)
  elif how == 'step':
    s = f.step(dict(vals), D)
    for k in vals:
      cx.eq(s[k], vals[k], 'predecessor')
    got = {k: s[k + "'"] for k in vals}
  for i in range(n):
    cx.eq(got[NAMES[i]], vals[NAMES[i]] + ds[i], 'moved by the delta given')


for h in ('Delta', 'apply', 'step'):
  for c in ('RF', 'SD') + (('Field',) if h != 'step' else ()):
    for d in (False, True):
      add('C25', 'explicit_{}_{}{}'.format(h, c, '_default' if d else ''), explicit, how=h, cls=c, default=d)


def bounded(cx, pb, n=2, how='scalar', form='cc', cls='RF'):
  """ bounded deltas keep every variable inside its set """
  vs, lims, f = mkfield(cx, pb, n, cls, form=form)
  d = cx.real('d', 0.1, 30.)
  f.set_delta({'scalar': d, 'list': [d], 'tuple': (d,)}[how], bound=True)
  vals = {}
  for i in range(n):
    v = cx.real('v{}'.format(i), -20., 20.)
    cx.assume(v > lims[i][0])
    cx.assume(v < lims[i][1])
    vals[NAMES[i]] = v
  if how == 'tuple':
    undirected(cx, d, n)
  ev = f.eval_delta()
  got = f.apply_delta(dict(vals), ev)
  for i in range(n):
    a, b = lims[i]
    e = flat(got[NAMES[i]])
    (cx.le if form[0] == 'c' else cx.lt)(a, e, 'lower limit')
    (cx.le if form[1] == 'c' else cx.lt)(e, b, 'upper limit')
    plain = vals[NAMES[i]] + flat(ev[i])
    if plain > a and plain < b:
      cx.eq(e, plain, 'plain step inside')


for fm in ('cc', 'oo', 'co', 'oc'):
  for h in ('scalar', 'list'):
    add('C25', 'bounded_{}_{}'.format(h, fm), bounded, how=h, form=fm, n=1 if h == 'list' else 2)
add('C25', 'bounded_list_two', bounded, how='list')
add('C25', 'bounded_sphere', bounded, how='tuple', n=1)
add('C25', 'bounded_field', bounded, cls='Field')


def linear(cx, pb, n=2, upper=False, arg='list'):
  """ deltas correlated by a triangular factor """
  vs, lims, f = mkfield(cx, pb, n)
  L = np.zeros((n, n), dtype=object if cx.symbolic else float)
  for i in range(n):
    for j in range(n):
      if (j <= i) if not upper else (j >= i):
        L[i, j] = cx.real('l{}{}'.format(i, j), -2., 2.)
  f.set_tfun(L)
  ds = [cx.real('d' + NAMES[i], 0.1, 3.) for i in range(n)]
  f.set_delta(f.Delta(**{NAMES[i]: ds[i] for i in range(n)}))
  ev = f.eval_delta()
  vals = {NAMES[i]: cx.real('v{}'.format(i), -5., 5.) for i in range(n)}
  got = f.apply_delta(dict(vals), ev)
  for i in range(n):
    want = sum(L[i, j] * ds[j] for j in range(n))
    cx.eq(flat(ev[i]), want, 'correlated delta')
    cx.eq(flat(got[NAMES[i]]), vals[NAMES[i]] + want, 'values')


for u in (False, True):
  for n in (2, 3):
    add('C25', 'correlated_{}_{}'.format('upper' if u else 'lower', n), linear, n=n, upper=u)


def stepping(cx, pb, how='default', n=2, ps='lin', size=None):
  """ successors from deltas, with the declared transition probability """
  vs, lims, f = mkfield(cx, pb, n)
  q = cx.uf('q', 0.05, 1., (0.1, 0.9))
  ks = list(NAMES[:n])

  def tran(**v):
    return q(*([v[k] for k in ks] + [v[k + "'"] for k in ks]))
  f.set_tran(tran)
  ds = [cx.real('d' + k, -3., 3.) for k in ks]
  vals = {k: cx.real('v' + k, -5., 5.) for k in ks}
  if how == 'default':
    f.set_delta(lambda: f.Delta(**dict(zip(ks, ds))))
    s = f.step(dict(vals))
  elif how == 'values':
    s = f.step(dict(vals), {k: vals[k] + e for k, e in zip(ks, ds)})
  elif how == 'pair':
    s = f.step((dict(vals), {k: vals[k] + e for k, e in zip(ks, ds)}))
  elif how == 'objects':
    s = f.step({v: vals[v.name] for v in vs}, {k: vals[k] + e for k, e in zip(ks, ds)})
  cx.same((set(s.marg), set(s.cond)), ({k + "'" for k in ks}, set(ks)), 'successors given predecessors')
  new = [vals[k] + e for k, e in zip(ks, ds)]
  for k, w in zip(ks, new):
    cx.eq(s[k], vals[k], 'predecessor')
    cx.eq(s[k + "'"], w, 'successor')
  cx.eq(s.prob, q(*([vals[k] for k in ks] + new)), 'transition probability')


for h in ('default', 'values', 'pair', 'objects'):
  for n in (1, 2, 3):
    add('C25', 'step_{}_{}'.format(h, n), stepping, how=h, n=n)


def sub(cx, pb, how='names', cls='RF'):
  """ part of a field """
  vs, lims, f = mkfield(cx, pb, 3, cls)
  if how == 'names':
    g = f.subfield(['z', 'x'])
  elif how == 'objects':
    g = f.subfield((vs[2], vs[0]))
  elif how == 'name':
    g = f.subfield('y')
  else:
    g = f.subfield(type(f)(vs[2], vs[0]))
  want = ['y'] if how == 'name' else ['z', 'x']
  cx.same(g.keylist, want, 'variables')
  cx.true(isinstance(g, type(f)), 'kind of field')
  cx.true(all(g.vars[k] is f.vars[k] for k in want), 'the very same variables')


for h in ('names', 'objects', 'name', 'field'):
  for c in ('RF', 'Field'):
    add('C25', 'subfield_{}_{}'.format(h, c), sub, how=h, cls=c)


def own(cx, pb, how='scalar', cls='RF', scale=False):
  """ fields of one variable take its own delta by default """
  vs, lims, f = mkfield(cx, pb, 1, cls)
  d = cx.real('d', 0.1, 3.)
  vs[0].set_delta([d] if how == 'list' else d, scale=scale)
  ev = f.eval_delta()
  v = cx.real('v', -5., 5.)
  got = f.apply_delta({'x': v}, ev)
  got = got['x'] if isinstance(got, dict) else got
  e = d * (lims[0][1] - lims[0][0]) if scale else d
  if how == 'scalar':
    cx.eq(got, v + e, 'moved')
  else:
    cx.le(got, v + e, 'moved at most')
    cx.le(v - e, got, 'moved at least')
    cx.eq(got, v + flat(ev), 'moved by the delta evaluated')


for h in ('scalar', 'list'):
  for c in ('RF', 'Field'):
    add('C25', 'own_{}_{}'.format(h, c), own, how=h, cls=c)
  add('C25', 'own_{}_scaled'.format(h), own, how=h, scale=True)


def part(cx, pb, who='roots', kw='bound', how='name', form='cc'):
  """ a dependence that proposes by its leafs or roots moves as they do """
  vs, lims, _ = mkfield(cx, pb, 2, form=form)
  s = vs[0] | vs[1]
  f = s.roots if who == 'roots' else s.leafs
  k, i = ('y', 1) if who == 'roots' else ('x', 0)
  d = cx.real('d', 0.1, 30.)
  f.set_delta(d, **{kw: True})
  s.set_delta(who if how == 'name' else f)
  a, b = lims[i]
  v = cx.real('v', -20., 20.)
  cx.assume(v > a)
  cx.assume(v < b)
  e = d * (b - a) if kw == 'scale' else d
  cx.true(s.prop_obj is f, 'what proposes')
  got = s.step({k: v})
  cx.same((set(got.marg), set(got.cond)), ({k + "'"}, {k}), 'successor given predecessor')
  cx.eq(got[k], v, 'predecessor')
  g = flat(got[k + "'"])
  if kw == 'bound':
    (cx.le if form[0] == 'c' else cx.lt)(a, g, 'lower limit')
    (cx.le if form[1] == 'c' else cx.lt)(g, b, 'upper limit')
    if v + e > a and v + e < b:
      cx.eq(g, v + e, 'plain step inside')
  else:
    cx.eq(g, v + e, 'moved')


for w in ('leafs', 'roots'):
  for h in ('name', 'object'):
    for k in ('bound', 'scale'):
      add('C25', 'part_{}_{}_{}'.format(w, h, k), part, who=w, kw=k, how=h)
  add('C25', 'part_{}_open'.format(w), part, who=w, form='oo')


def foreign(cx, pb, how='step', cls='RF'):
  """ names that are no member's: refused, except among predecessors """
  vs, lims, f = mkfield(cx, pb, 2, cls)
  x, y, w = cx.real('x', -5., 5.), cx.real('y', -5., 5.), cx.real('w', -5., 5.)
  if how == 'step':
    d = [cx.real('d' + k, -2., 2.) for k in 'xy']
    tr = cx.uf('tran', 0.1, 1.)
    f.set_tran(lambda **v: tr(v['x'], v['y'], v["x'"], v["y'"]))
    s = f.step({'x': x, 'w': w, 'y': y}, {'x': x + d[0], 'y': y + d[1]})
    cx.same((set(s.marg), set(s.cond)), ({"x'", "y'"}, {'x', 'y'}), 'successors given predecessors')
    for k, v, e in (('x', x, d[0]), ('y', y, d[1])):
      cx.eq(s[k], v, 'predecessor')
      cx.eq(s[k + "'"], v + e, 'successor')
    cx.eq(s.prob, tr(x, y, x + d[0], y + d[1]), 'transition probability')
  elif how == 'call':
    cx.raises(lambda: f({'x': x, 'w': w}), 'foreign name')
    cx.raises(lambda: f({'x': x, 'y': y, 'w': w}), 'foreign name')
    got = f({'y': y, 'x': x})
    cx.eq(got['x'], x, 'own value')
    cx.eq(got['y'], y, 'own value')
  else:
    cx.raises(lambda: f.evaluate({'w': w}), 'foreign name')
    cx.raises(lambda: f.evaluate({'x': x, 'y': y, 'w': w}), 'foreign name')
    vals, dims = f.evaluate({'y': y, 'x': x})
    cx.same((set(vals), set(dims)), ({'x', 'y'}, {'x', 'y'}), 'variables evaluated')
    cx.eq(vals['x'], x, 'own value')
    cx.eq(vals['y'], y, 'own value')


add('C25', 'foreign_step', foreign, how='step')
for h in ('call', 'evaluate'):
  for c in ('RF', 'Field'):
    add('C25', 'foreign_{}_{}'.format(h, c), foreign, how=h, cls=c)


def wrapped(cx, pb, how='order', n=2):
  """ a transition function that comes wrapped together with its mapping and further arguments """
  from probayes.func import Func
  vs, lims, f = mkfield(cx, pb, n)
  ks = list(NAMES[:n])
  q = cx.uf('q', 0.05, 1., (0.1, 0.9))
  c = cx.real('c', -2., 2.)
  vals = {k: cx.real('v' + k, -5., 5.) for k in ks}
  new = {k: vals[k] + cx.real('d' + k, -3., 3.) for k in ks}
  if how == 'order':  # successors reversed, then predecessors
    order = {k + "'": n - 1 - i for i, k in enumerate(ks)}
    order.update({k: n + i for i, k in enumerate(ks)})
    g = Func(lambda *a: q(*a), order=order)
    want = q(*([new[k] for k in ks[::-1]] + [vals[k] for k in ks]))
  elif how == 'kwds':
    g = Func(lambda c=0., **v: q(*([v[k] for k in ks] + [v[k + "'"] for k in ks] + [c])), c=c)
    want = q(*([vals[k] for k in ks] + [new[k] for k in ks] + [c]))
  elif how == 'args':
    g = Func(lambda c, **v: q(*([v[k] for k in ks] + [v[k + "'"] for k in ks] + [c])), c)
    want = q(*([vals[k] for k in ks] + [new[k] for k in ks] + [c]))
  elif how == 'order_kwds':
    order = {k + "'": n - 1 - i for i, k in enumerate(ks)}
    order.update({k: n + i for i, k in enumerate(ks)})
    g = Func(lambda *a, c=0.: q(*(list(a) + [c])), order=order, c=c)
    want = q(*([new[k] for k in ks[::-1]] + [vals[k] for k in ks] + [c]))
  else:
    g = Func(lambda *a: q(*a), delta={k + "'": n - 1 - i for i, k in enumerate(ks)})
    want = q(*[new[k] - vals[k] for k in ks[::-1]])
  f.set_tran(g)
  s = f.step(dict(vals), dict(new))
  for k in ks:
    cx.eq(s[k], vals[k], 'predecessor')
    cx.eq(s[k + "'"], new[k], 'successor')
  cx.eq(s.prob, want, 'transition probability')


for h in ('order', 'kwds', 'args', 'order_kwds', 'delta'):
  for n in (1, 2):
    add('C25', 'wrapped_{}_{}'.format(h, n), wrapped, how=h, n=n)
