""" C15: membership; C16: evaluation; C17: deltas and bounds; C18: transformed variables """
from checks.common import *
from symx.registry import add

# ----------------------------------------------------------------- variable sets
FORMS = {'cc': (0, 0), 'oc': (1, 0), 'co': (0, 1), 'oo': (1, 1)}


def mkset(form, a, b, how='list'):
  """ the documented spellings of a float variable set """
  oa, ob = FORMS[form]
  if how == 'tuple':
    return (a, b)
  if how == 'tuple_rev':
    return (b, a)
  v = [(a,) if oa else a, (b,) if ob else b]
  return v[::-1] if how == 'rev' else v


def mkvar(cx, pb, form, how='list', lo=-100., hi=100., cls='Variable', given=True, vname='x'):
  a = cx.real('a', lo, hi)
  b = cx.real('b', lo, hi)
  cx.assume(b > a + 0.01)
  kw = {'vtype': float} if given else {}
  return getattr(pb, cls)(vname, vset=mkset(form, a, b, how), **kw), a, b


def within(x, a, b, form):
  oa, ob = FORMS[form]
  return (x > a if oa else x >= a) and (x < b if ob else x <= b)


def near(cx, x, *lims):
  """ concrete replays stay clear of ties decided by rounding """
  if not cx.symbolic:
    for l in lims:
      cx.assume(x == l or abs(x - l) > 1e-9 * (1 + abs(l)))


def member(cx, pb, form, how='list', cls='Variable', given=True, size=None):
  v, a, b = mkvar(cx, pb, form, how, cls=cls, given=given)
  cx.same(v.vtype, float, 'variable type')
  cx.eq(np.asarray(v.vlims, dtype=object), np.array([a, b], dtype=object), 'limits')
  cx.eq(v.length, b - a, 'length')
  cx.eq(cx.exp(v.lhv), b - a, 'log length')
  if size is None:
    x = cx.real('x', -200., 200.)
    near(cx, x, a, b)
    cx.same(bool(v.inside(x)), bool(within(x, a, b, form)), 'membership of x')
    cx.same(bool(x in v), bool(within(x, a, b, form)), 'x in variable')
  else:
    x = cx.reals('x', (size,), -200., 200.)
    for e in x:
      near(cx, e, a, b)
    got = v.inside(x)
    cx.same(np.shape(got), (size,), 'shape')
    for i in range(size):
      cx.same(bool(got[i]), bool(within(x[i], a, b, form)), 'membership of x[{}]'.format(i))


for f in FORMS:
  for how in ('list', 'rev'):
    add('C15', 'float_{}_{}'.format(f, how), member, form=f, how=how)
    add('C15', 'float_{}_{}_untyped'.format(f, how), member, form=f, how=how, given=False)
  add('C15', 'float_{}_array'.format(f), member, form=f, size=2)
  add('C15', 'rv_{}'.format(f), member, form=f, cls='RV')
add('C15', 'float_tuple', member, form='oo', how='tuple')
add('C15', 'float_tuple_rev', member, form='oo', how='tuple_rev')
add('C15', 'float_tuple_array', member, form='oo', how='tuple_rev', size=2)


def infinite(cx, pb, form, which):
  import sympy
  a = cx.real('a', -100., 100.)
  oa, ob = FORMS[form]
  inf = sympy.oo
  lo, hi = (-inf if which in ('lo', 'both') else a), (inf if which in ('hi', 'both') else a)
  if which == 'default':
    v = pb.Variable('x', vtype=float)
    lo, hi = -inf, inf
  else:
    v = pb.Variable('x', vtype=float, vset=[(lo,) if oa else lo, (hi,) if ob else hi])
  x = cx.real('x', -200., 200.)
  near(cx, x, a)
  want = True
  if lo != -inf:
    want = bool(x > a if oa else x >= a)
  if hi != inf:
    want = bool(x < a if ob else x <= a)
  cx.same(bool(v.inside(x)), want, 'membership')
  cx.same(bool(v.isfinite), False, 'finite')


for f in FORMS:
  for w in ('lo', 'hi', 'both'):
    add('C15', 'inf_{}_{}'.format(f, w), infinite, form=f, which=w)
add('C15', 'inf_default', infinite, form='oo', which='default')

INTSETS = {'range': range(5), 'set': {7, -3, 2}, 'list': [4, 1, 9], 'array': np.array([5, 3, 8]),
           'sparse': [1000 * i for i in range(14)], 'wide': [0, 50, 10 ** 6, 10 ** 7],
           'default': None, 'one': [3]}


def intset(cx, pb, which, size=None, cls='Variable'):
  vs = INTSETS[which]
  vs = {k: k for k in vs} if isinstance(vs, dict) else vs
  arg = list(vs) if isinstance(vs, list) else vs
  v = getattr(pb, cls)('k', vtype=int, vset=arg) if vs is not None else \
      getattr(pb, cls)('k', vtype=int)
  members = [0, 1] if vs is None else [int(e) for e in vs]
  cx.same(sorted(v.vset), sorted(members), 'variable set')
  cx.same(v.length, len(members), 'length')
  cx.same(len(v), len(members), 'length')
  cx.eq(np.exp(float(v.lhv)), float(len(members)), 'log length')
  cx.same([int(e) for e in v.vlims], [min(members), max(members)], 'limits')
  lo, hi = min(members) - 2, max(members) + 2
  if size is None:
    x = cx.int('x', lo, hi)
    cx.same(bool(v.inside(x)), any(bool(x == m) for m in members), 'membership')
    return
  x = [cx.int('x%d' % i, lo, hi) for i in range(size)]
  arr = np.array(x, dtype=object if cx.symbolic else int)
  got = v.inside(arr)
  for i in range(size):
    cx.same(bool(got[i]), any(bool(x[i] == m) for m in members), 'membership of element %d' % i)


for w in INTSETS:
  add('C15', 'int_' + w, intset, which=w)
  add('C15', 'int_array_' + w, intset, which=w, size=2)
add('C15', 'int_rv', intset, which='set', cls='RV')
add('C15', 'int_array3', intset, which='list', size=3)
add('C15', 'int_array3_sparse', intset, which='sparse', size=3, thorough=True)


def boolset(cx, pb, cls='Variable', given=True):
  v = getattr(pb, cls)('b', vtype=bool) if given else getattr(pb, cls)('b')
  cx.same(v.vtype, bool, 'default variable type')
  cx.same(list(v.vset), [False, True], 'variable set')
  cx.same(v.length, 2, 'length')
  cx.same(len(v), 2, 'length')
  cx.eq(np.exp(float(v.lhv)), 2., 'log length')
  x = bool(cx.choose(2))
  cx.same(bool(v.inside(x)), True, 'membership')
  arr = np.array([bool(cx.choose(2)) for _ in range(3)])
  cx.same([bool(e) for e in v.inside(arr)], [True] * 3, 'membership of an array')


add('C15', 'bool', boolset)
add('C15', 'bool_default', boolset, given=False)
add('C15', 'bool_rv', boolset, cls='RV')


# -------------------------------------------------------------------- evaluation
def spaced(cx, a, b, n, form):
  """ n equally spaced points honouring the exclusions """
  oa, ob = FORMS[form]
  if not oa and not ob:
    if n == 1:
      return [(a + b) / 2]
    return [a + (b - a) * i / (n - 1) for i in range(n)]
  m = n - 1 + oa + ob
  return [a + (b - a) * (i + oa) / m for i in range(n)]


def evaluated(cx, pb, form, n, how='list', cls='Variable', call='evaluate'):
  v, a, b = mkvar(cx, pb, form, how, cls=cls)
  d = v.evaluate({n}) if call == 'evaluate' else v({n}) if call == 'call' else \
      v.evaluate({v.name: {n}})
  cx.same(list(d.keys()), ['x'], 'keys')
  got = d['x']
  if n > 0:
    got = np.asarray(got, dtype=object)
    cx.same(got.shape, (n,), 'number of values')
    if got.shape == (n,):
      for g, w in zip(got, spaced(cx, a, b, n, form)):
        cx.eq(g, w, 'equally spaced value')
  elif n == 0:
    cx.same(np.ndim(got), 0, 'a scalar')
    cx.le(a, got, 'lower limit')
    cx.le(got, b, 'upper limit')
  else:
    got = np.asarray(got, dtype=object)
    cx.same(got.shape, (-n,), 'number of values')
    for g in got.flat:
      cx.le(a, g, 'lower limit')
      cx.le(g, b, 'upper limit')


for f in FORMS:
  for n in (1, 2, 3, 5, 0, -1, -3):
    add('C16', 'float_{}_{}'.format(f, str(n).replace('-', 'm')), evaluated, form=f, n=n)
  add('C16', 'float_{}_rev'.format(f), evaluated, form=f, n=3, how='rev')
  add('C16', 'float_{}_dict'.format(f), evaluated, form=f, n=4, call='dict')
  for n in (7, 12, 20):
    add('C16', 'float_{}_{}_deep'.format(f, n), evaluated, form=f, n=n, thorough=True)
add('C16', 'float_tuple_rev', evaluated, form='oo', n=4, how='tuple_rev')
add('C16', 'float_tuple', evaluated, form='oo', n=1, how='tuple')
add('C16', 'float_call', evaluated, form='oc', n=4, call='call')


def scalar_default(cx, pb, form):
  v, a, b = mkvar(cx, pb, form)
  got = v.evaluate()['x']
  cx.same(np.ndim(got), 0, 'default evaluation of a float is one value')
  cx.le(a, got, 'lower limit')
  cx.le(got, b, 'upper limit')


def passed(cx, pb):
  v, a, b = mkvar(cx, pb, 'cc')
  x = cx.reals('x', (3,), -200., 200.)
  got = v.evaluate(x)['x']
  for g, w in zip(np.ravel(got), x):
    cx.eq(g, w, 'given values are kept')
  s = cx.real('s', -200., 200.)
  cx.eq(v.evaluate({'x': s})['x'], s, 'given scalar is kept')
  cx.eq(v(s)['x'], s, 'given scalar is kept')


def unbounded(cx, pb, n):
  import sympy
  a = cx.real('a', -100., 100.)
  v = pb.Variable('x', vtype=float, vset=[a, (sympy.oo,)])
  cx.raises(lambda: v.evaluate({n}), 'sampling an infinite range')


for f in FORMS:
  add('C16', 'default_' + f, scalar_default, form=f)
add('C16', 'given', passed)
for n in (3, 0, -2):
  add('C16', 'unbounded_' + str(n).replace('-', 'm'), unbounded, n=n)


def discrete(cx, pb, which, n, cls='Variable'):
  """ non-floats: serial, random member, balanced permutations """
  vs = INTSETS[which] if which != 'bool' else None
  if which == 'bool':
    v = getattr(pb, cls)('k', vtype=bool)
    members = [False, True]
  else:
    v = getattr(pb, cls)('k', vtype=int, vset=list(vs) if isinstance(vs, list) else vs)
    members = [int(e) for e in v.vset]
    cx.same(sorted(members), sorted(int(e) for e in vs), 'variable set')
  d = v.evaluate() if n is None else v.evaluate({n})
  got = d['k']
  if n is None:
    cx.same([e for e in got], members, 'the whole set')
    return
  if n == 0:
    cx.same(np.ndim(got), 0, 'a scalar')
    if cx.issym(got):
      cx.true(sum(1 for m in members if bool(got == m)) == 1, 'a member of the set')
    else:
      cx.true(got in members, 'a member of the set')
    return
  L = len(members)
  got = [e for e in got]
  cx.same(len(got), abs(n), 'number of values')
  if n > 0:
    cx.same(got, [members[i % L] for i in range(n)], 'values taken serially')
  else:
    counts = [got.count(m) for m in members]
    cx.same(sum(counts), -n, 'members of the set')
    cx.true(max(counts) - min(counts) <= 1, 'evenly drawn: {}'.format(counts))


for w in ('range', 'set', 'list', 'array', 'bool', 'one'):
  for n in (None, 0, 1, 2, 5, 7, -1, -4):
    add('C16', 'disc_{}_{}'.format(w, str(n).replace('-', 'm')), discrete, which=w, n=n)
add('C16', 'disc_rv', discrete, which='set', n=4, cls='RV')
add('C16', 'disc_rv_m', discrete, which='set', n=-5, cls='RV')
add('C16', 'disc_list_m6', discrete, which='list', n=-6, thorough=True)


# ------------------------------------------------------------ deltas and bounding
def start(cx, a, b, form, nm='x', size=None):
  """ a value (or array) inside the set """
  if size is None:
    x = cx.real(nm, -200., 200.)
    cx.assume(within(x, a, b, form))
    return x
  out = cx.reals(nm, (size,), -200., 200.)
  for e in out:
    cx.assume(within(e, a, b, form))
  return out


def dflt(v, how, d, **kw):
  v.set_delta({'scalar': d, 'list': [d], 'tuple': (d,), 'Delta': v.Delta(d)}[how], **kw)


def arg(v, how, d):
  return {'scalar': d, 'list': [d], 'tuple': (d,), 'Delta': v.Delta(d)}[how]


def moved(cx, x, y, d, how, label):
  """ y is x moved by delta d in the documented way """
  if how in ('scalar', 'Delta'):
    cx.eq(y, x + d, label)
  elif how == 'list':
    cx.le(y - x, abs(d), label + ' (upper)')
    cx.le(x - y, abs(d), label + ' (lower)')
  else:
    cx.true(bool(near_eq(cx, y, x + d)) or bool(near_eq(cx, y, x - d)), label)


def near_eq(cx, a, b):
  return a == b if cx.symbolic else abs(a - b) <= 1e-9 * (1 + abs(b))


def delta(cx, pb, how, given=True, scale=None, size=None, vt='float', cls='Variable', two=False,
          other=False):
  """ unbounded deltas """
  if vt == 'float':
    v, a, b = mkvar(cx, pb, 'cc', cls=cls)
    x = start(cx, a, b, 'cc', size=size)
    d = cx.real('d', -5., 5.)
    length = b - a
  else:
    v = getattr(pb, cls)('x', vtype=int, vset=[2, 3, 5, 9])
    x = cx.int('x', -20, 20) if size is None else \
        np.array([cx.int('x%d' % i, -20, 20) for i in range(size)],
                 dtype=object if cx.symbolic else int)
    d = cx.int('d', -3, 3)
    length = 4
  if how == 'list':
    cx.assume(d > 0)
  if other:                       # some other default is in place
    dflt(v, 'scalar', cx.real('d0', 0.5, 5.), scale=True)
  kw = {} if scale is None else {'scale': scale}
  if not given:
    dflt(v, how, d, **kw)
  D = arg(v, how, d) if given else None
  want = d * length if scale and not given else d
  if two:                         # evaluate first, then apply
    D = v.eval_delta(D)
    cx.true(isinstance(D, v.Delta), 'eval_delta returns a Delta')
    moved(cx, 0. * want, D[0], want, how, 'evaluated delta')
    y = v.apply_delta(x, D)
    cx.eq(y, x + D[0], 'applied delta')
    return
  y = v.apply_delta(x, D) if given else v.apply_delta(x)
  if size is None:
    cx.same(np.ndim(y), 0, 'a scalar')
    moved(cx, x, y, want, how, 'value after the delta')
  else:
    y = np.asarray(y, dtype=object)
    cx.same(y.shape, (size,), 'shape')
    for i in range(size):
      moved(cx, x[i], y[i], want, how, 'value %d after the delta' % i)
    if how == 'tuple' and size > 1:
      cx.eq(y[0] - x[0], y[1] - x[1], 'the same polarity throughout')


for how in ('scalar', 'list', 'tuple', 'Delta'):
  for vt in ('float', 'int'):
    add('C17', 'given_{}_{}'.format(how, vt), delta, how=how, vt=vt)
    add('C17', 'given_{}_{}_array'.format(how, vt), delta, how=how, vt=vt, size=2)
    add('C17', 'given_{}_{}_eval'.format(how, vt), delta, how=how, vt=vt, two=True)
    add('C17', 'default_{}_{}'.format(how, vt), delta, how=how, vt=vt, given=False)
    add('C17', 'default_{}_{}_array'.format(how, vt), delta, how=how, vt=vt, given=False, size=2)
    add('C17', 'default_{}_{}_eval'.format(how, vt), delta, how=how, vt=vt, given=False, two=True)
  add('C17', 'override_{}'.format(how), delta, how=how, other=True)
  add('C17', 'override_{}_eval'.format(how), delta, how=how, other=True, two=True)
  add('C17', 'scaled_{}'.format(how), delta, how=how, given=False, scale=True)
  add('C17', 'scaled_{}_array'.format(how), delta, how=how, given=False, scale=True, size=2)
  add('C17', 'scaled_{}_eval'.format(how), delta, how=how, given=False, scale=True, two=True)
  add('C17', 'unscaled_{}'.format(how), delta, how=how, given=False, scale=False)
  add('C17', 'rv_{}'.format(how), delta, how=how, given=False, scale=True, cls='RV')


def nodelta(cx, pb):
  v, a, b = mkvar(cx, pb, 'cc')
  x = start(cx, a, b, 'cc')
  cx.eq(v.apply_delta(x), x, 'no delta leaves the value')
  cx.same(v.eval_delta(), None, 'no delta')


def fundelta(cx, pb, size=None, ev=False):
  v, a, b = mkvar(cx, pb, 'cc')
  f = cx.uf('f', -100., 100.)
  x = start(cx, a, b, 'cc', size=size)
  v.set_delta(lambda z: cx.emap(f, z))
  y = v.apply_delta(x)
  cx.eq(np.asarray(y, dtype=object), np.asarray(cx.emap(f, x), dtype=object), 'callable delta')


add('C17', 'none', nodelta)
add('C17', 'callable', fundelta)
add('C17', 'callable_array', fundelta, size=2)


def bounded(cx, pb, form, how, size=None, given=False, scale=None, mode='arg', cls='Variable'):
  """ a bounded step from inside the set stays inside it, and is the plain step if that is inside """
  v, a, b = mkvar(cx, pb, form, cls=cls)
  x = start(cx, a, b, form, size=size)
  d = cx.real('d', -300., 300.)
  if how == 'list':
    cx.assume(d > 0)
  kw = {} if scale is None else {'scale': scale}
  length = (b - a) if scale and not given else 1.
  if not given:
    dflt(v, how, d, bound=(mode == 'default'), **kw)
    y = v.apply_delta(x) if mode == 'default' else v.apply_delta(x, bound=True)
  else:
    if mode == 'default':
      v.set_delta(1., bound=True)
    y = v.apply_delta(x, arg(v, how, d)) if mode == 'default' else \
        v.apply_delta(x, arg(v, how, d), bound=True)
  xs = [x] if size is None else list(x)
  ys = [y] if size is None else list(np.asarray(y, dtype=object))
  cx.same(len(ys), len(xs), 'number of values')
  for p, q in zip(xs, ys):
    if cx.symbolic:
      cx.true(within(q, a, b, form), 'stays inside the set')
    else:
      cx.true(within(q, a, b, form) or
              any(abs(q - l) < 1e-9 and not o for l, o in zip((a, b), FORMS[form])),
              'stays inside the set: {} in {}..{} {}'.format(q, a, b, form))
    if how in ('scalar', 'Delta'):
      t = p + d * length
      near(cx, t, a, b)
      if within(t, a, b, form):
        cx.eq(q, t, 'plain step when that is inside')
      elif form == 'cc' or (t > b and not FORMS[form][1]) or (t < a and not FORMS[form][0]):
        cx.eq(q, b if t > b else a, 'clamped at an inclusive limit') \
            if not (t > b and FORMS[form][1]) and not (t < a and FORMS[form][0]) else None
      else:
        cx.eq(q, p, 'stays put at an exclusive limit')
    else:
      moved_within(cx, p, q, d * length)


def moved_within(cx, p, q, d):
  cx.le(q - p, abs(d), 'moves no further than the delta')
  cx.le(p - q, abs(d), 'moves no further than the delta')


for f in FORMS:
  for how in ('scalar', 'list', 'tuple'):
    add('C17', 'bound_{}_{}'.format(f, how), bounded, form=f, how=how, mode='default')
    add('C17', 'bound_{}_{}_array'.format(f, how), bounded, form=f, how=how, size=2, mode='default')
    add('C17', 'bound_{}_{}_given'.format(f, how), bounded, form=f, how=how, given=True)
  add('C17', 'bound_{}_scaled'.format(f), bounded, form=f, how='scalar', scale=True)
  add('C17', 'bound_{}_array_given'.format(f), bounded, form=f, how='scalar', size=2, given=True)
  add('C17', 'bound_{}_rv'.format(f), bounded, form=f, how='list', cls='RV', mode='default')
  add('C17', 'bound_{}_array3'.format(f), bounded, form=f, how='scalar', size=3, thorough=True)


def bounded_int(cx, pb, how, size=None):
  v = pb.Variable('k', vtype=int, vset=range(2, 8))
  v.set_delta({'scalar': None, 'list': [1], 'tuple': (2,)}[how], bound=True)
  x = [cx.int('x%d' % i, 2, 7) for i in range(size or 1)]
  d = cx.int('d', -20, 20)
  X = x[0] if size is None else np.array(x, dtype=object if cx.symbolic else int)
  y = v.apply_delta(X, d, bound=True) if how == 'scalar' else v.apply_delta(X)
  ys = [y] if size is None else list(y)
  for p, q in zip(x, ys):
    cx.true(bool(v.inside(q)), 'stays inside the set')
    if how == 'scalar':
      t = p + d
      cx.eq(q, 2 if t < 2 else 7 if t > 7 else t, 'clamped step')
    else:
      moved_within(cx, p, q, 1 if how == 'list' else 2)


for how in ('scalar', 'list', 'tuple'):
  add('C17', 'bound_int_' + how, bounded_int, how=how)
  add('C17', 'bound_int_array_' + how, bounded_int, how=how, size=2)


def booldelta(cx, pb, how, size=None):
  v = pb.Variable('k', vtype=bool)
  n = size or 1
  x = [bool(cx.choose(2)) for _ in range(n)]
  X = x[0] if size is None else np.array(x)
  if how == 'flag':
    d = bool(cx.choose(2))
    y = v.apply_delta(X, d)
    ys = [y] if size is None else list(y)
    for p, q in zip(x, ys):
      cx.same(bool(q), p != d, 'toggled by a true delta only')
    cx.same([bool(e) for e in np.ravel(X)], x, 'argument unchanged')
    return
  p0 = cx.real('p', 0., 1.)
  y = v.apply_delta(X, [p0])
  cx.same([bool(e) for e in np.ravel(X)], x, 'argument unchanged')
  if how == 'never':
    cx.assume(p0 <= 0)
    cx.same([bool(e) for e in np.ravel(y)], x, 'a zero flip probability leaves the values')
  elif how == 'always':
    cx.assume(p0 >= 1)
    cx.same([bool(e) for e in np.ravel(y)], [not e for e in x], 'flip probability one flips all')
  for q in np.ravel(y):
    cx.true(bool(q) in (True, False), 'a boolean')


for n in (None, 2):
  add('C17', 'bool_flag_%s' % n, booldelta, how='flag', size=n)
add('C17', 'bool_never', booldelta, how='never', size=2)
add('C17', 'bool_always', booldelta, how='always', size=2)


def int_ends(cx, pb, how='default'):
  """ a list delta ranges over [-d, d] with both ends included """
  v = pb.Variable('k', vtype=int, vset=range(2, 8))
  d = cx.int('d', 1, 6)
  x = cx.int('x', 2, 7)
  if how == 'default':
    v.set_delta([d])
  got = []
  for e in ('lo', 'hi'):
    cx.extreme = e
    got.append((v.apply_delta(x) if how == 'default' else v.apply_delta(x, [d])) - x)
  cx.extreme = None
  lo, hi = (got[0], got[1]) if got[0] <= got[1] else (got[1], got[0])
  cx.eq(lo, -d, 'largest step down')
  cx.eq(hi, d, 'largest step up')


add('C17', 'int_ends', int_ends)
add('C17', 'int_ends_given', int_ends, how='given')


# ------------------------------------------------------------ transformed variables
def elem(cx, f):
  return lambda z, *a: cx.emap(lambda e: f(e, *a), z) if isinstance(z, (np.ndarray, list)) else f(z, *a)


def ufuns(cx, kind):
  """ (transform, inverse) """
  if kind == 'log':
    return np.log, np.exp
  if kind == 'exp':
    return np.exp, np.log
  if kind == 'any':
    return elem(cx, cx.uf('g', -50., 50., monotone=True)), elem(cx, cx.uf('h', -50., 50., monotone=True))
  if kind == 'neg':
    return elem(cx, lambda e: -3. * e), elem(cx, lambda e: e / -3.)
  if kind == 'shift':
    return (lambda z, k=0.: z + k), (lambda z, k=0.: z - k)
  return elem(cx, lambda e: 2. * e + 1.), elem(cx, lambda e: (e - 1.) / 2.)


def T(cx, kind, x, inv=False):
  if kind in ('log', 'exp'):
    return cx.logp(x) if (kind == 'log') != inv else cx.exp(x)
  return ufuns(cx, kind)[1 if inv else 0](x) if kind != 'any' else \
      cx.uf('h' if inv else 'g', -50., 50., monotone=True)(x)


def transformed(cx, pb, kind, form, n, how='list', cls='Variable', order='set_first'):
  lo, hi = (0.1, 50.) if kind == 'log' else (-20., 20.)
  v, a, b = mkvar(cx, pb, form, how, lo=lo, hi=hi, cls=cls)
  f = ufuns(cx, kind)
  v.set_ufun(f)
  ua, ub = T(cx, kind, a), T(cx, kind, b)
  if kind in ('log', 'exp'):
    cx.assume(ub > ua)            # both functions are increasing
  cx.eq(v.vlims[0], a, 'limits unchanged')
  cx.eq(v.vlims[1], b, 'limits unchanged')
  cx.eq(v.length, abs(ub - ua) if kind == 'neg' else ub - ua, 'length of the transformed range')
  if n is None:
    x = cx.real('x', lo, hi)
    near(cx, x, a, b)
    cx.same(bool(v.inside(x)), bool(within(x, a, b, form)), 'membership is of untransformed values')
    return
  got = v.evaluate({n})['x']
  if n > 0:
    got = np.asarray(got, dtype=object)
    cx.same(got.shape, (n,), 'number of values')
    for g, u in zip(got, spaced(cx, ua, ub, n, form)):
      if kind in ('log', 'exp'):
        cx.eq(T(cx, kind, g), u, 'equally spaced in the transformed space')
      else:
        cx.eq(g, T(cx, kind, u, True), 'equally spaced in the transformed space')
  else:
    gs = [got] if n == 0 else list(got)
    cx.same(len(gs), max(1, -n), 'number of values')
    if kind not in ('any', 'log'):
      for g in gs:
        if kind in ('log', 'exp'):
          g = T(cx, kind, g)
        cx.le(ua if kind in ('log', 'exp') else a, g, 'lower limit', atol=1e-6)
        cx.le(g, ub if kind in ('log', 'exp') else b, 'upper limit', atol=1e-6)


for k in ('log', 'exp', 'any', 'neg', 'lin'):
  for f in FORMS:
    add('C18', 'eval_{}_{}'.format(k, f), transformed, kind=k, form=f, n=3)
    add('C18', 'inside_{}_{}'.format(k, f), transformed, kind=k, form=f, n=None)
  add('C18', 'eval1_' + k, transformed, kind=k, form='cc', n=1)
  add('C18', 'eval_rev_' + k, transformed, kind=k, form='oc', n=2, how='rev')
  add('C18', 'random_' + k, transformed, kind=k, form='oo', n=-2)
  add('C18', 'random0_' + k, transformed, kind=k, form='co', n=0)
  add('C18', 'rv_' + k, transformed, kind=k, form='co', n=3, cls='RV')
  add('C18', 'eval6_' + k, transformed, kind=k, form='oc', n=6, thorough=True)


def tdelta(cx, pb, kind, form='cc', size=None, bound=False, how='scalar', given=True, scale=False):
  """ deltas are added in the transformed space """
  lo, hi = (0.1, 50.) if kind == 'log' else (-20., 20.)
  v, a, b = mkvar(cx, pb, form, lo=lo, hi=hi)
  v.set_ufun(ufuns(cx, kind))
  x = start(cx, a, b, form, size=size)
  d = cx.real('d', 0. if kind == 'exp' else -2., 2.)
  if given:
    y = v.apply_delta(x, d, bound=bound)
    w = d
  else:
    v.set_delta(d, scale=scale, bound=bound)
    y = v.apply_delta(x)
    w = d * abs(T(cx, kind, b) - T(cx, kind, a)) if scale else d
  xs = [x] if size is None else list(x)
  ys = [y] if size is None else list(y)
  cx.same(len(ys), len(xs), 'number of values')
  for p, q in zip(xs, ys):
    t = T(cx, kind, T(cx, kind, p) + w, True)
    if not bound:
      cx.eq(q, t, 'shifted in the transformed space')
      continue
    if cx.symbolic:
      cx.true(within(q, a, b, form), 'stays inside')
    near(cx, t, a, b)
    if within(t, a, b, form):
      cx.eq(q, t, 'shifted in the transformed space')


for k in ('log', 'exp', 'any', 'neg', 'lin'):
  add('C18', 'delta_' + k, tdelta, kind=k)
  add('C18', 'delta_array_' + k, tdelta, kind=k, size=2)
  add('C18', 'delta_default_' + k, tdelta, kind=k, given=False)
  add('C18', 'delta_scaled_' + k, tdelta, kind=k, given=False, scale=True)
  for f in FORMS:
    if k in ('neg', 'lin', 'any'):
      add('C18', 'delta_bound_{}_{}'.format(f, k), tdelta, kind=k, form=f, bound=True)
  add('C18', 'delta_bound_array_' + k, tdelta, kind=k, form='oc', bound=True, size=2,
      thorough=k in ('log', 'exp'))


def extra(cx, pb):
  """ optional arguments reach both functions """
  v, a, b = mkvar(cx, pb, 'cc', lo=-20., hi=20.)
  k = cx.real('k', -3., 3.)
  v.set_ufun(ufuns(cx, 'shift'), k=k)
  got = v.evaluate({2})['x']
  cx.eq(got[0], a, 'first')
  cx.eq(got[1], b, 'second')
  cx.eq(v.ulims[0], a + k, 'transformed limit')


add('C18', 'arguments', extra)


def refused(cx, pb, what):
  v = pb.Variable('k', vtype=int, vset=[1, 2]) if what == 'int' else \
      pb.Variable('x', vtype=float, vset=[1., 2.])
  bad = {'int': (np.log, np.exp), 'one': (np.log,), 'fun': np.log, 'num': (1., 2.)}[what]
  cx.raises(lambda: v.set_ufun(bad), 'transformation ' + what)


for w in ('int', 'one', 'fun', 'num'):
  add('C18', 'refused_' + w, refused, what=w)
