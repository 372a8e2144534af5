""" C26, C27, C28: Markov chain samplers """
from checks.common import *
from checks.rvs import PS, kw, pscale_of
from checks.fields import vec
from symx.registry import add


def density(cx, name, sc, lo=0.05):
  """ an arbitrary density f and a function returning its values on a scale """
  f = cx.uf(name, lo, 1., (0.1, 0.9))
  return f, lambda *a: cx.stored(f(*a), sc)


class Chain:
  """ a process over one or two variables with arbitrary density and moves """

  def __init__(self, cx, pb, ps='lin', two=False, tran='const', scores='metropolis', early=False, update=None,
               delta='fun', vps=None):
    self.cx, self.two = cx, two
    sc = pscale_of(ps)
    x = pb.RV('x', vset=[-50., 50.], vtype=float, **kw(vps or 'lin'))
    if two:
      y = pb.RV('y', vset=[-50., 50.], vtype=float)
      p = pb.SP(x & y)
    else:
      p = pb.SP(x)
    self.p = p
    if early:                            # scores declared before the scale is
      p.set_scores(scores)
    self.f, g = density(cx, 'f', sc)
    p.set_prob(vec(cx, g) if not two else g, order={'x': 0, 'y': 1} if two else {'x': 0}, **kw(ps))
    self.nq, self.qs, self.rs = 0, [], []
    lq, self.q = cx.uf('q', 0.05, 1., (0.1, 0.9)), None
    lr = cx.uf('r', 0.05, 1., (0.1, 0.9))

    def args(v):
      return (v['x'], v["x'"]) + ((v['y'], v["y'"]) if two else ())

    def qf(**v):
      return cx.stored(lq(*args(v)), sc)

    def rf(**v):
      return cx.stored(lr(*args(v)), sc)
    if tran == 'const':                  # never called through uf: fewer paths
      lq = lambda *a: 0.5
    self.q, self.r = lq, lr
    self.tran = tran
    p.set_tran((qf, rf) if tran == 'pair' else qf)
    self.moves = []
    D = lambda: p.Delta(**self.move())
    if delta == 'fun':
      p.set_delta(D)
    if not early and scores:
      p.set_scores(scores)
    if update:
      p.set_update(update)

  def move(self):
    n = len(self.moves)
    d = {k: self.cx.real('d{}{}'.format(k, n), -3., 3.) for k in ('xy' if self.two else 'x')}
    self.moves.append(d)
    return d

  def start(self):
    return {k: self.cx.real('s' + k, -5., 5.) for k in ('xy' if self.two else 'x')}

  def at(self, s):
    return self.f(*[s[k] for k in ('xy' if self.two else 'x')])

  def pair(self, fun, a, b):
    out = []
    for k in ('xy' if self.two else 'x'):
      out += [a[k], b[k]]
    return fun(*out)

  def ratio(self, a, b):
    r = self.at(b) / self.at(a)
    if self.hast:
      r = r * self.pair(self.r, a, b) / self.pair(self.q, a, b)
    return r

  @property
  def hast(self):
    return self.tran == 'pair'


def values(cx, d, s, label, suffix=''):
  for k, v in s.items():
    cx.eq(d[k + suffix], v, label + ' of ' + k)


def score(cx, pb, ps='lin', scores='metropolis', tran='one', early=False, two=False):
  """ one step from a to b """
  c = Chain(cx, pb, ps, tran=tran, scores=scores, early=early, two=two)
  p = c.p
  a, b = c.start(), {k: cx.real('e' + k, -5., 5.) for k in ('xy' if two else 'x')}
  o, s = p(a), p(b)
  q = p.step(a, b)
  r = p.reval_tran(q) if tran == 'pair' else None
  cx.eq(cx.linear(q.prob, q.pscale), c.pair(c.q, a, b), 'proposal probability')
  if r is not None:
    cx.eq(cx.linear(r.prob, r.pscale), c.pair(c.r, a, b), 'reverse proposal probability')
    values(cx, r, a, 'predecessor')
    values(cx, r, b, 'successor', "'")
    cx.same((sorted(r.marg), sorted(r.cond)), (sorted(a), sorted(k + "'" for k in a)), 'reversed conditioning')
  got = p.eval_expr(p.scores, p.opqr(o, s, q, r))
  want = c.ratio(a, b)
  if want >= 1.:
    cx.eq(got, 1., 'certain acceptance')
  else:
    cx.eq(got, want, 'acceptance probability')
  cx.true(p.eval_expr(p.scores, p.opqr(None, s, q, r)) is None, 'no score without predecessor')


for s in PS:
  for e in (False, True):
    add('C26', 'score_{}{}'.format(s, '_early' if e else ''), score, ps=s, early=e)
    add('C27', 'symmetric_{}{}'.format(s, '_early' if e else ''), score, ps=s, early=e, scores='hastings')
    add('C27', 'score_{}{}'.format(s, '_early' if e else ''), score, ps=s, early=e, scores='hastings', tran='pair')
  add('C26', 'score2_{}'.format(s), score, ps=s, two=True)
  add('C27', 'score2_{}'.format(s), score, ps=s, two=True, scores='hastings', tran='pair')


def zeros(cx, pb, ps='lin', scores='metropolis', which=(0, 1)):
  """ impossible predecessors or successors """
  sc = pscale_of(ps)
  x = pb.RV('x', vset=[-50., 50.], vtype=float)
  p = pb.SP(x)
  f = cx.prob('f', lo=0.05)
  vals = [cx.stored(f, sc), cx.stored(0., sc)]
  p.set_prob(lambda e: vals[1] if e > 0. else vals[0], order={'x': 0}, **kw(ps))
  p.set_tran(lambda **v: cx.stored(.5, sc))
  p.set_scores(scores)
  st = [cx.real('a', -5., -1.), cx.real('b', 1., 5.)]
  o, s = p({'x': st[which[0]]}), p({'x': st[which[1]]})
  q = p.step({'x': st[which[0]]}, {'x': st[which[1]]})
  got = p.eval_expr(p.scores, p.opqr(o, s, q, None))
  cx.eq(got, 0. if which[1] else 1., 'acceptance of {}'.format('impossible' if which[1] else 'possible'))


for s in ('lin', 'log'):
  for sc in ('metropolis', 'hastings'):
    pid = 'C26' if sc == 'metropolis' else 'C27'
    add(pid, 'impossible_successor_' + s, zeros, ps=s, scores=sc)
    add(pid, 'impossible_predecessor_' + s, zeros, ps=s, scores=sc, which=(1, 0))


def accept(cx, pb, which='metropolis'):
  """ acceptance if and only if the score reaches the threshold """
  p = pb.SP(pb.RV('x', vset=[-50., 50.], vtype=float))
  p.set_update(which)
  s, t = cx.real('s', 0., 1.), cx.real('t', 0., 1.)
  got = p.eval_expr(p.update, p.stuv(s, t, None, None))
  if s >= t:
    cx.true(got is True, 'accepted')
  else:
    cx.true(not got, 'rejected')
  cx.true(p.eval_expr(p.update, p.stuv(None, t, None, None)) is True, 'unscored proposals accepted')


def thresh(cx, pb, which='metropolis'):
  p = pb.SP(pb.RV('x', vset=[-50., 50.], vtype=float))
  p.set_thresh(which)
  u = cx.draw(0., 1., None)
  cx.nrand -= 1
  t = p.eval_expr(p.thresh)
  cx.eq(t, u, 'threshold uniform over the unit interval')
  cx.true(p.update is not None, 'updates follow')


for w in ('metropolis', 'hastings'):
  pid = 'C26' if w == 'metropolis' else 'C27'
  add(pid, 'accept', accept, which=w)
  add(pid, 'threshold', thresh, which=w)


def chain(cx, pb, ps='lin', n=3, scores='metropolis', tran='one', two=False, walk=True):
  """ every recorded step """
  c = Chain(cx, pb, ps, tran=tran, scores=scores, two=two)
  p = c.p
  cur = c.start()
  sampler = p.sampler(dict(cur), stop=n)
  samples = list(p.walk(sampler)) if walk else [e for e in sampler]
  cx.same(len(samples), n, 'number of samples')
  cx.same(len(c.moves), n, 'number of moves')
  accepted = False
  for i, s in enumerate(samples):
    new = {k: cur[k] + c.moves[i][k] for k in cur}
    values(cx, s.q, cur, 'predecessor')
    values(cx, s.q, new, 'proposal', "'")
    values(cx, s.p, new, 'evaluated value')
    cx.eq(cx.linear(s.p.prob, s.p.pscale), c.at(new), 'probability of proposal')
    if not accepted:
      cx.true(s.o is None, 'no predecessor at first')
      cx.true(s.s is None, 'no score at first')
      ok = True
    else:
      values(cx, s.o, cur, 'predecessor')
      cx.eq(cx.linear(s.o.prob, s.o.pscale), c.at(cur), 'probability of predecessor')
      r = c.ratio(cur, new)
      cx.eq(s.s, 1. if r >= 1. else r, 'score')
      ok = bool(s.s >= s.t)
    cx.true(s.t >= 0., 'threshold')
    cx.true(s.t < 1., 'threshold')
    cx.true(bool(s.u) == ok, 'decision')
    if ok:
      cur, accepted = new, True
    values(cx, s.v, cur, 'state')
    cx.eq(cx.linear(s.v.prob, s.v.pscale), c.at(cur), 'probability of state')


for s in PS:
  add('C26', 'chain_{}'.format(s), chain, ps=s, n=3)
  add('C27', 'chain_{}'.format(s), chain, ps=s, n=2, scores='hastings', tran='pair')
  add('C27', 'chain_sym_{}'.format(s), chain, ps=s, n=3, scores='hastings')
add('C26', 'chain2', chain, n=3, two=True)
add('C26', 'chain2_log', chain, n=2, two=True, ps='log')
add('C26', 'chain_iter', chain, n=3, walk=False)
add('C26', 'chain4', chain, n=4)
add('C27', 'chain2', chain, n=2, two=True, scores='hastings', tran='pair')
add('C26', 'chain5', chain, n=5, thorough=True)
add('C26', 'chain4_log', chain, n=4, ps='log', thorough=True)
add('C27', 'chain3', chain, n=3, scores='hastings', tran='pair', thorough=True)


# C28 -------------------------------------------------------------------------

def pieces(cx, pb, stops=(2, 1), ps='lin'):
  """ an endless sampler walked in pieces is one chain """
  c = Chain(cx, pb, ps, scores=None)
  c.p.set_update(lambda stu: True)
  s = c.p.sampler(c.start())
  cur, i = None, 0
  for k in stops:
    got = c.p.walk(s, stop=k)
    cx.same(len(got), k, 'number of samples')
    for e in got:
      if cur is not None:
        values(cx, e.q, cur, 'predecessor')
      cur = {k: e.q[k + "'"] for k in c.moves[i]}
      i += 1
    cx.same(len(c.moves), i, 'number of moves made')
    cx.same(c.p.get_counter(s), i, 'counter')
    values(cx, c.p.get_last(s).q, cur, 'last proposal', "'")
  e = next(s)
  values(cx, e.q, cur, 'predecessor of next')


for st in ((1,), (2,), (2, 1), (1, 1, 1), (3, 2)):
  add('C28', 'pieces_' + '_'.join(map(str, st)), pieces, stops=st)
add('C28', 'pieces_log', pieces, stops=(2, 2), ps='log')


def stopped(cx, pb, n=3, stop=None, how='kwd'):
  """ a sampler with a stop yields that many samples """
  c = Chain(cx, pb, scores=None)
  c.p.set_update(lambda stu: True)
  s = c.p.sampler(c.start(), stop=n)
  got = c.p.walk(s, stop=stop) if how == 'walk' else [e for e in s] if how == 'kwd' else c.p.walk(s)
  cx.same(len(got), min(n, stop or n), 'number of samples')
  cx.same(len(c.moves), len(got), 'number of moves')
  if how != 'walk':
    cx.same(len(list(s)), 0, 'nothing further')
    cx.same(c.p.get_counter(s), 0, 'counter reset')
    cx.true(c.p.get_last(s) is None, 'state reset')


for n in (0, 1, 3):
  add('C28', 'stop_{}'.format(n), stopped, n=n)
  add('C28', 'stop_walk_{}'.format(n), stopped, n=n, how='all')
for n, m in ((3, 2), (2, 3), (3, 3), (1, 1)):
  add('C28', 'stop_{}_of_{}'.format(m, n), stopped, n=n, stop=m, how='walk')


def interleaved(cx, pb, order='ABAB', ps='lin', full=False):
  """ samplers of one process do not disturb each other """
  c = Chain(cx, pb, ps, scores=None)
  upd = {}
  c.p.set_update(lambda stu: upd['u'])
  st = {k: {'x': cx.real('s' + k, -5., 5.)} for k in 'AB'}
  sm = {k: c.p.sampler(st[k]) for k in 'AB'}
  cur, first, n, last = dict(st), {'A': True, 'B': True}, {'A': 0, 'B': 0}, {}
  for i, k in enumerate(order):
    upd['u'] = [True, None, False][cx.choose(3 if len(order) < 4 or full else 2) if i < len(order) - 1 else 0]
    e = next(sm[k])
    n[k] += 1
    values(cx, e.q, cur[k], 'predecessor')
    new = {'x': cur[k]['x'] + c.moves[i]['x']}
    values(cx, e.q, new, 'successor', "'")
    if first[k]:
      cx.true(e.o is None, 'no predecessor')
    else:
      cx.eq(cx.linear(e.o.prob, e.o.pscale), c.at(cur[k]), 'probability of predecessor')
    cx.eq(cx.linear(e.p.prob, e.p.pscale), c.at(new), 'probability of successor')
    cx.true(e.u is upd['u'], 'update')
    if upd['u'] or first[k]:
      cur[k], first[k] = new, False
    cx.eq(cx.linear(e.v.prob, e.v.pscale), c.at(cur[k]), 'probability of state')
    values(cx, e.v, cur[k], 'state')
    for j in 'AB':
      cx.same(c.p.get_counter(sm[j]), n[j], 'counters')
      if first[j]:
        cx.true(c.p.get_last(sm[j]) is None, 'last')
      else:
        values(cx, c.p.get_last(sm[j]).p, cur[j], 'last')
  cx.same([e is sm[j] for e, j in zip(c.p.get_sampler(), 'AB')], [True] * 2, 'samplers in order')
  cx.same([c.p.get_sampler(i) is sm[j] for i, j in enumerate('AB')], [True] * 2, 'samplers by number')
  for i, j in enumerate('AB'):
    cx.same((c.p.get_counter()[sm[j]], c.p.get_counter(i)), (n[j], n[j]), 'all counters')
    cx.same(c.p.get_last(i) is c.p.get_last()[sm[j]], True, 'all last states')


for o in ('A', 'AA', 'AAA', 'ABA', 'ABAB', 'AABB', 'ABBA'):
  add('C28', 'interleaved_' + o, interleaved, order=o)
add('C28', 'interleaved_log', interleaved, order='ABA', ps='log')
for o in ('AAAA', 'ABAB', 'AABB', 'ABBA', 'ABBAA'):
  add('C28', 'interleaved_full_' + o, interleaved, order=o, full=True, thorough=True)


def resetting(cx, pb, how='all', by='sampler'):
  c = Chain(cx, pb, scores=None)
  c.p.set_update(lambda stu: True)
  st = c.start()
  s = c.p.sampler(st)
  a = [next(s), next(s)]
  c.p.reset(0 if by == 'index' else s, **({} if how == 'all' else {'reset_last': False}))
  cx.same(c.p.get_counter(s), 0, 'counter')
  e = next(s)
  cx.same(c.p.get_counter(s), 1, 'counter')
  if how == 'all':
    values(cx, e.q, st, 'predecessor after reset')
    cx.true(e.o is None, 'no predecessor after reset')
  else:
    values(cx, e.q, {'x': a[1].q["x'"]}, 'predecessor kept')


for h in ('all', 'counter'):
  for b in ('sampler', 'index'):
    add('C28', 'reset_{}_{}'.format(h, b), resetting, how=h, by=b)


def summary(cx, pb, n=3, ps='lin', kinds=(True, False, None)):
  """ summaries keep every sample not refused """
  c = Chain(cx, pb, ps, scores=None)
  c.p.set_scores(lambda opqr: cx.linear(opqr.p.prob, opqr.p.pscale))
  us = []
  c.p.set_thresh(lambda: cx.real('t{}'.format(len(us)), 0., 1.))

  def upd(stu):
    us.append(kinds[cx.choose(len(kinds))])
    return us[-1]
  c.p.set_update(upd)
  samples = c.p.walk(c.p.sampler(c.start(), stop=n))
  keep = [e for e in samples if e.u is not False]
  r = c.p(samples)
  cx.same(r.u, [e.u for e in keep], 'updates')
  for fld in 'st':
    want = [getattr(e, fld) for e in keep if getattr(e, fld) is not None]
    got = getattr(r, fld) or []
    cx.same(len(got), len(want), 'number of ' + fld)
    for g, w in zip(got, want):
      cx.eq(g, w, fld)
  for fld in 'opqv':
    ds = [getattr(e, fld) for e in keep if getattr(e, fld) is not None]
    got = getattr(r, fld)
    if not ds:
      cx.true(got is None, 'nothing for ' + fld)
      continue
    cx.eq(np.ravel(np.asarray(got.prob, dtype=object)), np.array([e.prob for e in ds], dtype=object), fld + ' probabilities')
    cx.same(set(got.keys()), set(ds[0].keys()), fld + ' variables')
    for k in got.keys():
      if np.size(got[k]) != len(ds):      # one value common to all samples
        v = np.ravel(np.asarray(got[k], dtype=object))[0]
        cx.eq(np.array([v] * len(ds), dtype=object), np.array([e[k] for e in ds], dtype=object), fld + ' values')
      else:
        cx.eq(np.ravel(np.asarray(got[k], dtype=object)), np.array([e[k] for e in ds], dtype=object), fld + ' values')


for n in (1, 2, 3):
  add('C28', 'summary_{}'.format(n), summary, n=n)
add('C28', 'summary_log', summary, n=2, ps='log')
add('C28', 'summary_kept', summary, n=3, kinds=(True, None))
add('C28', 'summary_4', summary, n=4, thorough=True)


def posterior(cx, pb, n=2, ps='lin', given=1, cond=True, container=list):
  """ summaries of joint samples, conditional on what the field is about """
  sc = pscale_of(ps)
  x, m = pb.RV('x', [-9., 9.], vtype=float), pb.RV('m', [-2., 2.], vtype=float)
  p = pb.SP(pb.RF(x), pb.RF(m))
  f, g = density(cx, 'f', sc)
  p.set_prob(lambda x, m: g(x, m), **kw(ps))
  X = cx.real('x', -3., 3.)
  us = [cx.draw(0., 1., None) for _ in range(n)]
  cx.nrand -= n
  s = list(p.sampler({'m': {0}, 'x': X}, stop=n, joint=True))
  M = [-2. + 4. * u for u in us]
  w = [f(X, e) / 4. for e in M]
  cx.same(len(s), n, 'number of samples')
  for e, a, b in zip(s, M, w):
    cx.eq(e['m'], a, 'value')
    cx.eq(cx.linear(e.prob, e.pscale), b, 'joint probability')
  d = p(container(s), **({'conditionalise': cond} if cond is not None else {}))
  cx.same((set(d.marg), set(d.cond)), (({'m'}, {'x'}) if cond else ({'m', 'x'}, set())), 'marginal and conditional')
  tot = sum(w[1:], w[0]) if cond else 1.
  q = np.ravel(np.asarray(cx.linear(d.prob, d.pscale), dtype=object))
  cx.same(len(q), n, 'number of probabilities')
  for i in range(n):
    cx.eq(np.ravel(d['m'])[i], M[i], 'value in the summary')
    cx.eq(np.ravel(d['x'])[i], X, 'value in the summary')
    cx.eq(q[i] * tot, w[i], 'probability in the summary')


for s in ('lin', 'log', 'coef'):
  add('C28', 'posterior_' + s, posterior, ps=s)
  add('C28', 'posterior_joint_' + s, posterior, ps=s, cond=False)
for c in (tuple, collections.deque):
  add('C28', 'posterior_' + c.__name__, posterior, n=3, container=c)
  add('C28', 'posterior_joint_' + c.__name__, posterior, n=3, container=c, cond=None)


def plain(cx, pb, how='int', n=2):
  """ processes without proposals sample their distribution """
  x = pb.RV('x', vset=[-2., 5.], vtype=float)
  p = pb.SP(x)
  f, g = density(cx, 'f', 1.)
  p.set_prob(vec(cx, g), order={'x': 0})
  if how == 'int':
    s = p.sampler(n)
  elif how == 'kwd':
    s = p.sampler({0}, stop=n)
  elif how == 'empty':
    s = p.sampler()
  else:
    s = p.sampler({'x': {0}}, stop=n)
  us = [cx.draw(0., 1., None) for _ in range(n)]
  cx.nrand -= n
  got = [next(s) for _ in range(n)] if how == 'empty' else list(s)
  cx.same(len(got), n, 'number of samples')
  for e, u in zip(got, us):
    cx.eq(e['x'], -2. + 7. * u, 'uniformly sampled')
    cx.eq(e.prob, f(e['x']), 'probability')
  r = p(got)
  cx.eq(np.ravel(np.asarray(r['x'], dtype=object)), np.array([e['x'] for e in got], dtype=object), 'summary values')
  cx.eq(np.ravel(np.asarray(r.prob, dtype=object)), np.array([e.prob for e in got], dtype=object), 'summary probabilities')


for h in ('int', 'kwd', 'empty', 'dict'):
  add('C28', 'plain_' + h, plain, how=h)


def rejection(cx, pb, n=2, ps='lin', suffix=True):
  """ proposals independent of each other """
  sc = pscale_of(ps)
  x, y = pb.RV('x', vset=[-2., 5.], vtype=float), pb.RV('y', vset=[0., 1.], vtype=float)
  p = pb.SP(x & y)
  f, g = density(cx, 'f', sc)
  q, h = density(cx, 'q', sc)
  p.set_prob(lambda x, y: g(x, y), **kw(ps))
  p.set_prop(lambda x, y: h(x, y))
  hi = cx.real('hi', 0.5, 2.)
  p.set_scores(lambda opqr: cx.linear(opqr.p.prob, opqr.p.pscale))
  p.set_thresh(np.random.uniform, low=0., high=hi)
  p.set_update(lambda stu: stu.s >= stu.t)
  got = list(p.sampler({0}, stop=n, **({} if suffix else {'suffix': False})))
  cx.same(len(got), n, 'number of samples')
  for e in got:
    for k in 'xy':
      cx.eq(e.p[k], e.q[k + ("'" if suffix else '')], 'values evaluated are the values proposed')
    cx.eq(cx.linear(e.p.prob, e.p.pscale), f(e.p['x'], e.p['y']), 'probability')
    cx.eq(cx.linear(e.q.prob, e.q.pscale), q(e.p['x'], e.p['y']), 'proposal probability')
    cx.true(e.o is None, 'no predecessor')
    cx.true(e.r is None, 'no reverse')
    cx.le(0., e.t, 'threshold')
    cx.le(e.t, hi, 'threshold')
    cx.eq(e.s, f(e.p['x'], e.p['y']), 'score')
    if e.s >= e.t:
      cx.true(bool(e.u), 'accepted')
      cx.eq(cx.linear(e.v.prob, e.v.pscale), f(e.p['x'], e.p['y']), 'state')
    else:
      cx.true(e.u is not None and not e.u, 'refused')


for s in ('lin', 'log', 'coef'):
  add('C28', 'rejection_' + s, rejection, ps=s)
add('C28', 'rejection_3', rejection, n=3)
add('C28', 'rejection_unprimed', rejection, suffix=False)


def bayes(cx, pb, ps='log', rs='lin', n=2, nobs=2, scores='metropolis', tran='const', delegate='roots', given=None):
  """ chains over the parameters of a model given data """
  from checks.deps import likelihood
  from checks.fields import mkvar
  sc = pscale_of(ps)
  m = mkvar(cx, pb, 'm', 'fun', rs, None)
  z = mkvar(cx, pb, 'z', 'fun', 'lin', nobs)
  f, g = likelihood(cx, 'L', 'zm', sc)
  roots = pb.RF(m.var)
  p = pb.SP(pb.RF(z.var), roots)
  p.set_prob(g, **kw(ps))
  lq, lr = (lambda *a: 0.5, None) if tran == 'const' else (cx.uf('q', 0.05, 1., (0.1, 0.9)), cx.uf('r', 0.05, 1., (0.1, 0.9)))
  rsc = pscale_of(rs)
  q = lambda m, m_: cx.stored(lq(m, m_), rsc)
  r = lambda m, m_: cx.stored(lr(m, m_), rsc)
  order = {'m': 0, "m'": 1}
  if tran == 'const':
    roots.set_tran(q, order=order)
  else:
    roots.set_tran((q, r), order=order)
  moves = []

  def delta():
    moves.append(cx.real('d{}'.format(len(moves)), -1., 1.))
    return roots.Delta(m=moves[-1])
  roots.set_delta(delta)
  how = delegate if delegate == 'roots' else roots
  p.set_tran(how)
  p.set_delta(how)
  p.set_scores(scores)
  start = cx.real('s', -5., 5.)
  got = p.walk(p.sampler({m.var: start}, {z.var: z.arg}, stop=n, iid=True, joint=True))
  cx.same(len(got), n, 'number of samples')

  def post(e):
    v = m.lin(e)
    for o in z.vals:
      v = v * f(z=o, m=e)
    return v
  cur = start
  for i, e in enumerate(got):
    new = cur + moves[i]
    cx.eq(e.q['m'], cur, 'predecessor')
    cx.eq(e.q["m'"], new, 'proposal')
    cx.eq(e.p['m'], new, 'parameter')
    cx.eq(cx.linear(e.p.prob, e.p.pscale), post(new), 'unnormalised posterior')
    ok = True
    if i:
      ratio = post(new) / post(cur)
      if tran == 'pair':
        ratio = ratio * lr(cur, new) / lq(cur, new)
      cx.eq(e.s, 1. if ratio >= 1. else ratio, 'score')
      ok = bool(e.s >= e.t)
    cx.true(bool(e.u) == ok, 'decision')
    cur = new if ok else cur
    cx.eq(e.v['m'], cur, 'state')
    cx.eq(cx.linear(e.v.prob, e.v.pscale), post(cur), 'probability of state')
  if given is None:
    return
  r = p(got, conditionalise=given)       # the samples weighted by their probabilities
  for fld in 'opv':
    ds = [getattr(e, fld) for e in got if getattr(e, fld) is not None]
    d = getattr(r, fld)
    if not ds:
      cx.true(d is None, 'nothing for ' + fld)
      continue
    cx.same((set(d.marg), set(d.cond)), (({'m'}, {'z'}) if given else ({'m', 'z'}, set())), 'variables of ' + fld)
    w = [cx.linear(e.prob, e.pscale) for e in ds]
    t = sum(w[1:], w[0]) if given else 1.
    q = np.ravel(np.asarray(cx.linear(d.prob, d.pscale), dtype=object))
    cx.same(len(q), len(ds), 'samples in ' + fld)
    for a, b, e in zip(q, w, ds):
      cx.eq(a * t, b, 'weights of ' + fld)
    for a, e in zip(np.ravel(np.asarray(d['m'], dtype=object)), ds):
      cx.eq(a, e['m'], 'values of ' + fld)


for s in ('one', 'log', 'logoff', 'coef'):
  for t in ('lin', 'log', 'coef', 'logoff'):
    add('C26', 'bayes_{}_{}'.format(s, t), bayes, ps=s, rs=t)
  add('C27', 'bayes_{}'.format(s), bayes, ps=s, scores='hastings', tran='pair')
add('C27', 'bayes_mixed', bayes, ps='log', rs='coef', scores='hastings', tran='pair')
add('C26', 'bayes_field', bayes, delegate='field')
add('C26', 'bayes_single', bayes, nobs=1)
add('C26', 'bayes_3', bayes, n=3, thorough=True)
add('C27', 'bayes_3', bayes, n=3, nobs=1, scores='hastings', tran='pair', thorough=True)


# ------------------------------------- C27: the transitions of a lone variable
def unitary(cx, pb, which='bool', how='matrix', ps='lin', kind='asym', scores='hastings'):
  """ acceptance corrects for the transition declared for the variable of a process of one variable """
  from checks.trans import matrix, mkdisc, members_of, pick
  sc = pscale_of(ps)
  conv = (lambda a: a) if cx.symbolic else (lambda a: np.asarray(a, dtype=float))
  if how == 'pair':
    v = pb.RV('k', vset=[-50., 50.], vtype=float, **kw(ps))
    lq, lr = cx.uf('q', 0.05, 1., (0.1, 0.9)), cx.uf('r', 0.05, 1., (0.1, 0.9))
    v.set_tran((lambda **w: cx.stored(lq(w['k'], w["k'"]), sc), lambda **w: cx.stored(lr(w['k'], w["k'"]), sc)))
    a, b = cx.real('a', -5., 5.), cx.real('b', -5., 5.)
    fwd, rev = lq(a, b), lr(a, b)
    lf = cx.uf('f', 0.05, 1., (0.1, 0.9))
    fa, fb = lf(a), lf(b)
  else:
    v = mkdisc(pb, which, **kw(ps))
    M = members_of(which)
    t = matrix(cx, len(M), kind=kind)
    u = matrix(cx, len(M), 'u') if how == 'matrices' else None
    st = conv(cx.emap(lambda e: cx.stored(e, sc), t))
    v.set_tran(st if u is None else (st, conv(cx.emap(lambda e: cx.stored(e, sc), u))))
    a, b = pick(cx, M, 'p', None), pick(cx, M, 's', None)
    i, j = M.index(a), M.index(b)
    fwd, rev = t[j, i], (t[i, j] if u is None else u[j, i])
    f = cx.probs('f', (len(M),), lo=0.05)
    fa, fb = f[i], f[j]
    lf = lambda x: f[M.index(x)]
  p = pb.SP(v)
  p.set_prob(vec(cx, lambda k: cx.stored(lf(k), sc)), order={'k': 0}, **kw(ps))
  p.set_scores(scores)
  o = p({'k': a})
  r = p.sample(({'k': a}, {'k': b}))
  cx.true(r.o is None, 'no predecessor yet')
  cx.eq(cx.linear(r.p.prob, r.p.pscale), fb, 'successor probability')
  cx.eq(cx.linear(r.q.prob, r.q.pscale), fwd, 'proposal probability')
  if r.r is not None:
    cx.eq(cx.linear(r.r.prob, r.r.pscale), rev, 'reverse proposal probability')
    cx.same((sorted(r.r.marg), sorted(r.r.cond)), (['k'], ["k'"]), 'reversed conditioning')
    values(cx, r.r, {'k': a}, 'predecessor')
    values(cx, r.r, {'k': b}, 'successor', "'")
  got = p.eval_expr(p.scores, p.opqr(o, r.p, r.q, r.r))
  want = fb / fa
  if scores == 'hastings':
    want = want * rev / fwd
  if want >= 1.:
    cx.eq(got, 1., 'certain acceptance')
  else:
    cx.eq(got, want, 'acceptance probability')


for w in ('bool', 'list', 'set'):
  for h in ('matrix', 'matrices'):
    add('C27', 'lone_{}_{}'.format(w, h), unitary, which=w, how=h)
  add('C27', 'lone_{}_sym'.format(w), unitary, which=w, kind='sym')
  add('C26', 'lone_{}'.format(w), unitary, which=w, kind='sym', scores='metropolis')
for s in PS:
  add('C27', 'lone_pair_{}'.format(s), unitary, how='pair', ps=s)
  if s != 'zero' and not s.startswith('log'):
    add('C27', 'lone_matrix_{}'.format(s), unitary, which='bool', ps=s)
for n in (2, 3):
  for g in (False, True):
    add('C28', 'weights_{}_{}'.format(n, g), bayes, ps='lin', n=n, nobs=1, given=g)
add('C28', 'weights_log', bayes, n=2, nobs=2, given=True)


def tiny(cx, pb, off=0., rev=True, small='proposal', scores='hastings'):
  """ on a log scale proposals (or states) of any small probability are compared by their ratio """
  from checks.underflow import SHIFT
  ps = complex(off, 0.) if off >= 0 else complex(-off, math.pi)
  W = {k: cx.prob(k, lo=1e-3, hi=1e3) for k in ('fa', 'fb', 'q', 'r')}
  s = cx.real('shift', -SHIFT, SHIFT, (-3000., -1000.))
  sh = {k: s if (k in 'qr') == (small == 'proposal') or small == 'both' else 0. for k in W}
  L = {k: cx.logp(w) + sh[k] - off for k, w in W.items()}
  cx.underflow()
  a, b = cx.real('a', -5., 5.), cx.real('b', -5., 5.)
  p = pb.SP(pb.RV('k', vset=[-50., 50.], vtype=float))
  p.set_scores(scores)
  o = pb.PD('k', {'k': a}, prob=L['fa'], pscale=ps)
  n = pb.PD('k', {'k': b}, prob=L['fb'], pscale=ps)
  q = pb.PD("k'|k", {"k'": b, 'k': a}, prob=L['q'], pscale=ps)
  r = pb.PD("k|k'", {'k': a, "k'": b}, prob=L['r'], pscale=ps) if rev else None
  got = p.eval_expr(p.scores, p.opqr(o, n, q, r))
  want = W['fb'] / W['fa']
  if rev and scores == 'hastings':
    want = want * W['r'] / W['q']
  cx.true(got is not None, 'a score')
  if got is None:
    return
  if want >= 1.:
    cx.eq(got, 1., 'certain acceptance')
  else:
    cx.eq(got, want, 'acceptance probability')


for o in (0., 2., -0.5):
  for sm in ('proposal', 'state', 'both'):
    for rv in (True, False):
      add('C27', 'tiny_{}_{}_{}'.format(sm, 'pair' if rv else 'sym', o), tiny, off=o, rev=rv, small=sm)
  add('C26', 'tiny_{}'.format(o), tiny, off=o, small='state', scores='metropolis')


# ------------------------------- C28: independent proposals given observations
def observed(cx, pb, ps='lin', who='roots', suffix=True, nobs=None, by='name', own=True):
  """ proposals of the parameters alone, evaluated with observations given apart """
  from checks.deps import likelihood
  from checks.fields import mkvar
  sc = pscale_of(ps)
  m = mkvar(cx, pb, 'm', 'fun', 'lin', None)
  z = mkvar(cx, pb, 'z', 'fun', 'lin', nobs)
  f, g = likelihood(cx, 'L', 'zm', sc)
  h = cx.uf('h', 0.05, 1., (0.1, 0.9))
  roots = pb.RF(m.var)
  p = pb.SP(pb.RF(z.var), roots)
  p.set_prob(g, **kw(ps))
  if own:
    roots.set_prop(lambda m: h(m))
  p.set_prop('roots' if by == 'name' else roots)
  a = cx.real('a', -5., 5.)
  kws = {} if suffix else {'suffix': False}
  e = p.sample({'m': a}, {z.var.name: z.arg}, **kws)
  seen = [(e, a)]
  if suffix:                       # another one, for the values of the first
    seen.append((p.sample(e, {z.var.name: z.arg}), a))
  b = cx.real('b', -5., 5.)
  seen.append((p.sample({'m': b}, {'z': z.arg}, **kws), b))
  for e, w in seen:
    cx.true(e.o is None and e.r is None, 'neither predecessor nor reverse')
    k = "m'" if suffix else 'm'
    cx.same(set(e.q.keys()), {k}, 'what is proposed')
    cx.eq(e.q[k], w, 'value proposed')
    cx.eq(cx.linear(e.q.prob, e.q.pscale), h(w) if own else m.lin(w), 'proposal probability')
    cx.same((set(e.p.marg), set(e.p.cond)), ({'z'}, {'m'}), 'conditional')
    cx.eq(e.p['m'], w, 'parameter')
    for o, q in zip(z.vals, np.ravel(np.asarray(e.p.prob, dtype=object))):
      cx.eq(cx.linear(q, e.p.pscale), f(z=o, m=w), 'probability given the parameter')
    cx.same(np.size(e.p.prob), nobs or 1, 'observations')


for s in ('lin', 'log', 'coef'):
  for n in (None, 2):
    add('C28', 'observed_{}_{}'.format(s, n), observed, ps=s, nobs=n)
add('C28', 'observed_object', observed, by='object', nobs=2)
add('C28', 'observed_unprimed', observed, suffix=False, nobs=2)
