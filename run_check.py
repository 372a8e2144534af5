#!/usr/bin/env python3
"""
run_check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v]

Explores every scenario of a property symbolically on /repo's current source,
replays every counterexample on the unmodified code, and writes
evidence/PROPERTY.json. Exit 0: held on everything explored; exit 1 with a
VIOLATION line: a counterexample was confirmed on the real code.
"""
import argparse
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
if os.path.realpath(sys.executable) != os.path.realpath(VENV) or \
    not sys.prefix.startswith('/opt/venv') or os.environ.get('PYTHONHASHSEED') != '0':
  if os.path.exists(VENV) and not os.environ.get('SYMX_REEXEC'):
    os.environ['SYMX_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(VENV, [VENV] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')

REPO = os.environ.get('VERIF_REPO', '/repo')


ENCODED = set()


def _watch():
  """ record which functions of the package are executed symbolically """
  mon = sys.monitoring

  def start(code, offset):
    f = code.co_filename
    if 'probayes' + os.sep in f and '<' not in code.co_qualname:
      ENCODED.add('probayes.{}.{}'.format(os.path.basename(f)[:-3], code.co_qualname))
    return mon.DISABLE

  mon.use_tool_id(4, 'symx')
  mon.register_callback(4, mon.events.PY_START, start)
  mon.set_events(4, mon.events.PY_START)


def _alarm(sig, frame):
  from symx import core
  raise core.Budget('time budget: code that does not come to an end')


def _work(job):
  i, prop, tier, name, budget, seed, tend = job
  from symx import registry, scenario, shim
  import probayes
  sc = {s.name: s for s in registry.scenarios(prop, tier)}[name]
  if not sys.monitoring.get_tool(4):
    _watch()
  ENCODED.clear()
  sys.monitoring.restart_events()
  try:
    b, extra = sc.budget or budget, 30.
    if tend is not None:  # the whole check keeps within its time
      left = tend - time.time()
      b, extra = max(2., min(b, left)), max(4., min(extra, left))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, b + extra, 1.)  # code that never comes back to the solver
    try:
      r = scenario.explore(sc.fn, sc.params, probayes, budget_s=b, seed=seed)
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0.)
  except BaseException as e:  # engine failure: reported as unsupported, never as a verdict
    import traceback
    r = {'engine_error': ''.join(traceback.format_exception_only(type(e), e))[:400] +
         traceback.format_exc()[-600:]}
  r['name'] = name
  r['functions'] = sorted(ENCODED)
  return r


def replay(jobs, workers=6):
  """ run points on the plain package in fresh interpreters """
  if not jobs:
    return []
  n = max(1, min(workers, (len(jobs) + 39) // 40))
  t0 = time.time()
  chunks = [jobs[k::n] for k in range(n)]
  procs = []
  tmp = tempfile.mkdtemp(prefix='symx_replay_')
  env = dict(os.environ)
  env.pop('SYMX_REEXEC', None)
  env['TMPDIR'] = tmp
  for k, ch in enumerate(chunks):
    a, b = os.path.join(tmp, 'in%d.json' % k), os.path.join(tmp, 'out%d.json' % k)
    with open(a, 'w') as f:
      json.dump(ch, f, default=str)
    procs.append((ch, b, subprocess.Popen([VENV, '-m', 'symx.replay', '--batch', a, b], cwd=HERE,
                                          env=env, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT)))
  out = {}
  for k, (ch, b, p) in enumerate(procs):
    try:
      log, _ = p.communicate(timeout=max(5., 240. - (time.time() - t0)))
    except subprocess.TimeoutExpired:
      p.kill()
      log = b'replay did not finish'
    res = None
    if os.path.exists(b):
      with open(b) as f:
        res = json.load(f)
    for n_, j in enumerate(ch):
      out[id(j)] = res[n_] if res else {'outcome': 'error', 'failures': [log.decode()[-500:]]}
  import shutil
  shutil.rmtree(tmp, ignore_errors=True)
  return [out[id(j)] for j in jobs]


def known_findings(prop):
  """ lines 'known: property=<id> scenario=<glob> label=<substring> :: what fails' """
  out = []
  path = os.path.join(HERE, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('known: ') and 'property={} '.format(prop) in line:
        head, _, what = line.partition(' :: ')
        d = dict(t.split('=', 1) for t in head.split()[1:] if '=' in t)
        out.append((d, what))
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--selftest', action='store_true')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('-v', action='store_true')
  ap.add_argument('-j', type=int, default=8)
  ap.add_argument('--fast', action='store_true', help='developer: stop at the first counterexample')
  a = ap.parse_args()
  if a.selftest:
    return selftest()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  import symx.loader as loader
  from symx import registry, shim
  load_error = None
  try:
    loader.load_instrumented()
  except Exception as e:
    load_error = '{}: {}'.format(type(e).__name__, e)
  scs = registry.scenarios(a.prop, tier)
  if a.only:
    scs = [s for s in scs if a.only in s.name]
  assert scs, 'no scenarios for ' + a.prop
  budget = 60. if tier == 'quick' else 600.
  results = []
  if load_error is None:
    tend = t0 + 420. if tier == 'quick' else None
    jobs = [(i, a.prop, tier, s.name, budget, seed, tend) for i, s in enumerate(scs)]
    with mp.get_context('fork').Pool(min(a.j, len(jobs)), maxtasksperchild=40) as pool:
      for r in pool.imap_unordered(_work, jobs, chunksize=1):
        results.append(r)
        if a.fast and r.get('candidates'):
          pool.terminate()
          break
        if a.v:
          print('  {:40s} {:6.2f}s paths={} asserts={} q={} cand={} crash={} unsup={} inc={} {}'.format(
              r['name'], r.get('wall_s', 0), r.get('stats', {}).get('paths'),
              r.get('stats', {}).get('asserts'), r.get('stats', {}).get('queries'),
              len(r.get('candidates', [])), r.get('ncrash'), r.get('nunsupported'),
              r.get('ninconclusive'), r.get('exhausted') or r.get('engine_error') or ''), flush=True)
          for c in r.get('crashes', [])[:2]:
            print('      crash', c)
          for c in r.get('unsupported', [])[:2]:
            print('      unsup', c)
          for c in r.get('candidates', [])[:2]:
            print('      cand', c['label'][:200], {k: v for k, v in c['values'].items() if '!' not in k}
                  if len(c['values']) < 30 else '', c['choices'])
  else:
    results = [{'name': s.name, 'engine_error': load_error, 'functions': []} for s in scs]
  results.sort(key=lambda r: r['name'])

  # replay candidates, witnesses, and fallback points on the unmodified code
  jobs = []
  for r in results:
    degraded = bool(r.get('engine_error') or r.get('ncrash') or r.get('nunsupported') or
                    r.get('exhausted') or r.get('ninconclusive'))
    r['degraded'] = degraded
    base = {'property': a.prop, 'tier': tier, 'scenario': r['name'], 'seed': seed}
    for c in r.get('candidates', []):
      jobs.append(dict(base, kind='candidate', point=c))
    for w in r.get('witnesses', []):
      jobs.append(dict(base, kind='witness', point=w))
    if degraded or not r.get('witnesses'):
      for k in range(24):
        jobs.append(dict(base, kind='fallback', point={}, seed=seed * 1000 + k))
  outs = replay(jobs)

  byname = {r['name']: r for r in results}
  violations, unconfirmed, errors = [], [], []
  nwit = 0
  confirmed_names = set()
  for j, o in zip(jobs, outs):
    bad = o['outcome'] in ('fail', 'exception')
    if o['outcome'] == 'error':
      errors.append(o['failures'][0])
    if j['kind'] == 'witness' and o['outcome'] == 'ok':
      nwit += 1
    if bad:
      confirmed_names.add(j['scenario'])
      violations.append((j, o))
    elif j['kind'] == 'candidate':
      unconfirmed.append((j, o))

  known = known_findings(a.prop)
  rdir = os.path.join(HERE, 'evidence', 'replays')
  os.makedirs(rdir, exist_ok=True)
  for f in os.listdir(rdir):
    if f.startswith(a.prop + '-'):
      os.remove(os.path.join(rdir, f))
  printed, seen, nviol = set(), set(), 0
  vio_list = []
  for j, o in violations:
    label = o['failures'][0] if o['failures'] else '?'
    hit = None
    for d, what in known:
      if d.get('scenario', j['scenario']) in j['scenario'] and d.get('label', '') in label:
        hit = what
    if hit is not None:
      if hit not in printed:
        printed.add(hit)
        print('KNOWN-FINDING: property={} {}'.format(a.prop, hit))
      continue
    if j['scenario'] in seen:
      continue
    seen.add(j['scenario'])
    nviol += 1
    if nviol > 8:
      if a.v:
        print('  also {}: {}'.format(j['scenario'], label))
      continue
    path = os.path.join(rdir, '{}-{}.json'.format(a.prop, nviol))
    pt = dict(j['point'])
    pt['values'] = o.get('values') or pt.get('values')
    rec = {'property': a.prop, 'tier': tier, 'scenario': j['scenario'], 'seed': j['seed'],
           'found_by': j['kind'], 'point': pt, 'failures': o['failures'],
           'how_to_replay': 'cd {} && {} -m symx.replay {}'.format(HERE, VENV, path)}
    with open(path, 'w') as f:
      json.dump(rec, f, indent=1, default=str)
    vio_list.append({'scenario': j['scenario'], 'failure': label, 'replay': path})
    print('VIOLATION property={} replay={}'.format(a.prop, path))
    print('  scenario {} ({}): {}'.format(j['scenario'], j['kind'], label))

  tot = {}
  for r in results:
    for k, v in r.get('stats', {}).items():
      tot[k] = tot.get(k, 0) + v
  funcs = sorted({f for r in results for f in r.get('functions', [])})
  degraded = [{'scenario': r['name'], 'engine_error': r.get('engine_error'),
               'crashes': r.get('crashes'), 'unsupported': r.get('unsupported'),
               'exhausted': r.get('exhausted'), 'inconclusive': r.get('inconclusive')}
              for r in results if r['degraded']]
  vacuous = [r['name'] for r in results
             if not r.get('stats', {}).get('asserts') and not r['degraded']]
  from symx import meta
  mt = meta.META.get(a.prop, {})
  ev = {
      'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
      'coverage': {
          'technique': 'symbolic execution of the current source of /repo/probayes with z3 deciding '
                       'every branch and every obligation over all values within the bounds',
          'functions_encoded': funcs,
          'source_files_instrumented': sorted(loader.LOADED.values()),
          'bounds': mt.get('bounds', ''),
          'outside_the_claim': mt.get('outside', ''),
          'scenarios': len(results), 'scenario_names': [r['name'] for r in results],
          'paths_explored': tot.get('paths', 0), 'forks': tot.get('forks', 0),
          'obligations': tot.get('asserts', 0),
          'obligations_structural': tot.get('trivial', 0),
          'solver': 'z3 python ' + _z3v(), 'queries_discharged': tot.get('queries', 0),
          'queries_unsat': tot.get('unsat', 0), 'queries_sat': tot.get('sat', 0),
          'queries_unknown': tot.get('unknown', 0),
          'solver_time_s': round(tot.get('solver_s', 0.), 3),
          'states': tot.get('paths', 0), 'transitions': tot.get('forks', 0),
          'exhaustive': not degraded,
          'witness_replays_on_real_code': nwit,
          'tolerance_only_obligations': sum(r.get('tolerance_only', 0) for r in results),
          'degraded_scenarios': degraded, 'vacuous_scenarios': vacuous,
          'unconfirmed_counterexamples': [
              {'scenario': j['scenario'], 'label': j['point'].get('label'), 'replay': o['outcome']}
              for j, o in unconfirmed[:20]],
          'replay_errors': errors[:3],
          'replays_left_out': len([o for o in outs if o['outcome'] == 'skipped']),
      },
      'assumptions': mt.get('assumptions', []) + meta.COMMON,
      'wall_s': round(time.time() - t0, 2),
      'violations': vio_list,
  }
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  rss = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024
  print('{} {}: scenarios={} paths={} obligations={} queries={} solver={:.1f}s witnesses={} '
        'degraded={} unconfirmed={} wall={:.1f}s maxrss={}MB'.format(
            a.prop, tier, len(results), tot.get('paths', 0), tot.get('asserts', 0),
            tot.get('queries', 0), tot.get('solver_s', 0.), nwit, len(degraded),
            len(unconfirmed), time.time() - t0, rss))
  for d in degraded[:5]:
    print('  DEGRADED', d['scenario'], d['engine_error'] or d['exhausted'] or
          (d['crashes'] or d['unsupported'] or d['inconclusive'] or [''])[0])
  for e in errors[:2]:
    print('  REPLAY-ERROR', e)
  if nviol:
    return 1
  if errors and not nwit and load_error is None:
    return 2
  return 0


def selftest():
  """ the solver, the instrumented package and the scenarios are usable """
  import z3
  import symx.loader as loader
  from symx import registry
  loader.load_instrumented()
  n = {p: len(registry.scenarios(p, 'quick')) for p in registry.properties()}
  x = z3.Real('x')
  s = z3.Solver()
  s.add(x * x < 0)
  assert s.check() == z3.unsat
  print('selftest ok: z3 {}, {} scenarios over {} properties'.format(_z3v(), sum(n.values()), len(n)))
  return 0


def _z3v():
  try:
    import z3
    return z3.get_version_string()
  except Exception:
    return '?'


if __name__ == '__main__':
  sys.exit(main())
