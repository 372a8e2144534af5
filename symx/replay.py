"""
Replays points on the unmodified package.
  python -m symx.replay FILE.json        one recorded counterexample; exit 1 if it violates
  python -m symx.replay --batch IN OUT   a list of points (used by the runner)
"""
import json
import os
import resource
import signal
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
  sys.path.insert(0, HERE)


CPU_S = 20.      # processor time within which one point has to finish
BATCH_S = 150.   # wall time after which the remaining points of a batch are left out
MEMORY = 6 << 30


class Unfinished(RuntimeError):
  pass


def timed(fn, *args):
  """ fn(*args), which fails if it does not come to an end """
  def alarm(sig, frame):
    raise Unfinished('not finished after {} s of processor time'.format(CPU_S))
  old = signal.signal(signal.SIGPROF, alarm)
  signal.setitimer(signal.ITIMER_PROF, CPU_S, 1.)
  try:
    return fn(*args)
  except Unfinished as e:
    return {'outcome': 'exception', 'asserts': 0, 'failures': [str(e)]}
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0.)
    signal.signal(signal.SIGPROF, old)


def main(argv):
  warnings.simplefilter('ignore')
  resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
  t0 = time.time()
  from symx import loader, scenario, registry
  pb = loader.load_plain()
  if argv and argv[0] == '--batch':
    with open(argv[1]) as f:
      jobs = json.load(f)
    out = []
    cache = {}
    for j in jobs:
      key = (j['property'], j['tier'])
      if key not in cache:
        cache[key] = {s.name: s for s in registry.scenarios(*key)}
      sc = cache[key][j['scenario']]
      if time.time() - t0 > BATCH_S:
        out.append({'outcome': 'skipped', 'failures': []})
        continue
      out.append(timed(scenario.run_concrete, sc.fn, sc.params, pb, j.get('point') or {},
                       j.get('seed', 0)))
    with open(argv[2], 'w') as f:
      json.dump(out, f, default=str)
    return 0
  with open(argv[0]) as f:
    j = json.load(f)
  sc = {s.name: s for s in registry.scenarios(j['property'], j['tier'])}[j['scenario']]
  r = timed(scenario.run_concrete, sc.fn, sc.params, pb, j['point'], j.get('seed', 0))
  print('property', j['property'], 'scenario', j['scenario'])
  print('parameters', sc.params)
  print('inputs', json.dumps(r.get('values', j['point']), default=str))
  print('outcome', r['outcome'])
  for f in r['failures']:
    print('  FAILS:', f)
  return 1 if r['outcome'] in ('fail', 'exception') else 0


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
