"""linecov.py [MODULE..]: lines of the package no quick scenario executes symbolically."""
import ast, dis, multiprocessing as mp, os, sys, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')
os.environ['MPLBACKEND'] = 'Agg'
from symx import loader, registry, scenario, shim
hit = set()
mon = sys.monitoring
mon.use_tool_id(3, 'linecov')


def line(code, n):
  if 'probayes/' in code.co_filename:
    hit.add((os.path.basename(code.co_filename), n))
  return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
loader.load_instrumented()
import probayes
hit0 = set(hit)
PROPS = ['C%02d' % i for i in range(1, 60)]


def work(job):
  p, name = job
  sc = {s.name: s for s in registry.scenarios(p, 'quick')}[name]
  hit.clear()
  mon.restart_events()
  try:
    scenario.explore(sc.fn, sc.params, probayes, budget_s=15.)
  except BaseException as e:
    pass
  return sorted(hit)


jobs = [(p, s.name) for p in PROPS for s in registry.scenarios(p, 'quick')]
tot = set(hit0)
with mp.get_context('fork').Pool(int(os.environ.get('J', 5)), maxtasksperchild=40) as pool:
  for r in pool.imap_unordered(work, jobs, chunksize=4):
    tot |= set(map(tuple, r))
mods = sys.argv[1:]
for f in sorted(os.listdir('/repo/probayes')):
  if not f.endswith('.py') or mods and f[:-3] not in mods:
    continue
  src = open('/repo/probayes/' + f).read()
  lines = src.splitlines()
  want = set()
  for n in ast.walk(ast.parse(src)):
    if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
      if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        continue
      want.add(n.lineno)
  miss = sorted(l for l in want if (f, l) not in tot)
  if miss:
    print('== %s: %d of %d statements not executed' % (f, len(miss), len(want)))
    for l in miss:
      print('%5d %s' % (l, lines[l - 1].rstrip()))
