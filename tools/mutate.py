"""mutate.py MODULE[,MODULE..] N SEED OUT: plants N random single-point mutations in scratch copies of
the modules, runs the checks concerned (developer mode), then the tests, and lists survivors."""
import ast, json, os, random, re, shutil, subprocess, sys, time

MAP = {'pd': 'C01 C02 C07 C08 C09 C10 C11 C12 C13 C14 C04 C03', 'distribution': 'C13 C09 C10 C01 C11 C14',
       'pd_utils': 'C03 C04 C11 C14 C13 C02 C10 C08', 'pscales': 'C05 C06 C03 C01 C12 C21', 'prob': 'C05 C19 C20 C23 C30 C33',
       'variable': 'C34 C15 C16 C17 C18 C25', 'variable_utils': 'C15 C16 C17 C23', 'vtypes': 'C15 C16 C13 C09',
       'rv': 'C19 C20 C22 C18 C33', 'rv_utils': 'C19 C22 C20', 'rf': 'C23 C22 C25 C24 C29', 'rf_utils': 'C32 C23 C24 C29',
       'field': 'C34 C23 C25 C16 C28 C24', 'sd': 'C24 C26 C27 C28', 'sd_utils': 'C28 C24 C26', 'dependence': 'C24 C28 C25',
       'sp': 'C28 C26 C21 C27', 'sp_utils': 'C26 C27 C28 C21', 'cond_cov': 'C29', 'cf': 'C22 C24 C29 C23',
       'expr': 'C30 C31 C33', 'func': 'C30 C31', 'functional': 'C31', 'functional_utils': 'C31', 'expression': 'C30 C05 C23',
       'ops': 'C17 C18 C25 C15', 'icon': 'C30 C31 C15', 'named_dict': 'C13', 'likelihoods': 'C32', 'sympy_prob': 'C33 C23'}
mods, N, seed, out = sys.argv[1].split(','), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
rng = random.Random(seed)
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}


def span(src, lines, n):
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l))
  return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def sites(src):
  tree = ast.parse(src)
  lines = src.splitlines(True)
  res = []
  funcs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,))]
  skip = set()
  for n in ast.walk(tree):   # not the messages and conditions of assertions
    if isinstance(n, (ast.Assert, ast.Raise)):
      for m in ast.walk(n):
        skip.add(id(m))
  for f in funcs:
    if f.name in ('__repr__', '__str__'):
      continue
    for n in ast.walk(f):
      if id(n) in skip or not hasattr(n, 'lineno'):
        continue
      a, b = span(src, lines, n)
      t = src[a:b]
      if isinstance(n, ast.Compare) and len(n.ops) == 1:
        l = span(src, lines, n.left)[1]
        r = span(src, lines, n.comparators[0])[0]
        for o in CMP.get(type(n.ops[0]), []):
          res.append((f.name, n.lineno, l, r, ' %s ' % o))
      elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
          continue
        l = span(src, lines, n.left)[1]
        r = span(src, lines, n.right)[0]
        if src[l:r].strip() in '+-*/':
          res.append((f.name, n.lineno, l, r, ' %s ' % BIN[type(n.op)]))
      elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        res.append((f.name, n.lineno, a, b, str(not n.value)))
      elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
        res.append((f.name, n.lineno, a, b, str(n.value + 1)))
        if n.value == 1:
          res.append((f.name, n.lineno, a, b, '0'))
        if n.value == 0:
          res.append((f.name, n.lineno, a, b, '-1'))
      elif isinstance(n, ast.BoolOp):
        l = span(src, lines, n.values[0])[1]
        r = span(src, lines, n.values[1])[0]
        mid = src[l:r]
        w, v = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
        if mid.count(w) == 1 and len(n.values) == 2:
          res.append((f.name, n.lineno, l, r, mid.replace(w, v)))
      elif isinstance(n, ast.If):
        a, b = span(src, lines, n.test)
        res.append((f.name, n.lineno, a, b, 'not (%s)' % src[a:b]))
      elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        res.append((f.name, n.lineno, a, b, 'pass'))
      elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
        if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'range', 'super', 'issubclass', 'hasattr'):
          continue
        (a1, b1), (a2, b2) = span(src, lines, n.args[0]), span(src, lines, n.args[1])
        res.append((f.name, n.lineno, a1, b2, src[a2:b2] + src[b1:a2] + src[a1:b1]))
  return res


pool = []
for m in mods:
  src = open('/repo/probayes/%s.py' % m).read()
  for s in sites(src):
    pool.append((m, src) + s)
rng.shuffle(pool)
W = '/tmp/mut_' + mods[0] + str(seed)
shutil.rmtree(W, ignore_errors=True)
shutil.copytree('/repo', W, symlinks=True)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
open('/tmp/mut_test.sh.%d' % seed, 'w').write(open('/opt/vp/test.sh').read().replace('/repo', W))
log = open(out, 'a')
done = 0
for m, src, fn, line, a, b, new in pool:
  if done >= N:
    break
  dst = src[:a] + new + src[b:]
  try:
    compile(dst, m, 'exec')
  except SyntaxError:
    continue
  done += 1
  path = W + '/probayes/%s.py' % m
  open(path, 'w').write(dst)
  if subprocess.run(['/opt/venv/bin/python', '-c', 'import probayes'], cwd=W, capture_output=True).returncode:
    print(m, fn, line, 'IMPORT', file=log, flush=True)
    open(path, 'w').write(src)
    continue
  caught, t0, state = None, time.time(), ''
  for c in MAP[m].split():
    p = subprocess.run(['/opt/venv/bin/python', HERE + '/run_check.py', c, '--tier', 'quick', '--fast', '-j', '5'],
                       capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W))
    if 'VIOLATION' in p.stdout:
      caught = c
      break
    mm = re.search(r'degraded=(\d+) unconfirmed=(\d+)', p.stdout)
    if mm and mm.groups() != ('0', '0'):
      state += ' %s:degraded=%s,unconf=%s' % ((c,) + mm.groups())
  lost = ''
  if not caught:
    subprocess.run(['bash', '/tmp/mut_test.sh.%d' % seed, '/tmp/mut_out%d.json' % seed], capture_output=True)
    try:
      lost = len(base - set(json.load(open('/tmp/mut_out%d.json' % seed))['passed']))
    except Exception as e:
      lost = '?'
  l0 = src[:a].rfind('\n') + 1
  l1 = src.find('\n', b)
  print('%s %s:%d %s %ds lost=%s%s\n    - %s\n    + %s' % (caught or 'SURVIVED', m, line, fn, time.time() - t0, lost, state,
        src[l0:l1].strip(), (src[l0:a] + new + src[b:l1]).strip()), file=log, flush=True)
  open(path, 'w').write(src)
shutil.rmtree(W, ignore_errors=True)
