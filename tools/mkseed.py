"""mkseed.py ID PROP FILE <<JSON  {old,new,needs,breaks,demo}: writes seeded/ID from a replacement in /repo/FILE."""
import difflib, json, os, sys
ID, PROP = sys.argv[1:3]
spec = eval(sys.stdin.read())
D = '/verif/seeded/' + ID
os.makedirs(D, exist_ok=True)
out = ''
for f, reps in spec['edits'].items():
  src = open('/repo/' + f).read()
  dst = src
  for old, new in reps:
    assert dst.count(old) == 1, (f, old, dst.count(old))
    dst = dst.replace(old, new)
  out += ''.join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True), 'a/' + f, 'b/' + f))
open(D + '/patch.diff', 'w').write(out)
open(D + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport collections\n'
                               'import probayes as pb\n' + spec['demo'].strip() + '\n')
open(D + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                               'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
json.dump({'property': PROP, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(D + '/meta.json', 'w'), indent=1)
