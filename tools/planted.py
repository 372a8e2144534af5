"""planted.py: writes tools/planted.md from the folders of planted bugs and tools/planted_results.txt (ID outcome)"""
import glob, json, os
res = dict(l.strip().split(' ', 1) for l in open('/verif/tools/planted_results.txt') if l.strip())
out = ['| bug | property | what it breaks | needs | outcome |', '|---|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
  i = os.path.basename(d)
  m = json.load(open(d + '/meta.json'))
  out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, 'caught')))
open('/verif/tools/planted.md', 'w').write('\n'.join(out) + '\n')
