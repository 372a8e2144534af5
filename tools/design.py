""" Writes DESIGN.md from tools/design_head.md, the property texts (tools/props.py), the registered
scenarios, known_findings.txt and tools/planted.txt. Run: /opt/venv/bin/python tools/design.py """
import collections, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/tools']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib.util
from symx import loader, registry
loader.load_instrumented()
spec = importlib.util.spec_from_file_location('props', HERE + '/tools/props.py')
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)
from design_notes import NOTES
out = open(HERE + '/tools/design_head.md').read().rstrip() + '\n\n## Properties\n'
for p, d in props.P.items():
  q, t = registry.scenarios(p, 'quick'), registry.scenarios(p, 'thorough')
  fam = collections.Counter(s.fn.__name__ for s in t)
  out += '\n### %s %s\n' % (p, d['title'])
  out += '* **Decided by**: %s\n' % NOTES.get(p, '')
  out += '* **Bounds**: %s.\n* **Outside**: %s.\n' % (d['bounds'], d['outside'])
  if d['assume']:
    out += '* **Assumes**: %s.\n' % '; '.join(d['assume'])
  out += '* **Scenarios**: %d quick, %d thorough (%s).\n' % (len(q), len(t), ', '.join('%s %d' % (k, v) for k, v in fam.items()))
out += '\n## Genuine defects found and repaired\nEach was reported by the check of its property, replayed on the real code, and repaired by the named "fix:" commit in /repo (also in known_findings.txt; fixed entries suppress nothing).\n\n'
for l in open(HERE + '/known_findings.txt'):
  if l.startswith('fixed: '):
    p, h, w = l[len('fixed: property='):].strip().split(' ', 2)
    out += '* %s `%s` %s\n' % (p, h, w)
out += '\n' + open(HERE + '/tools/planted.md').read() if os.path.exists(HERE + '/tools/planted.md') else ''
open(HERE + '/DESIGN.md', 'w').write(out)
