"""developer aid: where the paths of a scenario fork: forks.py PROP SCENARIO"""
import os, sys, traceback, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import symx.core as C
from symx import loader, registry
cnt = collections.Counter()
orig = C.Engine.decide


def decide(self, cond):
  f = self.stats.forks
  r = orig(self, cond)
  if self.stats.forks > f:
    st = [x for x in traceback.extract_stack() if '/symx/' not in x.filename][-4:]
    cnt[' < '.join('{}:{}'.format(x.filename.split('/')[-1], x.lineno) for x in reversed(st))] += 1
  return r


C.Engine.decide = decide
import run_check
loader.load_instrumented()
run_check._work((0, sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else 'quick', sys.argv[2], 60., 1, None))
for k, v in cnt.most_common(20):
  print(v, k)
