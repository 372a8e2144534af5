"""seedlines.py: planted bugs whose patch does not apply or does not change a line of the original repository"""
import glob, os, re, subprocess
BASE = 'c9fe1ea'
for d in sorted(glob.glob('/verif/seeded/*')):
  p = d + '/patch.diff'
  ok = subprocess.run(['git', '-C', '/repo', 'apply', '--check', p], capture_output=True).returncode == 0
  f, n, orig, mine = None, 0, 0, 0
  for l in open(p):
    if l.startswith('--- a/'):
      f = l[6:].strip()
    elif l.startswith('@@'):
      n = int(re.match(r'@@ -(\d+)', l).group(1))
    elif l.startswith('-') and f:
      b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f], capture_output=True, text=True).stdout
      if l[1:].strip():
        orig += BASE in b
        mine += BASE not in b
      n += 1
    elif l.startswith(' '):
      n += 1
  print(os.path.basename(d), 'applies' if ok else 'DOES NOT APPLY', 'original lines %d, own %d' % (orig, mine), '' if ok and orig else '  <<<')
