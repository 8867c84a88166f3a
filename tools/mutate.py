"""mutate.py FILE... [-w WORKTREE] [-j N] [-o NAME[,NAME]]: bulk mutation testing.

A file holds M = [(name, property[,property...], file, old, new), ...].  Every
mutant is applied to a scratch worktree of /repo's HEAD, the quick check of its
property is run against it and CAUGHT or MISSED is printed.  Not used by any
check; the mutants that were missed led to stronger checks (see DESIGN.md).
"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; only = None; wt = '/tmp/wt_mut'; seed = os.environ.get('VERIF_SEED', '1')
if '-o' in a: i = a.index('-o'); only = a[i + 1].split(','); del a[i:i + 2]
if '-w' in a: i = a.index('-w'); wt = a[i + 1]; del a[i:i + 2]
rev = 'HEAD'
if '-r' in a: i = a.index('-r'); rev = a[i + 1]; del a[i:i + 2]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f'git -C /repo worktree remove --force {wt}; git -C /repo worktree prune'); sh(f'git -C /repo worktree add --detach {wt} {rev}')
try:
  for f in a:
    g = {}; exec(open(f).read(), g)
    for name, props, path, *eds in g['M']:
      if only and name not in only: continue
      sh(f'git -C {wt} checkout -- .'); s = open(f'{wt}/{path}').read(); bad = None
      for old, new in zip(eds[::2], eds[1::2]):
        if s.count(old) != 1: bad = (s.count(old), old)
        s = s.replace(old, new)
      if bad: print(f'{name:32s} BADSPEC {bad}', flush=True); continue
      open(f'{wt}/{path}', 'w').write(s)
      if sh(f'/opt/venv/bin/python -m py_compile {wt}/{path}').returncode: print(name, 'DOES NOT COMPILE'); continue
      for prop in props.split(','):
        r = sh(f'VERIF_REPO={wt} VERIF_SEED={seed} timeout 900 {V}/run.sh {prop}', cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]; x = {0: 'MISSED', 1: 'CAUGHT' if v else 'rc1-no-violation'}.get(r.returncode, f'rc={r.returncode}')
        print(f'{name:32s} {prop} {x} {len(v)} {v[0][v[0].find("mechanism"):][:90] if v else ""}', flush=True)
finally: sh(f'git -C /repo worktree remove --force {wt}; git -C /repo worktree prune')
