"""mkseed.py SPEC.py...: builds /verif/seeded/<id> from a spec and confirms it.

A spec defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS,
BREAKS.  The demonstration is run on a scratch worktree with and without the
patch; the property's check is run against the patched worktree.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$d:$(pwd):/opt/vp/plugins" VERIF_REPO="$(pwd)"
t="$(mktemp -d /tmp/demo_XXXXXX)"
trap 'rm -rf -- "$t"' EXIT
export TMPDIR="$t" HOME="$t" SCRATCH="$t"
timeout 280 /opt/venv/bin/python "$d/demo.py"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for spec in sys.argv[1:]:
  if spec.startswith('-'): continue
  g = {}; exec(open(spec).read(), g)
  i = g['ID']; wt = '/tmp/wt_seed_' + i; d = os.path.join(V, 'seeded', i)
  sh(f'git -C /repo worktree remove --force {wt}; git -C /repo worktree prune')
  print(sh(f'git -C /repo worktree add --detach {wt} HEAD').stderr.splitlines()[-1:] if not os.path.exists(wt) else 'exists')
  try:
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(g['DEMO']); open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    for x in ['t5xshim.py'] + g.get('LIBS', []): shutil.copy(f'{V}/lib/{x}', d)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'bash {d}/demo.sh', cwd=wt)
    for f, old, new in g['EDITS']:
      s = open(f'{wt}/{f}').read(); assert s.count(old) == 1, (i, f, s.count(old), old)
      open(f'{wt}/{f}', 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=wt).stdout)
    b = sh(f'bash {d}/demo.sh', cwd=wt)
    print(b.stdout[-300:]); print(i, 'demo clean rc', a.returncode, '| patched rc', b.returncode, '| blame-ok?', (b.stdout + b.stderr)[-300:].replace('\n', ' / '))
    if a.returncode: print(a.stdout[-500:], a.stderr[-1500:])
    if '--nocheck' not in sys.argv:
      c = sh(f'VERIF_REPO={wt} {V}/run.sh {g["PROP"]}')
      print(i, 'CHECK', g['PROP'], 'rc', c.returncode, [l[:260] for l in c.stdout.splitlines() if 'VIOLATION' in l or 'INCONC' in l][:3])
      if c.returncode not in (0, 1): print(c.stdout[-800:], c.stderr[-1500:])
  finally:
    print(sh(f'git -C /repo worktree remove --force {wt}; git -C /repo worktree prune').stderr[:200])
