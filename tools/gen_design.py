"""Writes DESIGN.md from properties.jsonl, techniques.py, design_head.md, design_tail.md, known_findings.txt and seeded/."""
import json, os, collections, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {}; exec(open(V + '/tools/techniques.py').read(), T)
R = {}
if os.path.exists(V + '/tools/seed_status.json'): R = json.load(open(V + '/tools/seed_status.json'))
out = [open(V + '/tools/design_head.md').read()]
fx = collections.defaultdict(list)
for l in open(V + '/known_findings.txt'):
  if l.startswith(('fixed:', 'finding:')): fx[l.split('property=')[1].split()[0]].append(l)
EX = json.load(open(V + '/tools/design_extra.json')) if os.path.exists(V + '/tools/design_extra.json') else {}
for l in open(V + '/properties.jsonl'):
  p = json.loads(l); i = p['id']; t, lvl, note = T['T'].get(i, ('not claimed', '-', T['NA'].get(i, '')))
  a = p['anchors']
  out.append('### %s %s\n\n' % (i, p['title']))
  out.append('*Code*: %s. *Observed at*: %s.\n\n' % (', '.join(a['files']), '; '.join(a.get('observe_at') or [])))
  out.append('*Decided by* %s.\n\n*Bounds*: %s %s\n\n' % (t.replace('Runtime monitoring of the real code: ', ''), note.replace(T['_N'], '').strip(), EX.get(i, '')))
  out.append('*Beyond the tests*: %s\n\n' % p['why_tests_cant'])
  n = sum(x.startswith('fixed') for x in fx[i]); k = len(fx[i]) - n
  if fx[i]: out.append('*Defects*: %s%s.\n\n' % ('%d found and repaired' % n if n else '', ('%s%d recorded as a known finding' % (', ' if n else '', k)) if k else ''))
out.append('\nAssurance everywhere covers the executions produced (counted in the evidence), not all inputs; it trusts JAX, NumPy, TensorFlow, TensorStore and the independent references in `lib/` and `checks/`.\n')
out.append('\n## 4. Defects of the code and planted changes\n\nDefects found are listed with their commits in `known_findings.txt` (%d repaired, %d recorded).\n\n' % (sum(x.startswith('fixed') for v in fx.values() for x in v), sum(x.startswith('finding') for v in fx.values() for x in v)))
for v in fx.values():
  for x in v:
    if x.startswith('finding'): out.append('Known finding: ' + x.split('property=')[1].strip() + '. A repair would change the names of files of existing checkpoints, which is not small and safe.\n\n')
out.append('Planted changes kept in `seeded/` (each confirmed with its demonstration in a scratch worktree):\n\n| planted change | property | needs | caught by its check |\n|---|---|---|---|\n')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
  m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); out.append('| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], R.get(i, '?')))
out.append('''
Besides these, `tools/mutants/*.py` lists %d smaller mutants that `tools/mutate.py`
applies one at a time to a scratch worktree, running the quick check of the
property they break. Checks were strengthened until every mutant that changes
observable behaviour was caught. Examples of what misses led to: cached values
that differ per scanned layer and are compared by shape and content (D04),
early-termination configurations (D03), EOS inside prompts and prefixes (N02, N03),
reuse of the caller's dictionaries (N03), unsorted gradient trees (O01), large
warm-ups (T06). Judged equivalent (no observable change): reuse of a sampling key
whose second half is never drawn again, final positions of padding segments,
`repeat` before or after `shard` on an already repeated set, comparison of
positive infinities in loss masks, and changes to unreachable branches.
''' % sum(len([1 for x in g]) for g in [(lambda d: (exec(open(f).read(), d), d['M'])[1])({}) for f in glob.glob(V + '/tools/mutants/*.py')]))
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write(''.join(out)); print(sum(map(len, out)), 'bytes')
