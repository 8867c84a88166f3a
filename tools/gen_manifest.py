"""Writes MANIFEST.json from properties.jsonl, checks/ and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read(), T)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i not in T['NA']:
    t, lvl, note = T['T'][i]
    checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i,
      thorough_cmd='./run.sh %s thorough' % i, evidence_file='evidence/%s.json' % i,
      technique=t, level=lvl, level_note=note))
  else:
    na.append(dict(property=i, reason=T['NA'].get(i, 'check under construction')))
m = dict(version=1, setup_cmd='./setup.sh',
  hooks=dict(guard='none', enable='No hooks are compiled into /repo: every monitor is attached from outside (callbacks the API offers, wrapped file-system calls, recording models and iterators).', source_commits=[]),
  checks=checks, not_applicable=na,
  notes='See DESIGN.md. Known findings: known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
