"""C09: a multi-host checkpoint is visible only when every host's part of it is on disk, and any number of hosts restores it."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, shards
c = shards.run('C09', 'one case = one save, crash or restore by a real multi-process job (2-4 hosts, 1-2 devices each) of a random train state with per-host dataset iterators, hosts slowed and clocks skewed at random; '
  'the file operations of all hosts go to one ordered log; distinct by job, directory, step and kind', 6, 30, parallel=3, stall=420,
  needs=[('saves', 20), ('commits-ordered', 12), ('restores', 40), ('shards-compared', 400), ('other-topology', 5), ('crashes', 4), ('crash-restores', 5), ('positions', 12), ('positions-several-shards', 5), ('sharded-over-hosts', 30), ('delayed-jobs', 3), ('saves-orbax', 5)])
import numpy as np
import t5xshim
import fsfault, mproc
rng = c.rng
SO = fsfault.build(c.scratch)
TOPO = [(2, 1), (2, 2), (3, 1), (3, 2), (4, 1)]
MESH = {(2, 1): [(1, 1), (2, 1)], (2, 2): [(1, 1), (1, 2), (2, 1), (2, 2)], (3, 1): [(1, 1), (3, 1)], (3, 2): [(1, 1), (1, 2), (3, 1), (3, 2)], (4, 1): [(1, 1), (2, 1), (4, 1)], (1, 1): [(1, 1)], (1, 4): [(1, 1), (1, 2), (1, 4)]}
def pick(xs): return xs[int(rng.integers(0, len(xs)))]

def job(topo, plan, log, what):
  """All hosts' records, or None when the job failed (and was reported)."""
  det = dict(job=what, hosts=topo[0], devices=topo[1], plan=[{k: v for k, v in x.items() if k != 'trace'} for x in plan])
  c.beat()
  try: out = mproc.run('ckpt', *topo, (plan, log), c.scratch, timeout=110, retries=1, shim=SO)
  except mproc.Failed as e:
    real = [x for x in e.errors if x[1] == 'repo']
    if not real: raise
    c.violation('raised', errors=[(x[0], x[2][-1200:]) for x in real], **det); return None
  except mproc.Hung as e:
    c.violation('hang', error=str(e), **det); return None
  c.beat(); c.event('jobs'); return list(zip(*out))   # by plan entry: the records of every host

def scenario(i):
  leaves = int(rng.integers(2, 5)); n = int(rng.integers(2, 4)); steps = sorted(int(s) for s in rng.choice(60, n, replace=False))
  cls = 'orbax' if i % 3 == 2 else 'plain'
  return dict(op='save', dir=c.dir('ck'), seed=int(rng.integers(1 << 30)), leaves=leaves, bf16=bool(rng.random() < .4), kind=pick(['adam', 'adafactor_plain', 'sgd']), cls=cls, keep=pick([None, None, 1, 2]), keep_ds=None,
    ds=bool(rng.random() < .75), steps=steps, mesh=None)

def disturb(x, hosts):
  slow = [h for h in range(hosts) if rng.random() < .5]
  x['trace'] = dict(seed=int(rng.integers(1 << 30)), permille=pick([0, 60, 250]), us=pick([3000, 20000]), slow=slow)
  x['skew'] = {h: float(pick([0, 0, 4.5, -7.25])) for h in range(hosts)}; x['late'] = {h: float(rng.random() * .4) for h in range(hosts) if rng.random() < .3}
  x['stall'] = {h: float(pick([.25, .6])) for h in range(hosts) if rng.random() < .35} if x['ds'] else {}; c.event('late-iterators', len(x['stall']) not in (0, hosts)); c.event('delayed-jobs', bool(slow) and x['trace']['permille'] > 0); c.event('skewed', any(x['skew'].values())); return x

def kept(steps, keep): return steps[-keep:] if keep else list(steps)

def ordering(x, log, det, crashed=()):
  """The shared log: nothing of a step is written once the step is visible, one host makes it visible, nobody returns before."""
  with open(log, errors='replace') as f: lines = [l.rstrip('\n').split(' ', 2) for l in f]
  lines = [(int(w), op, p) for w, op, p in lines if p.startswith(x['dir'] + '/')]; c.event('file-operations', len(lines))
  for step in x['steps']:
    final = '%s/checkpoint_%d' % (x['dir'], step)
    commit = [i for i, (w, op, p) in enumerate(lines) if op == 'rename' and p == final]
    parts = [(i, w, op, p) for i, (w, op, p) in enumerate(lines) if p.startswith(final + '.') and not p.startswith(final + '.tmp-deleting')]
    if not commit:
      c.event('not-committed'); continue
    d = dict(det, step=step)
    c.check(len(commit) == 1, 'ordering:committed-twice', commits=[lines[i] for i in commit], **d)
    late = [q[1:] for q in parts if q[0] > commit[0]]
    c.check(not late, 'ordering:written-after-commit', late=late[:5], **d); c.event('commits-ordered'); c.event('parts-ordered', len(parts)); c.event('writers-several', len({q[1] for q in parts}) > 1)
    c.check(len({q[3][len(final):].split('/')[0] for q in parts}) <= 1 or bool(crashed), 'ordering:different-directories', dirs=sorted({q[3][len(final):].split('/')[0] for q in parts}), **d)
    inside = [(w, op, p) for w, op, p in lines[commit[0] + 1:] if p.startswith(final + '/') and op in ('write', 'pwrite', 'pwrite64', 'fwrite', 'writev', 'open', 'fopen')]
    c.check(not inside, 'ordering:changed-after-commit', ops=inside[:5], **d)
    early = [w for i, (w, op, p) in enumerate(lines) if op == 'returned' and p == final and i < commit[0]]
    c.check(not early, 'ordering:returned-before-commit', by=early, **d); c.event('returns', sum(op == 'returned' and p == final for _, op, p in lines))

def saved(x, recs, topo, det):
  want = [kept(x['steps'][:k + 1], x['keep']) for k in range(len(x['steps']))]
  for r in recs:
    d = dict(det, host=r['process'])
    c.check([list(a) for a in r['after']] == want, 'listing-after-save', got=r['after'], want=want, **d)
    c.check(list(r['latest']) == x['steps'], 'latest-after-save', got=r['latest'], want=x['steps'], **d)
  for s in x['steps']: c.case((x['seed'], 'save', s, topo), True, dict(det, step=s)); c.event('saves'); c.event('saves-' + x['cls'])

def restored(x, recs, topo, want, det, ev='restores', doomed=()):
  """want: the steps that must be listed."""
  for r in recs:
    d = dict(det, host=r['process'])
    c.check(list(r['steps']) == list(want), 'listing', got=r['steps'], want=list(want), **d)
    for step, g in r['read'].items():
      step = int(step)
      if step in doomed: c.event('being-removed-by-orbax'); continue
      c.case((x['seed'], 'restore', step, topo, tuple(x['mesh']), ev), True, dict(d, step=step)); c.event(ev)
      if 'raised' in g:
        if g['blame'] != 'repo' and ev == 'restores' and 'NOT_FOUND' not in g['raised']: raise RuntimeError(g['raised'])
        c.violation('restore-raised', step=step, error=g['raised'], **d); continue
      c.event('shards-compared', g['shards']); c.event('sharded-over-hosts', g['split'])
      c.check(not g['bad'], 'content', step=step, bad=g['bad'], **d)
      if x['ds']:
        import mpckpt
        sh = r['shard'][0]; c.event('positions'); c.event('positions-shared', not r['shard'][2]); c.event('positions-several-shards', r['shard'][1] > 1)
        c.check(g['next'] == 1000 * sh + mpckpt.position(x, sh, step), 'dataset-position', step=step, got=g['next'], want=1000 * sh + mpckpt.position(x, sh, step), shard=r['shard'], **d)

def reader(x, mesh, **kw): return dict({k: v for k, v in x.items() if k not in ('trace', 'skew', 'late', 'kill')}, op='restore', mesh=mesh, steps=None, **kw)

def elsewhere(xs, home, shards_of, wants):
  """The same directories, read by a job of another shape."""
  topo = pick([t for t in list(MESH) if t != home]); plan = []
  for x in xs: plan.append(dict(reader(x, pick(MESH[topo])), ds=False))
  got = job(topo, plan, os.path.join(c.scratch, 'unused'), 'restore-elsewhere')
  for x, y, recs, want in zip(xs, plan, got or [], wants): restored(y, recs, topo, want, dict(saved_by=home, read_by=topo, cls=x['cls'], mesh=y['mesh'])); c.event('other-topology')

def normal(i):
  topo = TOPO[int(rng.integers(0, len(TOPO)))]; xs = []
  for k in range(3):
    x = disturb(scenario(k), topo[0]); x['mesh'] = pick(MESH[topo]); xs.append(x)
  plan = [q for x in xs for q in (x, reader(x, x['mesh']))]; log = os.path.join(c.scratch, 'log%d' % i)
  got = job(topo, plan, log, 'save')
  if got is None: return
  for k, x in enumerate(xs):
    det = dict(hosts=topo[0], devices=topo[1], cls=x['cls'], mesh=x['mesh'], steps=x['steps'], keep=x['keep'], dataset=x['ds'], kind=x['kind'])
    saved(x, got[2 * k], topo, det); ordering(x, log, det); restored(plan[2 * k + 1], got[2 * k + 1], topo, kept(x['steps'], x['keep']), det)
  elsewhere(xs, topo, None, [kept(x['steps'], x['keep']) for x in xs])
  return topo, xs, got

def crash(i, topo, x0, ops):
  """The same job once more, but one host dies at one of its file operations of the last save."""
  x = dict(x0, dir=c.dir('crash'), trace=dict(x0['trace'])); w = int(rng.integers(0, topo[0]))
  if rng.random() < .5: w = max(w, 1)
  total = ops[w][-1]
  if not total: w, total = 0, ops[0][-1]
  x['kill'] = (w, int(rng.integers(0, total + (total // 10 if w else 0) + 1)) if rng.random() < .7 else max(0, total - int(rng.integers(0, 14))))
  log = os.path.join(c.scratch, 'crashlog%d' % i); det = dict(hosts=topo[0], devices=topo[1], cls=x['cls'], mesh=x['mesh'], steps=x['steps'], keep=x['keep'], killed=x['kill'], of=total, dataset=x['ds'])
  c.beat(); codes = mproc.finish(*mproc.start('ckpt', *topo, ([x], log), c.scratch, SO), timeout=90, crash=2.5); c.beat()
  died = any(r == -9 for r in codes if r is not None)
  if not died and any(r for r in codes if r is not None): c.event('crash-job-failed'); return
  c.event('crashes' if died else 'crash-not-reached')
  prior, new = x['steps'][:-1], x['steps'][-1]
  ordering(x, log, det, crashed=(w,))
  # Another job takes over, possibly of another shape.
  shape = topo if rng.random() < .6 else pick([t for t in MESH if t != topo and t[0] > 1]); mesh = x['mesh'] if shape == topo else pick(MESH[shape]); same = shape == topo
  y = dict(reader(x, mesh), ds=x['ds'] and same); z = dict(x, op='save', mesh=mesh, trace=None, kill=None, ds=x['ds'] and same, version={new + 1: 1, new: 1})
  import t5x.checkpoints as ck
  there = new in ck.all_steps(x['dir']); c.event('crash-visible', there); c.event('crash-invisible', not there)
  z['steps'] = [new + 1] if there else [new, new + 1]; z['version'] = {s: 1 for s in z['steps']}
  got = job(shape, [y, z, dict(reader(z, mesh))], log + 'b', 'after-crash')
  if got is None: return
  listed = [int(s) for s in got[0][0]['steps']]
  need = set(kept(prior, x['keep'])) if not there else set(kept(x['steps'], x['keep']))
  c.check(need <= set(listed) <= set(x['steps']), 'crash:lost-steps', listed=listed, need=sorted(need), **det)
  # Orbax removes old steps file by file; what it was removing when the host died is not t5x's.
  doomed = set(prior) - set(kept(x['steps'], x['keep'])) if there and x['cls'] == 'orbax' else set()
  restored(y, got[0], shape, listed, det, 'crash-restores', doomed)
  want = kept(sorted(set(listed) | set(z['steps'])), x['keep'])
  restored(reader(z, mesh), got[2], shape, want, dict(det, later=True), 'later-restores')

def main():
  i = c.shard
  out = normal(i)
  if out is None: return
  topo, xs, got = out
  for k in ([0, 2, 1] if c.tier == 'quick' else [0, 1, 2, 0, 1]):
    if c.out_of_time(): break
    crash(i * 10 + k, topo, xs[k], [r['ops'] for r in got[2 * k]]); c.beat()

main()
c.finish()
