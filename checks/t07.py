"""T07: all processes of a multi-host training run act as one."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, shards
c = shards.run('T07', 'one case = one lifetime of train.train in a real multi-process job (2-4 hosts, random model submeshes, skewed clocks, hosts slowed at random, one killed) against the same lifetime in one process; '
  'distinct by job, directory and lifetime', 6, 26, parallel=3, stall=420,
  needs=[('lifetimes', 20), ('resumed-lifetimes', 8), ('hosts-compared', 40), ('other-hosts-asked-to-stop', 6), ('stopped-by-host-0', 3), ('evaluations', 20), ('hosts-killed', 3), ('runs-after-a-death', 3), ('seed-from-the-clock', 3), ('several-data-shards', 10), ('shared-data-shard', 2)])
import numpy as np
import jax
import t5xshim
import mproc, mploop, trainlib as TL, looplib as LL
from t5x import partitioning
rng = c.rng
# One device per host: with several, the CPU runtime lets collectives of different programs overtake each other.
TOPO = [(2, 1), (3, 1), (4, 1)]
MESH = {(2, 1): [(1, 1), (1, 1), (2, 1)], (3, 1): [(1, 1), (1, 1), (3, 1)], (4, 1): [(1, 1), (2, 1), (4, 1)]}
LR = lambda t: 0.05 / (1.0 + t)
ONE = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=TL.RULES)
def pick(xs): return xs[int(rng.integers(0, len(xs)))]

def job(topo, plan, **det):
  """Per lifetime the records of every host, or None when the job failed (and was reported)."""
  c.beat()
  try: out = mproc.run('loop', *topo, (plan,), c.scratch, timeout=100, retries=1)
  except mproc.Failed as e:
    real = [x for x in e.errors if x[1] == 'repo']
    if not real: raise
    c.violation('raised', errors=[(x[0], x[2][-1200:]) for x in real], job=topo, plan=plan, **det); return None
  except mproc.Hung as e:
    c.violation('hang', error=str(e), job=topo, plan=plan, **det); return None
  c.beat(); c.event('jobs'); return list(zip(*out))

def scenario(k):
  per = int(rng.integers(1, 4)); total = per * int(rng.integers(2, 5)) + int(rng.integers(0, 2)); ev = bool(rng.random() < .75)
  return dict(dir=c.dir('run'), B=24, seed=int(rng.integers(1 << 30)), total=total, goal=total, mesh=(1, 1), skew={}, slow={}, kill=None, evals=[int(n) for n in rng.integers(1, 4, int(rng.integers(1, 3)))] if ev else [],
              actions={}, period=per, ds=True, keep=None, orbax=k % 3 == 2, eval_period=per * int(rng.integers(1, 3)) if ev else 0, key=int(rng.integers(0, 9)), stats=pick([None, 1, 2]), n_mb=pick([None, None, 2]))

def disturb(x, hosts):
  x['skew'] = {h: float(pick([0, 0, 4.5, -7.25, 3600.])) for h in range(hosts)}; x['slow'] = {h: float(pick([.03, .15])) for h in range(hosts) if rng.random() < .4}
  mode = pick(['TRAIN', 'TRAIN_EVAL']) if x['evals'] else 'TRAIN'
  if rng.random() < .8:
    some = lambda: tuple(int(s) for s in rng.choice(np.arange(1, x['total'] + 1), min(x['total'], 3), replace=False))
    x['actions'] = {mode: dict([(0, some()[:1] if rng.random() < .5 else ())] + [(h, some()) for h in range(1, hosts)])}
  return x

SEEN = ('loss', 'ids', 'wsum')
def reports(w):
  """Reports with a value that is judged, in the order of each writer (the writers of different sets are independent threads)."""
  return sorted(((n, s, {k: v for k, v in d.items() if k in SEEN}) for n, s, d in w if any(k in SEEN for k in d)), key=lambda q: q[0])

def together(x, recs, det):
  """All hosts did the same, and hold the same."""
  a = recs[0]
  for r in recs:
    d = dict(det, host=r['host'])
    c.check(r['end'] == a['end'] and r['step'] == r['end'], 'hosts:last-step', got=(r['end'], r['step']), host0=a['end'], **d)
    c.check(r['log'] == a['log'], 'hosts:different-calls', got=r['log'], host0=a['log'], **d)
    c.check(r['committed'] == a['committed'], 'hosts:different-checkpoints', got=r['committed'], host0=a['committed'], **d)
    diff = [k for k in a['leaves'] if k not in r['leaves'] or not np.array_equal(r['leaves'][k], a['leaves'][k], equal_nan=True)]
    c.check(not diff and set(r['leaves']) == set(a['leaves']), 'hosts:different-state', leaves=diff[:5], values=[(a['leaves'][k].ravel()[:3], r['leaves'][k].ravel()[:3]) for k in diff[:2]], **d)
    c.check(not r['copies'], 'hosts:replicas-differ', leaves=r['copies'][:5], **d)
    c.check(all(q == tuple(r['layout']) for q in r['asked']), 'hosts:shard-asked-for', asked=r['asked'], layout=r['layout'], **d)
    c.check(r['host'] == 0 or not r['writes'], 'hosts:summary-written-elsewhere', writes=r['writes'][:3], **d)
    c.check(r['host'] == 0 or not r['calls'], 'hosts:action-run-elsewhere', calls=r['calls'][:3], **d)
    c.event('hosts-compared')
  n = a['layout'][1]; c.check({r['layout'][0] for r in recs} == set(range(n)), 'hosts:data-shards', layouts=[r['layout'] for r in recs], **det)
  c.event('several-data-shards', n > 1); c.event('shared-data-shard', n < len(recs))

def replay(x, r, at, det):
  """float64 replay of the whole history so far; at: the batch of every step."""
  bs = LL.stream(x['seed'], x['total'] + 8); k = x['n_mb'] or 1; hist = [sum(r['hist'][i:i + k]) for i in range(0, r['n'], k)]
  want = [LL.sig(bs[j]) for j in at]
  c.check(len(hist) == len(want) and np.allclose(hist, want, rtol=1e-4, atol=1e-3), 'batches', got=hist, want=want, **det)

def close(a, b): return all(k in b and np.allclose(a[k], b[k], rtol=2e-3, atol=2e-4) for k in a) and set(a) == set(b)

def as_one(x, recs, ref, det):
  """The same as the run in one process."""
  a = recs[0]
  c.check(a['end'] == ref['end'], 'one:last-step', got=a['end'], want=ref['end'], **det)
  c.check([e[:4] for e in a['log']] == [e[:4] for e in ref['log']], 'one:different-calls', got=a['log'], want=ref['log'], **det)
  c.check(a['committed'] == ref['committed'], 'one:checkpoints', got=a['committed'], want=ref['committed'], **det)
  if x['key'] is not None:
    for k, v in ref['leaves'].items(): c.close(a['leaves'].get(k), v, 'one:state', rtol=2e-3, atol=2e-4, leaf=k, **det)
  got, want = ([(n, s) for n, s, _ in reports(r['writes'])] for r in (a, ref))
  c.check(got == want, 'one:reports', got=got, want=want, **det)
  if x['key'] is not None:
    for p, q in zip(reports(a['writes']), reports(ref['writes'])): c.check(close(p[2], q[2]), 'one:reported-values', got=p, want=q, **det); c.event('reports')
  c.check([s for s, _ in a['calls']] == [s for s, _ in ref['calls']], 'one:action-calls', got=[s for s, _ in a['calls']], want=[s for s, _ in ref['calls']], **det)
  c.event('evaluations', sum(e[0] == 'eval' for e in a['log']))

def details(x, topo): return dict(hosts=topo[0], **{k: x[k] for k in ('mesh', 'total', 'period', 'evals', 'eval_period', 'actions', 'ds', 'orbax', 'stats', 'n_mb', 'key', 'skew')})

def quiet(x, d): return dict(x, dir=d, skew={}, slow={}, kill=None)

def normal(i):
  topo = TOPO[(i + c.shard) % len(TOPO)]; xs = []; clock = i % 2 == 1
  for k in range(3):
    x = disturb(scenario(k), topo[0]); x['mesh'] = pick(MESH[topo]); x['key'] = None if clock else x['key']; xs.append(x)
  plan = []; refs = []
  for x in xs:
    r = c.dir('ref'); goals = sorted({int(g) for g in rng.integers(1, x['total'], int(rng.integers(0, 3)))} | {x['total']})
    for g in goals: plan.append(dict(x, goal=g)); refs.append(dict(quiet(x, r), goal=g, key=0 if clock else x['key']))
  got = job(topo, plan)
  if got is None: return
  before = {}
  for life, (x, y, recs) in enumerate(zip(plan, refs, got)):
    det = dict(details(x, topo), goal=x['goal']); ref = mploop.lifetime(y, host=0, part=ONE); c.beat()
    together(x, recs, det); as_one(x, recs, ref, det)
    a = recs[0]; replay(x, a, range(a['end']), det)
    w = before.setdefault(x['dir'], a['first'].get(0))
    if w is not None:
      st = LL.Stub(w, LR); bs = LL.stream(x['seed'], x['total'] + 8); LL.B = x['B']
      for t in range(a['end']): st.step(t, bs[t])
      for t, v in a['first'].items(): c.close(v, st.w[t], 'trajectory', rtol=2e-3, atol=2e-4, step=t, **det)
      if a['end'] in st.w: c.close(a['leaves'][next(k for k in a['leaves'] if 'target' in k and k.endswith("['w']"))], st.w[a['end']], 'trajectory', rtol=2e-3, atol=2e-4, step=a['end'], **det)
      c.event('replayed-steps', a['end'])
    starts = [e[1] for e in a['log'] if e[0] == 'train']; c.event('lifetimes'); c.event('resumed-lifetimes', bool(starts) and starts[0] > 0)
    c.event('seed-from-the-clock', clock and any(x['skew'].values())); c.event('stopped-by-host-0', a['end'] < x['goal'])
    c.event('other-hosts-asked-to-stop', any(h and any(s <= a['end'] for s in at) for q in x['actions'].values() for h, at in q.items()))
    c.case((x['seed'], life), bool(starts), det)
  for x in xs: c.drop(x['dir'])

def death(i):
  """One host dies; the job is started again, sometimes on other hosts."""
  topo = pick(TOPO); k = int(rng.integers(0, 3)); x = scenario(k); x['mesh'] = pick(MESH[topo]); same = bool(rng.random() < .6); x['ds'] = same; other = topo if same else pick([t for t in TOPO if t != topo])
  w = int(rng.integers(0, topo[0])); s = int(rng.integers(0, x['total'])); first = dict(x, kill=(w, s), slow={h: .05 for h in range(topo[0]) if rng.random() < .4})
  det = dict(details(x, topo), killed=(w, s), again_on=other)
  c.beat(); codes = mproc.finish(*mproc.start('loop', *topo, ([first],), c.scratch), timeout=90, crash=2.5); c.beat()
  if -9 not in [codes[w]]: c.event('death-not-reached'); return
  c.event('hosts-killed')
  steps = LL.committed(x['dir'])
  # Where single calls of the trainer start, as one process does it.
  ref = mploop.lifetime(quiet(x, c.dir('ref')), host=0, part=ONE); c.beat()
  starts = [e[1] for e in ref['log'] if e[0] == 'train']; s = min([t for t in starts if t >= s], default=x['total'])
  due = [t for t in ref['committed'] if t <= s]
  c.check(steps == due or x['orbax'] and steps == due[:-1], 'death:checkpoints', got=steps, want=due, **det)
  y = dict(x, mesh=x['mesh'] if same else pick(MESH[other])); got = job(other, [y], killed=(w, s), first_on=topo)
  if got is None: return
  a = got[0][0]; together(y, got[0], det)
  run = [e[1] for e in a['log'] if e[0] == 'train']; resumed = steps[-1] if steps else 0
  c.check(run[:1] == [resumed] or resumed == x['total'] and not run, 'death:resumed-at', got=run[:1], want=resumed, **det)
  c.check(a['end'] == x['total'] and a['committed'] == ref['committed'], 'death:end', got=(a['end'], a['committed']), want=(x['total'], ref['committed']), **det)
  replay(x, a, list(range(x['total'])) if same else list(range(resumed)) + list(range(x['total'] - resumed)), det)
  if same:
    for k, v in ref['leaves'].items(): c.close(a['leaves'].get(k), v, 'death:state', rtol=2e-3, atol=2e-4, leaf=k, **det)
  c.event('runs-after-a-death'); c.event('resumed-lifetimes', resumed > 0); c.event('continued-on-other-hosts', not same); c.case((x['seed'], 'death'), True, det)
  c.drop(x['dir'])

for i in range(c.n(2, 5)):
  if c.vseen or i and c.out_of_time(.8): break   # hosts that disagree wait for each other for long
  c.section('normal', lambda: normal(i))
  if not c.vseen and not c.out_of_time(.8): c.section('death', lambda: death(i))
c.finish()
