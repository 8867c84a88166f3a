import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import shards
c = shards.run('U01', rule='one case = one dataset configuration (sizes, files, tasks, mixture, shards, batch, seed, shuffling, epochs, packing, caches) read by every shard; distinct by the configuration', quick=8, thorough=40, stall=300, parallel=8,
  needs=[('examples', 1000), ('shards-read', 100), ('file-sharded', 2), ('example-sharded', 3), ('packed', 3), ('eval-sets', 25), ('mixtures', 4), ('tasks-without-split', 2), ('rejected', 8), ('empty', 1), ('endless', 1), ('same-again', 10), ('global-batches', 60), ('restored', 8), ('multi-process', 2)])
import vlib, t5xshim
import collections, itertools
import numpy as np, jax, seqio, tensorflow as tf
import datalib as D
import mproc
from t5x import partitioning, utils
rng = c.rng
FC = seqio.EncDecFeatureConverter
UID = [0]

def task(n=None, splits=('train', 'validation'), **k):
  UID[0] += 1; n = int(rng.choice([1, 2, int(rng.integers(3, 40)), int(rng.integers(3, 40))])) if n is None else n
  base = int(rng.integers(1, 30000)); files = int(rng.choice([0, 0, 1, 2, 3, 5, 8])); us = list(range(base, base + n)); parts = [[] for _ in range(files)]
  for u in us:
    if files: parts[int(rng.integers(0, files)) if rng.random() < .3 else (u - base) % files].append(u)
  return dict(dict(name='u%d_%d' % (os.getpid(), UID[0]), uids=us, files=files, parts=parts, splits=list(splits), drop=False, buffer=int(rng.choice([3, 1000])), counted=bool(rng.random() < .7)), **k)

def config(name, **k):
  return utils.DatasetConfig(**dict(dict(mixture_or_task_name=name, task_feature_lengths={'inputs': D.LI, 'targets': D.LT}, split='validation', batch_size=4, shuffle=False, seed=7), **k))

def read(ds, limit=None):
  """Rows of every batch; the shapes are those of the configuration."""
  out = []
  for b in itertools.islice(ds.as_numpy_iterator() if isinstance(ds, tf.data.Dataset) else iter(ds), limit): out.append(D.uids(b))
  return out

flat = lambda bs: [u for b in bs for r in b for u in (r if isinstance(r, list) else [r])]

def training(i):
  d = c.dir('t'); nt = int(rng.choice([1, 1, 2])); ts = [task() for _ in range(nt)]; mix = 'm' + ts[0]['name'] if nt > 1 else None
  taken = set()
  for t in ts:   # identities do not overlap
    while taken & set(t['uids']): off = int(rng.integers(1, 500)); t['uids'] = [u + off for u in t['uids']]; t['parts'] = [[u + off for u in p] for p in t['parts']]
    taken |= set(t['uids'])
  D.register(ts, mix, d); name = mix or ts[0]['name']
  N = int(rng.choice([1, 2, 3, 4, 8])); b = int(rng.integers(1, 4)); shuffle = bool(rng.random() < .5); seed = int(rng.integers(0, 1 << 30)); epochs = [1, 1, 2, 3, None][int(rng.integers(0, 5))]; pack = bool(rng.random() < .25)
  cfg = config(seqio.get_mixture_or_task(name) if rng.random() < .3 else name, batch_size=N * b, shuffle=shuffle, seed=seed, pack=pack, split=['train', 'validation'][i % 2]); det = dict(tasks=[(len(t['uids']), t['files'], [len(p) for p in t['parts']], t['buffer']) for t in ts], N=N, local_batch=b, shuffle=shuffle, epochs=epochs, pack=pack)
  if mix: c.event('mixtures')
  if pack: c.event('packed')
  limit = None if epochs is not None and not mix else 12
  if mix and epochs is not None: limit = None
  if epochs is None: limit = 4 + 3 * max(len(t['uids']) for t in ts) // b; c.event('endless')
  streams = []
  for k in range(N):
    ok, ds = c.attempt('training', utils.get_dataset, cfg, k, N, FC, epochs)
    if not ok: c.drop(d); return
    bs = read(ds, limit); c.event('shards-read')
    c.check(all(len(x) == b for x in bs), 'batch-size', got=[len(x) for x in bs], **det)
    c.check(all(u is not None for u in flat(bs)), 'examples-mangled', **det); streams.append(bs); c.event('examples', len(flat(bs)))
    if rng.random() < .4:
      again = read(utils.get_dataset(cfg, k, N, FC, epochs), limit); c.check(again == bs, 'same-seed-other-order', shard=k, first=bs[:3], second=again[:3], **det); c.event('same-again')
  whole = [u for t in ts for u in t['uids']]; owner = {}; times = collections.Counter()
  for k, bs in enumerate(streams):
    n = collections.Counter(flat(bs))
    for u, q in n.items():
      c.check(u in taken, 'unknown-example', got=u, **det)
      # A source that shuffles deals its examples anew in every epoch.
      if u in owner and owner[u] != k and (not shuffle or epochs == 1): c.violation('example-in-two-shards', example=u, shards=(owner[u], k), **det)
      owner[u] = k; times[u] += q
  if epochs is not None:
    for u, q in times.items(): c.check(q <= epochs, 'duplicate', example=u, times=q, **det)
  if not mix and len(ts) == 1:
    t = ts[0]; by_file = t['files'] >= N; c.event('file-sharded' if by_file and N > 1 else 'example-sharded')
    if epochs is not None and not pack:
      total = sum(len(flat(bs)) for bs in streams); c.check(total >= len(whole) * epochs - N * (b - 1), 'lost-examples', total=total, want=len(whole) * epochs, **det)
    if not by_file and not pack:
      # Every N-th example of the source, for which the order of the source is needed.
      src = [u for u in (flat(read(utils.get_dataset(config(t['name'], batch_size=1, shuffle=False, seed=seed), 0, 1, FC, 1))))]
      c.check(sorted(src) == sorted(whole), 'lost-examples', got=sorted(src), want=sorted(whole), **det)
      for k, bs in enumerate(streams):
        mine = src[k::N]; got = flat(bs)
        if not shuffle:
          want = mine * (epochs or (len(got) // max(1, len(mine)) + 1)); want = want[:len(got)] if epochs is None else want[:len(want) // b * b]
          c.check(got == want, 'wrong-order', shard=k, got=got[:20], want=want[:20], **det)
        if epochs is None: c.check(bool(got) == bool(mine) and (not mine or len(got) == limit * b), 'ends', shard=k, got=len(got), **det)
    if epochs is None and not shuffle and not pack:
      for k, bs in enumerate(streams):
        # Endless and periodic: every example of the shard comes once per round.
        got = flat(bs); p = len(set(got)); c.check(all(got[x] == got[x % p] for x in range(len(got))) if p else True, 'rounds', shard=k, got=got[:30], **det)
      if all(streams): 
        seen = set(owner); full = all(len(flat(bs)) >= len(whole) for bs in streams); c.check(not full or seen == set(whole), 'never-seen', missing=sorted(set(whole) - seen)[:10], **det)
  c.case(('training', str(det), seed)); c.drop(d)

def rejected():
  N = int(rng.integers(2, 9)); b = int(rng.integers(1, 40)); b += (b % N == 0); t = task(n=20); d = c.dir('r'); D.register([t], None, d)
  for what, f in (('get_dataset', lambda: utils.get_dataset(config(t['name'], batch_size=b), 0, N, FC)), ('eval', lambda: utils.get_training_eval_datasets(config(t['name'], batch_size=b), 0, N, 3, FC))):
    try: f(); c.violation('uneven-accepted', what=what, batch=b, N=N)
    except ValueError as e: c.check('divisible' in str(e), 'uneven-message', what=what, error=repr(e)[:200]); c.event('rejected')
  c.case(('rejected', b, N)); c.drop(d)

def evaluation(i):
  d = c.dir('e'); nt = int(rng.integers(1, 5)); ts = []
  for j in range(nt):
    t = task(drop=bool(rng.random() < .1)); 
    while any(set(t['uids']) & set(o['uids']) for o in ts): off = int(rng.integers(1, 500)); t['uids'] = [u + off for u in t['uids']]; t['parts'] = [[u + off for u in p] for p in t['parts']]
    if j and rng.random() < .35: t['splits'] = ['train']
    t['rate'] = int(rng.integers(1, 4)); ts.append(t)
  mix = 'm' + ts[0]['name'] if nt > 1 or rng.random() < .2 else None; D.register(ts, mix, d); name = mix or ts[0]['name']
  N = int(rng.choice([1, 2, 3, 4])); b = int(rng.integers(1, 4)); steps = int(rng.integers(1, 7)); shuffle = bool(rng.random() < .5); cache = bool(rng.random() < .5); pack = bool(rng.random() < .2); seed = int(rng.integers(0, 1 << 30)) if rng.random() < .9 else 0
  cfg = config(seqio.get_mixture_or_task(name) if rng.random() < .3 else name, batch_size=N * b, shuffle=shuffle, seed=seed, pack=pack, use_memory_cache=cache); det = dict(tasks=[(len(t['uids']), t['files'], t['splits'], t['drop']) for t in ts], mixture=bool(mix), N=N, local_batch=b, eval_steps=steps, shuffle=shuffle, cache=cache, pack=pack, seed=seed)
  have = [t for t in ts if 'validation' in t['splits']]; c.event('tasks-without-split', len(ts) - len(have)); keys = {t['name'] for t in have} | ({mix} if mix else set())
  if mix: c.event('mixtures')
  if pack: c.event('packed')
  sets = []
  for k in range(N):
    ok, s = c.attempt('evaluation', utils.get_training_eval_datasets, cfg, k, N, steps, FC)
    if not ok: c.drop(d); return
    c.check(set(s) == keys, 'eval-sets', got=sorted(s), want=sorted(keys), **det); sets.append(s)
  ref = utils.get_training_eval_datasets(__import__('dataclasses').replace(cfg), 0, 1, steps, FC)
  for key in keys:
    if any(key not in s for s in sets): continue
    c.event('eval-sets'); t = next((t for t in ts if t['name'] == key), None); mine = set(t['uids']) if t else {u for t in have for u in t['uids']}; alive = [x for x in ([t] if t else have) if not x['drop']]
    for rnd in range(2):   # every evaluation reads it again
      parts = [read(s[key]) for s in sets]; one = read(ref[key]); c.event('shards-read', N)
      if not alive:
        c.check(all(not p for p in parts), 'empty', got=[len(p) for p in parts], **det); c.event('empty'); continue
      if len(alive) < len(have): continue   # SeqIO ends a mixture with an empty task at once
      c.check(all(len(p) == steps for p in parts), 'eval-steps', task=key, got=[len(p) for p in parts], want=steps, **det)
      c.check(all(len(x) == b for p in parts for x in p), 'eval-batch', task=key, **det); c.event('examples', sum(len(flat(p)) for p in parts))
      # Put together as the shards were dealt, the rows are those of a single shard.
      glob = []
      for st in range(min([len(p) for p in parts] + [steps])):
        for q in range(b):
          for k in range(N): glob.append(parts[k][st][q])
      want = [r for x in one for r in x]
      # Read again, a shuffled set that is not cached depends on how far tf.data had read ahead.
      if rnd == 0 or cache or not shuffle: c.check(glob == want, 'shards-differ-from-whole', task=key, round=rnd, got=glob[:12], want=want[:12], **det)
      c.check(set(u for r in glob for u in (r if isinstance(r, list) else [r])) <= mine, 'foreign-examples', task=key, **det)
      if t and not shuffle and not pack:
        src = flat(read(utils.get_dataset(config(t['name'], batch_size=1, seed=seed), 0, 1, FC, 1)))
        c.check(sorted(src) == sorted(t['uids']) and glob == list(itertools.islice(itertools.cycle(src), len(glob))), 'eval-order', task=key, got=glob[:15], want=src[:15], **det)
      if rnd == 0: first = glob
      elif cache or not shuffle: c.check(glob == first, 'second-reading', task=key, got=glob[:12], want=first[:12], **det)
  c.case(('evaluation', str(det))); c.drop(d)

def iterator(i):
  """prepare_train_iter: global arrays, peeking, saving and restoring."""
  d = c.dir('p'); t = task(n=int(rng.integers(3, 40))); D.register([t], None, d); mp = int(rng.choice([1, 2, 4])); part = partitioning.PjitPartitioner(model_parallel_submesh=(1, mp)); B = 4 * int(rng.integers(1, 4)); shuffle = bool(rng.random() < .5); pack = bool(rng.random() < .3)
  cfg = config(t['name'], batch_size=B, shuffle=shuffle, seed=int(rng.integers(0, 1 << 30)), pack=pack); lay = part.get_data_layout(B); det = dict(n=len(t['uids']), files=t['files'], mp=mp, B=B, shuffle=shuffle, pack=pack)
  make = lambda: utils.prepare_train_iter(utils.get_dataset(cfg, lay.shard_id, lay.num_shards, FC), partitioner=part, checkpoint_cfg=None, data_layout=lay)
  raw = utils.get_dataset(cfg, lay.shard_id, lay.num_shards, FC).as_numpy_iterator(); n = int(rng.integers(3, 9)); want = [next(raw) for _ in range(n + 6)]
  ok, it = c.attempt('iterator', make)
  if not ok: c.drop(d); return
  at = int(rng.integers(0, n)); path = os.path.join(d, 'it', 'ckpt'); os.makedirs(os.path.dirname(path))
  def same(x, k, tag):
    ok = set(x) == set(want[k]) and all(isinstance(v, jax.Array) and v.shape[0] == B and (np.asarray(v) == want[k][f]).all() for f, v in x.items()); c.check(ok, tag, batch_index=k, **det); c.event('global-batches')
    if ok:
      # Every device holds its rows.
      v = x['encoder_input_tokens']
      for s in v.addressable_shards: c.check((np.asarray(s.data) == want[k]['encoder_input_tokens'][s.index]).all() and s.data.shape[0] == B // (4 // mp), tag + ':rows', **det)
  for k in range(n):
    if k == at: it.save(path)
    if rng.random() < .4: same(it.peek(), k, 'peek')
    same(next(it), k, 'next')
  it2 = make()
  for _ in range(int(rng.integers(0, 4))): next(it2)
  ok, _ = c.attempt('iterator', it2.restore, path)
  if ok:
    for k in range(at, at + 5): same(next(it2), k, 'restored')
    c.event('restored')
  if not shuffle: it2.reset(); same(next(it2), 0, 'reset')
  c.case(('iterator', str(det))); c.drop(d)

def processes(i):
  np_, k = [(2, 2), (3, 1), (2, 1), (4, 1)][i % 4]; d = c.dir('mp'); cases = []
  for _ in range(c.n(3, 5)):
    t = task(n=int(rng.integers(8, 60))); B = np_ * k * int(rng.integers(1, 4)); cases.append(dict(task=t, B=B, shuffle=bool(rng.random() < .5), seed=int(rng.integers(0, 1 << 30)) if rng.random() < .8 else None, mp=int(rng.choice([1, k])), steps=6, d=d, eval_steps=3))
  try: out = mproc.run('data', np_, k, (cases,), c.scratch, timeout=240)
  except mproc.Failed as e:
    if all(x[1] == 'repo' for x in e.errors): c.violation('processes:raised', error=e.errors[0][2][-900:], np=np_, k=k); return
    raise
  c.event('multi-process')
  for j, x in enumerate(cases):
    det = dict(n=len(x['task']['uids']), files=x['task']['files'], B=x['B'], mp=x['mp'], shuffle=x['shuffle'], seed=x['seed'], procs=(np_, k)); rs = [out[p][j] for p in range(np_)]
    ns = {r['num_shards'] for r in rs}
    if not c.check(len(ns) == 1, 'processes:layout', got=ns, **det): continue
    ns = ns.pop(); local = {}
    for r in rs if x['seed'] is not None else []: c.check(r['raw'] == local.setdefault(r['shard'], r['raw']), 'processes:same-shard-differs', **det)
    for q in range(x['steps']):
      want = x['seed'] is not None and [row for s in range(ns) for row in local[s][q]]
      for p, r in enumerate(rs): c.check(r['global'][q] == (want if x['seed'] is not None else rs[0]['global'][q]), 'processes:global-batch', process=p, got=r['global'][q], want=want, **det); c.event('global-batches')
    seen = collections.defaultdict(set)
    for s, bs in local.items():
      for b in bs: seen[s] |= set(b)
    for a, b in itertools.combinations(seen, 2): c.check(x['shuffle'] or x['seed'] is None or not (seen[a] & seen[b]), 'example-in-two-shards', shards=(a, b), both=sorted(seen[a] & seen[b])[:5], **det)
    # Evaluation: all processes together see the first examples, whatever their number.
    g = []; ev = {r['shard']: r['eval'] for r in rs}
    for st in range(x['eval_steps']):
      for q in range(x['B'] // ns):
        for s in range(ns): g.append(ev[s][st][q])
    if x['seed'] is not None:
      D.register([x['task']], None, d) if x['task']['name'] not in seqio.TaskRegistry.names() else None
      ref = utils.get_training_eval_datasets(config(x['task']['name'], batch_size=x['B'], shuffle=x['shuffle'], seed=x['seed']), 0, 1, x['eval_steps'], FC)[x['task']['name']]
      want = flat(read(ref)); c.check(g == want, 'processes:evaluation', got=g[:12], want=want[:12], **det)
    c.case(('processes', str(det)), True)
  c.drop(d)

if c.shard % 4 == 0 or c.n(0, 1): c.section('processes', processes, c.shard // 4 + c.seed); c.beat()
for i in range(c.n(6, 40)):
  if c.out_of_time(.14 if c.tier == 'quick' else .85): break
  c.section('training', training, i); c.beat(); c.section('evaluation', evaluation, i); c.beat()
  if i < c.n(2, 20): c.section('iterator', iterator, i); c.section('rejected', rejected)
  c.beat()
c.finish()
