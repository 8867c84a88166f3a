import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=2'
import vlib, t5xshim
import shutil
import numpy as np
import tensorflow as tf
import ckptlib as K
from t5x import checkpoints, checkpoint_utils
c = vlib.Check('C03', rule='random histories of saves, pins, unpins, restarts with other limits and foreign files; after every operation the whole directory tree is compared with a model; '
  'distinct by history; non-trivial = something was removed or protected')
rng = c.rng
P1 = K.part((1, 1)); P2 = K.part((1, 2))
FOREIGN = ['checkpoint_%d.tmp-1600000000', 'checkpoint_x%d', 'best_checkpoint_%d', 'checkpoint_%d_old', 'ckpt_%d', 'checkpoint_%d.orbax-checkpoint-tmp-3']

def history(i):
  d = c.dir('h'); p = [P1, P2][i % 2]
  base = K.make_state(rng, K.random_tree(rng, int(rng.integers(1, 3)), rank=2), 'sgd')
  on = {}        # step -> dict(pinned, ds)
  foreign = {}
  log, ck, cfg = [], None, None
  top = int(rng.choice([12, 40, 1200]))
  nxt = int(rng.integers(0, 3))
  removed_any = False
  for j in range(int(rng.integers(6, 16))):
    r = rng.random()
    if ck is None or r < .12:
      cfg = dict(keep=[None, 0, 1, 2, 3, 5][int(rng.integers(0, 6))], keep_ds=[None, 0, 1, 2, 4][int(rng.integers(0, 5))], ds=bool(rng.random() < .6))
      ds = iter(tf.data.Dataset.range(10000)) if cfg['ds'] else None
      ck = checkpoints.Checkpointer(base, p, d, ds, keep=cfg['keep'], keep_dataset_checkpoints=cfg['keep_ds'])
      log.append(('start', str(cfg)))
    elif r < .24 and on:
      s = int(rng.choice(sorted(on))); checkpoint_utils.pin_checkpoint(os.path.join(d, 'checkpoint_%d' % s), str(rng.choice(['1', 'evaluator', '']))); on[s]['pinned'] = True; log.append(('pin', s)); c.event('pins')
    elif r < .3 and on:
      s = int(rng.choice(sorted(on))); checkpoint_utils.unpin_checkpoint(os.path.join(d, 'checkpoint_%d' % s)); on[s]['pinned'] = False; log.append(('unpin', s)); c.event('unpins')
    elif r < .4:
      n = str(rng.choice(FOREIGN)) % int(rng.integers(0, top))
      if not os.path.exists(os.path.join(d, n)):
        if rng.random() < .7: os.makedirs(os.path.join(d, n)); open(os.path.join(d, n, 'checkpoint'), 'w').write('x')
        else: open(os.path.join(d, n), 'w').write('x')
        foreign[n] = K.snapshot(os.path.join(d, n)) if os.path.isdir(os.path.join(d, n)) else None
        log.append(('foreign', n)); c.event('foreign')
    else:
      if rng.random() < .12 and on: s = int(rng.choice(sorted(on)))          # already there
      elif rng.random() < .15: s = int(rng.integers(0, max(nxt, 1) + 1))      # older
      else: s = nxt + int(rng.integers(0, max(2, top // 8))); nxt = s + 1
      keepers = {q: K.snapshot(os.path.join(d, 'checkpoint_%d' % q)) for q in on}
      ok, _ = c.attempt('save', ck.save, K.place(K.refill(rng, base, s), p, 'single'))
      if not ok: return
      log.append(('save', s)); c.event('saves')
      if s in on: c.event('existing-step')
      else:
        on[s] = dict(pinned=False, ds=cfg['ds'])
        if cfg['keep']:
          newest = set(sorted(on)[-cfg['keep']:])
          for q in sorted(on):
            if q in newest: continue
            if on[q]['pinned']: c.event('protected'); continue
            del on[q]; c.event('removals'); removed_any = True
        if cfg['keep_ds']:
          have = [q for q in sorted(on) if on[q]['ds']]
          for q in have[:-cfg['keep_ds']]:
            if on[q]['pinned']: c.event('ds-protected'); continue
            on[q]['ds'] = False; c.event('ds-removals'); removed_any = True
      # What survives is untouched, apart from dataset files that were due.
      for q, snap in keepers.items():
        if q in on and os.path.isdir(os.path.join(d, 'checkpoint_%d' % q)):
          now = K.snapshot(os.path.join(d, 'checkpoint_%d' % q))
          w = {f: h for f, h in snap.items() if on[q]['ds'] or not f.startswith('train_ds')}
          c.check(now == w, 'survivor-changed', step=q, missing=sorted(set(w) - set(now))[:4], extra=sorted(set(now) - set(w))[:4], log=log)
    # The directory is exactly what the model says.
    entries = set(os.listdir(d))
    want = {'checkpoint_%d' % q for q in on} | set(foreign)
    det = dict(config=cfg, log=log[-12:], pinned=[q for q in on if on[q]['pinned']])
    if not c.check(entries == want, 'retained-set', got=sorted(entries), want=sorted(want), **det): return
    for q, st in on.items():
      dd = os.path.join(d, 'checkpoint_%d' % q)
      has = any(f.startswith('train_ds-') for f in os.listdir(dd))
      if not c.check(has == st['ds'], 'dataset-retained-set', step=q, got=has, want=st['ds'], **det): return
      if not c.check(checkpoint_utils.is_pinned_checkpoint(dd) == st['pinned'] == os.path.exists(os.path.join(dd, 'PINNED')), 'pin-state', step=q, **det): return
    for n, snap in foreign.items():
      if snap is not None: c.check(K.snapshot(os.path.join(d, n)) == snap, 'foreign-touched', name=n, **det)
    c.check([int(x) for x in ck.all_steps()] == sorted(on) and ck.latest_step() == (max(on) if on else None), 'listing', got=[int(x) for x in ck.all_steps()], want=sorted(on), **det)
    c.check([int(x) for x in ck.all_dataset_checkpoint_steps()] == [q for q in sorted(on) if on[q]['ds']], 'dataset-listing', **det)
  c.case(str(log), removed_any, dict(log=[str(x) for x in log[:6]]))
  c.drop(d)

for i in range(c.n(150, 2500)):
  if c.out_of_time(.9): break
  c.section('history', history, i)
c.need('removals', 60); c.need('ds-removals', 20); c.need('protected', 10); c.need('ds-protected', 3); c.need('existing-step', 10); c.need('foreign', 30)
c.finish()
