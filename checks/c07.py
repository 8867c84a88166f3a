import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, t5xshim
import re, shutil
import numpy as np
import gin
import jax, jax.numpy as jnp
from flax import serialization, traverse_util
from flax.core import freeze
import tensorflow as tf
import ckptlib as K
from t5x import checkpoints, checkpoint_utils, checkpoints_utils as cu, utils
c = vlib.Check('C07', rule='one case = one random directory content (or list of restore configurations over real checkpoints), with every look-up function asked about it; distinct by content')
rng = c.rng

def nm(): return str(rng.choice(['run', 'a b', 'run[1]', 'm*del', 'w?o', 'checkpoint_7', '{x}', 'exp.d', 'checkpoint', 'ünï']))

def prefix_of():
  return str(rng.choice(['checkpoint'] * 4 + ['ckpt', 'model.step', 'a+b', 'check[x]'])) if rng.random() < .5 else 'checkpoint'

def fake(p, with_ds=0):
  os.makedirs(p)
  open(os.path.join(p, 'checkpoint'), 'wb').write(serialization.msgpack_serialize({'version': 3, 'optimizer': {}}))
  for j in range(with_ds): open(os.path.join(p, 'train_ds-%03d-of-%03d.%s' % (j, with_ds, rng.choice(['index', 'data-00000-of-00001']))), 'w').write('x')

def junk(d, prefix):
  """Entries that are not complete checkpoints."""
  s = int(rng.integers(0, 30))
  kind = str(rng.choice(['tmp', 'del', 'orbax', 'word', 'empty', 'pre', 'neg', 'float', 'train', 'hex', 'other', 'file', 'space']))
  n = {'tmp': '%s_%d.tmp-%d' % (prefix, s, rng.integers(1e6, 9e6)), 'del': '%s_%d.tmp-deleting' % (prefix, s), 'orbax': '%s_%d.orbax-checkpoint-tmp-%d' % (prefix, s, s), 'word': prefix + '_best',
       'empty': prefix + '_', 'pre': 'x%s_%d' % (prefix, s), 'neg': '%s_-%d' % (prefix, s + 1), 'float': '%s_%d.5' % (prefix, s), 'train': 'training_eval', 'hex': '%s_1e%d' % (prefix, s % 9),
       'other': ('other_%d' % s), 'file': 'config.gin', 'space': '%s_%d ' % (prefix, s)}[kind]
  p = os.path.join(d, n)
  if os.path.exists(p): return None
  if kind == 'file': open(p, 'w').write('x')
  else: fake(p, int(rng.integers(0, 2)))
  return kind

def outcome(fn, *a, **k):
  try: return ('ok', fn(*a, **k))
  except Exception as e: return ('raise', type(e).__name__ + ' ' + str(e)[:200])

def listing(i):
  prefix = prefix_of()
  with gin.unlock_config():
    gin.clear_config()
    if prefix != 'checkpoint': gin.bind_parameter('t5x.checkpoints_utils.get_checkpoint_prefix.prefix' if False else 'get_checkpoint_prefix.prefix', prefix)
  base = c.dir('l'); d = os.path.join(base, nm()); os.makedirs(d)
  try:
    # A neighbour whose name a pattern could confuse with this directory.
    for other in ('run1', 'm_del', 'wxo', 'x'):
      if other != os.path.basename(d):
        q = os.path.join(base, other); os.makedirs(q, exist_ok=True); fake(os.path.join(q, '%s_%d' % (prefix, 99)), 1)
    big = [0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 2**31 - 1, 2**31, 10**12]
    pool = big if rng.random() < .5 else list(range(25))
    steps = sorted(int(x) for x in rng.choice(pool, int(rng.integers(0, min(8, len(pool)))), replace=False))
    ds = []
    for s in [steps[j] for j in rng.permutation(len(steps))]:
      k = int(rng.integers(0, 3)); fake(os.path.join(d, '%s_%d' % (prefix, s)), k)
      if k: ds.append(s)
      if rng.random() < .3: checkpoint_utils.pin_checkpoint(os.path.join(d, '%s_%d' % (prefix, s)))
    kinds = [junk(d, prefix) for _ in range(int(rng.integers(0, 6)))]
    for k in kinds: c.event('junk-%s' % k) if k else None
    arg = d + '/' if rng.random() < .2 else d
    det = dict(dir=os.path.basename(d), prefix=prefix, contents=sorted(os.listdir(d)), trailing=arg != d)
    before = K.snapshot(base)
    c.check(outcome(cu.all_steps, arg) == ('ok', steps), 'listing:all-steps', got=outcome(cu.all_steps, arg), want=steps, **det)
    c.check(outcome(checkpoints.latest_step, arg) == ('ok', steps[-1] if steps else None), 'listing:latest-step', got=outcome(checkpoints.latest_step, arg), want=steps, **det)
    got = outcome(cu.all_dataset_checkpoint_steps, arg)
    c.check(got == ('ok', sorted(ds)), 'listing:dataset-steps', got=got, want=sorted(ds), **det)
    c.event('dataset-steps', len(ds)); c.event('steps', len(steps)); c.event('empty-dir' if not steps else 'non-empty'); c.event('step-zero', 0 in steps); c.event('prefix', prefix != 'checkpoint')
    for s in steps:
      p = cu.get_checkpoint_dir(d, s)
      c.check(os.fspath(p) == os.path.join(d, '%s_%d' % (prefix, s)), 'paths:format', got=p, **det)
      for q in (p, p + '/'):
        r = outcome(cu.get_step_from_checkpoint_dir, q); c.check(r == ('ok', (d, s)), 'paths:parse', path=q, got=r, **det)
      w = int(rng.integers(1, 12)); q = cu.get_checkpoint_dir(d, s, w)
      c.check(len(os.path.basename(q)) >= len(prefix) + 1 + w and outcome(cu.get_step_from_checkpoint_dir, q) == ('ok', (d, s)), 'paths:fixed-length', path=q, got=outcome(cu.get_step_from_checkpoint_dir, q))
      r = outcome(checkpoints.find_checkpoint, d, s); c.check(r == ('ok', os.path.join(p, 'checkpoint')), 'find:step', got=r, **det)
      r = outcome(checkpoints.find_checkpoint, os.path.join(p, 'checkpoint')); c.check(r == ('ok', os.path.join(p, 'checkpoint')), 'find:file', got=r, **det)
      r = outcome(checkpoints.find_checkpoint, p); c.check(r == ('ok', os.path.join(p, 'checkpoint')), 'find:step-dir', got=r, **det)
    r = outcome(checkpoints.find_checkpoint, arg)
    if steps: c.check(r[0] == 'ok' and os.path.normpath(r[1]) == os.path.join(d, '%s_%d' % (prefix, steps[-1]), 'checkpoint'), 'find:latest', got=r, **det)
    else: c.check(r[0] == 'raise' and r[1].startswith('ValueError'), 'find:none', got=r, **det)
    gone = next(s for s in range(100) if s not in steps)
    r = outcome(checkpoints.find_checkpoint, d, gone); c.check(r[0] == 'raise' and r[1].startswith('ValueError'), 'find:missing-step', got=r, missing=gone, **det)
    for bad in ('xyz', 'best', prefix + '_best', prefix + '_', prefix + '_5.tmp-3'):
      r = outcome(cu.get_step_from_checkpoint_dir, os.path.join(d, bad)); c.check(r[0] == 'raise' and r[1].startswith('ValueError'), 'paths:accepts-foreign', name=bad, got=r)
    # Selection through a restore configuration.
    for mode in ('latest', 'all'):
      r = outcome(utils.get_first_valid_restore_config_and_paths, [utils.RestoreCheckpointConfig(path=arg, mode=mode)])
      want = [os.path.join(d, '%s_%d' % (prefix, s)) for s in steps]; want = want[-1:] if mode == 'latest' else want
      c.check(r[0] == 'ok' and [os.path.normpath(x) for x in r[1][1]] == want, 'select:' + mode, got=r, want=want, **det)
    # Pins.
    for s in steps[:3]:
      p = os.path.join(d, '%s_%d' % (prefix, s)); was = os.path.exists(os.path.join(p, 'PINNED'))
      c.check(checkpoint_utils.is_pinned_checkpoint(p) == was, 'pin:is-pinned', **det)
      had = {k: v for k, v in K.snapshot(p).items() if k != 'PINNED'}
      checkpoint_utils.pin_checkpoint(p, 'why'); c.check(checkpoint_utils.is_pinned_checkpoint(p), 'pin:pin', **det)
      checkpoint_utils.unpin_checkpoint(p); c.check(not checkpoint_utils.is_pinned_checkpoint(p), 'pin:unpin', **det)
      checkpoint_utils.unpin_checkpoint(p)
      if was: checkpoint_utils.pin_checkpoint(p)
      c.check({k: v for k, v in K.snapshot(p).items() if k != 'PINNED'} == had, 'pin:touches-contents', **det); c.event('pins')
    after = K.snapshot(base)
    c.check({k: v for k, v in after.items() if not k.endswith('PINNED')} == {k: v for k, v in before.items() if not k.endswith('PINNED')}, 'listing:modifies', **det)
    c.case(('list', str(det)), bool(steps) or bool(kinds), dict(steps=steps, dataset=ds, **det))
  finally:
    with gin.unlock_config(): gin.clear_config()
    c.drop(base)

def tf_state(d, steps):
  """A TensorFlow checkpoint-state file and index files."""
  os.makedirs(d, exist_ok=True)
  names = ['model.ckpt-%d' % s for s in steps]
  with open(os.path.join(d, 'checkpoint'), 'w') as f:
    f.write('model_checkpoint_path: "%s"\n' % names[-1] + ''.join('all_model_checkpoint_paths: "%s"\n' % n for n in names))
  for n in names: open(os.path.join(d, n + '.index'), 'w').write('')
  return [os.path.join(d, n) for n in names]

def configs(i):
  """First configuration with a match; within it the first directory with any checkpoint."""
  base = c.dir('cf')
  kinds, dirs = {}, []
  for j in range(int(rng.integers(2, 6))):
    d = os.path.join(base, 'd%d' % j); k = str(rng.choice(['t5x', 't5x', 'tf', 'none', 'none', 'junk', 'missing', 'file']))
    paths = []
    if k == 'file': open(d, 'w').write('x')
    elif k != 'missing':
      os.makedirs(d)
      if k == 'tf': paths = tf_state(d, sorted(int(x) for x in rng.choice(50, int(rng.integers(1, 4)), replace=False)))
      if k == 't5x':
        st = sorted(int(x) for x in rng.choice(50, int(rng.integers(1, 4)), replace=False))
        for s in st: fake(os.path.join(d, 'checkpoint_%d' % s))
        paths = [os.path.join(d, 'checkpoint_%d' % s) for s in st]
      if k in ('junk', 't5x'):
        for _ in range(3): junk(d, 'checkpoint')
    kinds[d] = (k, paths); dirs.append(d)
  cfgs = []
  for j in range(int(rng.integers(0, 5))):
    mode = str(rng.choice(['latest', 'all', 'latest', 'specific']))
    n = int(rng.integers(1, 4)); sel = [dirs[int(x)] for x in rng.integers(0, len(dirs), n)]
    if mode == 'specific' and j < 2 and rng.random() < .6: mode = 'all'
    if mode == 'specific': sel = [os.path.join(x, 'checkpoint_%d' % rng.integers(0, 50)) for x in sel]
    path = sel if n > 1 or rng.random() < .3 else sel[0]
    if isinstance(path, list) and rng.random() < .3: path = tuple(path)
    cfgs.append(utils.RestoreCheckpointConfig(path=path, mode=mode))
  want = (None, [])
  for cfg in cfgs:
    ps = [cfg.path] if isinstance(cfg.path, str) else list(cfg.path)
    if cfg.mode == 'specific': want = (cfg, ps); break
    hit = None
    for p in ps:
      if kinds[p][0] in ('missing', 'file'): hit = 'error'; break
      if kinds[p][1]: hit = kinds[p][1][-1:] if cfg.mode == 'latest' else kinds[p][1]; break
    if hit: want = (cfg, hit); break
  got = outcome(utils.get_first_valid_restore_config_and_paths, cfgs)
  det = dict(dirs={os.path.basename(k): v[0] for k, v in kinds.items()}, cfgs=[(x.mode, x.path) for x in cfgs], got=(got[0], repr(got[1])[:600]))
  if want[1] == 'error':
    c.check(got[0] == 'raise' and got[1].startswith('ValueError'), 'select:not-a-directory', **det); c.event('select-error')
  else:
    c.check(got[0] == 'ok' and got[1][0] is want[0] and list(got[1][1]) == list(want[1]), 'select:first-valid', want=(want[0] and cfgs.index(want[0]), want[1]), **det)
    c.event('select-none' if want[0] is None else 'select-%s' % want[0].mode)
    if want[0] is not None and cfgs.index(want[0]): c.event('select-later-config')
  c.case(('cfg', str(det)), True, det if i < 2 else None); c.drop(base)

class Model:
  def __init__(self, tree): self.tree = tree; self.module = None
  def get_initial_variables(self, rng, input_shapes, input_types=None):
    from flax.linen import partitioning as fp
    flat = traverse_util.flatten_dict(self.tree); p, a = {}, {}
    for j, (k, s) in enumerate(sorted(flat.items())):
      p[k] = jax.random.normal(jax.random.fold_in(rng, j), s[0]).astype(s[1]); a[k[:-1] + (k[-1] + '_axes',)] = fp.AxisMetadata(s[2])
    return {'params': traverse_util.unflatten_dict(p), 'params_axes': traverse_util.unflatten_dict(a)}

def states(i):
  """Real checkpoints: what the trainer, evaluator and inference entry points load."""
  tree = K.random_tree(rng, int(rng.integers(1, 4)), rank=2); p = K.part([(1, 1), (1, 2)][i % 2])
  init = utils.TrainStateInitializer(K.opt_def('sgd'), Model(tree).get_initial_variables, {}, p)
  key = jax.random.PRNGKey(int(rng.integers(0, 2**31 - 1)))
  scratch = init.from_scratch(key)
  c.check(all(K.same(K.host(a), K.host(b)) for a, b in zip(jax.tree.leaves(init.from_scratch(key)), jax.tree.leaves(scratch))), 'scratch:not-deterministic')
  dirs, saved = [], {}
  base = c.dir('st')
  for j in range(3):
    d = os.path.join(base, 'd%d' % j); os.makedirs(d); dirs.append(d); n = int(rng.choice([0, 1, 1, 3])) if j else int(rng.choice([0, 2, 3, 1]))
    orb = rng.random() < .3
    for s in sorted(int(x) for x in rng.choice(30, n, replace=False)):
      st = K.refill(rng, scratch, s); saved[os.path.join(d, 'checkpoint_%d' % s)] = (st, orb)
      if orb:
        m = checkpoints.OrbaxCheckpointManagerInterface(d, scratch, p, keep=None); m.save(K.place(st, p, 'sharded')); m.wait_until_finished(); m.close()
      else: checkpoints.Checkpointer(scratch, p, d).save(K.place(st, p, 'sharded'))
    for _ in range(2): junk(d, 'checkpoint')
  inf = jax.tree.leaves(scratch)
  def is_state(got, state, mech, **det):
    g, w = K.flat(got), K.flat(state)
    return c.check(set(g) == set(w) and all(w[k] is None or K.same(K.host(g[k]), K.host(w[k])) for k in w), mech, **det)
  of = lambda d: sorted((q for q in saved if os.path.dirname(q) == d), key=lambda q: int(q.rsplit('_', 1)[1]))
  for j in range(6):
    order = [dirs[int(x)] for x in rng.permutation(3)[:int(rng.integers(1, 4))]]
    mode = str(rng.choice(['latest', 'all'])); 
    as_list = rng.random() < .4
    cfgs = [utils.RestoreCheckpointConfig(path=order, mode=mode)] if as_list else [utils.RestoreCheckpointConfig(path=d, mode=mode) for d in order]
    hit = next((d for d in order if of(d)), None); want = of(hit) if hit else []; want = want[-1:] if mode == 'latest' else want
    det = dict(order=[os.path.basename(x) for x in order], mode=mode, as_list=as_list, want=want)
    # The legacy reader handles legacy checkpoints; Orbax ones go through the manager below.
    if not any(saved[q][1] for q in want):
      ok, got = c.attempt('from-checkpoints', lambda: list(init.from_checkpoints(cfgs)))
      if ok:
        c.check([q for _, q in got] == want, 'from-checkpoints:paths', got=[q for _, q in got], **det)
        for s, q in got:
          if q in saved: is_state(s, saved[q][0], 'from-checkpoints:values', path=q, **det)
      one = outcome(init.from_checkpoint, cfgs)
      both = outcome(init.from_checkpoint_or_scratch, cfgs, init_rng=key)
      if len(want) > 1:
        c.check(one[0] == 'raise' and one[1].startswith('ValueError') and both[0] == 'raise', 'from-checkpoint:several-accepted', **det); c.event('several')
      elif len(want) == 1:
        if c.check(one[0] == both[0] == 'ok', 'from-checkpoint:raised', one=str(one[1])[:300], both=str(both[1])[:300], **det):
          is_state(one[1], saved[want[0]][0], 'from-checkpoint:values', **det); is_state(both[1], saved[want[0]][0], 'from-checkpoint-or-scratch:values', **det); c.event('one')
      else:
        c.check(one == ('ok', None), 'from-checkpoint:none', got=str(one)[:300], **det)
        if c.check(both[0] == 'ok', 'from-checkpoint-or-scratch:raised', got=str(both[1])[:300], **det): is_state(both[1], scratch, 'from-checkpoint-or-scratch:not-scratch', **det)
        c.event('none')
    # As train.py and eval.py do: select, then restore with the checkpoint manager.
    ok, sel = c.attempt('select', utils.get_first_valid_restore_config_and_paths, cfgs)
    if not ok: continue
    c.check(list(sel[1]) == want, 'select:paths', got=sel[1], **det)
    for q in want:
      for orb in (True, False):
        if saved[q][1] and not orb: continue
        md = os.path.join(base, 'm%d_%d' % (j, rng.integers(1 << 30))); os.makedirs(md)
        if rng.random() < .5: fake(os.path.join(md, 'checkpoint_77'))   # the model directory holds something else
        spec = utils.RestoreCheckpointConfig(path=q, mode='specific')
        r = outcome(utils.create_checkpoint_manager_and_restore, init, p, sel[0] if rng.random() < .5 else spec, q, key, None, md, None, orb)
        if c.check(r[0] == 'ok', 'manager-restore:raised', error=str(r[1])[:400], path=q, use_orbax=orb, **det):
          is_state(r[1][0], saved[q][0], 'manager-restore:values', path=q, use_orbax=orb, **det); c.event('manager-orbax' if orb else 'manager-legacy'); r[1][1].close()
        c.drop(md)
  # The manager, with no path or step, restores the latest complete checkpoint of its own directory.
  for d in dirs:
    st = of(d)
    if not st: continue
    orb = saved[st[0]][1]
    m = checkpoints.OrbaxCheckpointManagerInterface(d, scratch, p, keep=None)
    steps = [int(q.rsplit('_', 1)[1]) for q in st]
    c.check(sorted(int(x) for x in m.all_steps()) == steps and int(m.latest_step()) == steps[-1], 'orbax:steps', got=list(m.all_steps()), want=steps, contents=sorted(os.listdir(d)))
    ok, got = c.attempt('orbax:latest', m.restore)
    if ok: is_state(got, saved[st[-1]][0], 'orbax:latest-values', dir=os.path.basename(d)); c.event('orbax-latest')
    m.close()
    if not orb:
      ok, got = c.attempt('legacy:latest', checkpoints.Checkpointer(scratch, p, d).restore)
      if ok: is_state(got, saved[st[-1]][0], 'legacy:latest-values', dir=os.path.basename(d)); c.event('legacy-latest')
      lz = checkpoints.load_t5x_checkpoint(d)
      c.check(int(np.asarray(lz['state']['step'])) == steps[-1], 'load:latest', got=lz['state']['step'], want=steps)
    for q in st:
      f = os.path.join(q, 'checkpoint') if not orb else os.path.join(q, 'state', 'checkpoint')
      t = outcome(checkpoint_utils.detect_checkpoint_type, f)
      c.check(t == ('ok', checkpoint_utils.CheckpointTypes.ORBAX if orb else checkpoint_utils.CheckpointTypes.T5X), 'type', path=q, orbax=orb, got=str(t)); c.event('type-orbax' if orb else 'type-t5x')
  e = os.path.join(base, 'empty'); os.makedirs(e)
  for _ in range(3): junk(e, 'checkpoint')
  r = outcome(checkpoints.Checkpointer(scratch, p, e).restore); c.check(r[0] == 'raise' and r[1].startswith('ValueError'), 'legacy:restore-from-nothing', got=str(r)[:300])
  m = checkpoints.OrbaxCheckpointManagerInterface(e, scratch, p, keep=None)
  c.check(not list(m.all_steps()) and m.latest_step() is None, 'orbax:steps-from-nothing', got=list(m.all_steps()))
  r = outcome(m.restore); c.check(r[0] == 'raise' and r[1].startswith('ValueError'), 'orbax:restore-from-nothing', got=str(r)[:300]); m.close()
  tf_state(e, [3]); t = outcome(checkpoint_utils.detect_checkpoint_type, os.path.join(e, 'checkpoint')); c.check(t == ('ok', checkpoint_utils.CheckpointTypes.T5X_TF), 'type', got=str(t)); c.event('type-tf')
  c.case(('states', i, str(sorted(saved))), True, dict(saved=sorted(os.path.relpath(q, base) for q in saved)) if i < 2 else None); c.drop(base)

for i in range(c.n(150, 4000)):
  if c.out_of_time(.4): break
  c.section('listing', listing, i)
for i in range(c.n(200, 4000)):
  if c.out_of_time(.5): break
  c.section('configs', configs, i)
for i in range(c.n(6, 120)):
  if c.out_of_time(.9): break
  c.section('states', states, i)
for k, n in [('steps', 200), ('dataset-steps', 80), ('empty-dir', 5), ('step-zero', 10), ('prefix', 20), ('junk-tmp', 10), ('junk-del', 10), ('junk-orbax', 10), ('junk-empty', 5), ('junk-word', 5), ('select-none', 5), ('select-later-config', 10),
             ('select-error', 10), ('select-all', 10), ('select-latest', 10), ('select-specific', 10), ('pins', 60), ('one', 1), ('manager-orbax', 5), ('manager-legacy', 2), ('type-t5x', 3), ('type-tf', 3)]: c.need(k, n)
c.finish()
