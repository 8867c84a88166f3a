import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, t5xshim
import functools, math, shutil
import numpy as np
import jax, jax.numpy as jnp
import tensorflow as tf
import ckptlib as K
from t5x import checkpoints, checkpoints_utils, utils
c = vlib.Check('C06', rule='random save/report/restart/restore histories through OrbaxCheckpointManagerInterface (built directly or from the checkpoint configs), some on top of legacy checkpoints; '
  'listing, directory and every restored leaf compared with a shadow history; distinct by history; non-trivial = a removal, a conversion or a legacy restore took place')
rng = c.rng
M = checkpoints.OrbaxCheckpointManagerInterface
MESHES = [(1, 1), (1, 2), (1, 4)]
PARTS = {}
def part(mesh):
  if mesh not in PARTS: PARTS[mesh] = K.part(mesh)
  return PARTS[mesh]
def pick(xs, p=None): return xs[int(rng.choice(len(xs), p=p))]
def conv(x, dt): return x if dt is None or x.dtype == np.dtype(dt) else np.asarray(x).astype(dt)

def compare(got, saved, save_dt, restore_dt, mech, p=None, **det):
  g, want = K.flat(got), K.flat(saved)
  if not c.check(set(g) == set(want), mech + ':structure', missing=sorted(set(want) - set(g))[:5], extra=sorted(set(g) - set(want))[:5], **det): return False
  for k, w in want.items():
    if w is None:
      c.check(g[k] is None, mech + ':none-leaf', name=k, **det); continue
    w = K.host(w)
    if k.startswith('target/'): w = conv(conv(w, save_dt), restore_dt)
    x = K.host(g[k]); c.event('leaves-compared')
    if not c.check(K.same(x, w), mech + ':leaf', name=k, got=(str(x.dtype), x), want=(str(w.dtype), w), **det): return False
  if p is not None:
    ax = K.flat(p.get_mesh_axes(K.abstract(saved)))
    for k, v in g.items():
      if isinstance(v, jax.Array) and ax.get(k) is not None:
        c.check(v.sharding.is_equivalent_to(jax.sharding.NamedSharding(p.mesh, ax[k]), v.ndim), mech + ':placement', name=k, got=str(v.sharding), want=str(ax[k]), **det)
  return True

RUN, TAG = 'training_eval/task', 'accuracy'

def history(i):
  kind = pick(['sgd', 'adafactor_plain', 'adam', 'adamw_mask', 'multi', 'inference', 'sgd', 'sgd'])
  tree = K.random_tree(rng, int(rng.integers(1, 4)), rank=2, dtypes=[np.float32] if rng.random() < .6 else [np.float32, K.BF])
  if kind == 'multi': tree.setdefault('a', ((4, 8), np.float32, ('mod', 'nul1')))
  mesh = pick(MESHES); p = part(mesh)
  base = K.make_state(rng, tree, kind)
  d = c.dir('h')
  keep = pick([None, 1, 2, 3], [.2, .25, .3, .25]); period = pick([1, 1, 3, 5]); force = pick([None, None, 4, 6])
  metric = rng.random() < .55; mode = pick(['max', 'min']); keep_without = bool(rng.random() < .5)
  save_dt = pick([None, np.float32, K.BF]); restore_dt = pick([None, np.float32, K.BF])
  via = pick(['direct', 'config'])
  if via == 'config' and (not metric) and force: force = None      # only best-checkpoint classes carry it
  use_ds = rng.random() < .35; ds = iter(tf.data.Dataset.range(10000)) if use_ds else None
  style = pick(['class', 'partial'])
  log = []
  det0 = dict(kind=kind, mesh=mesh, keep=keep, period=period, force_keep_period=force, metric=(mode, keep_without) if metric else None, save_dtype=str(save_dt), restore_dtype=str(restore_dt), via=via, style=style, ds=use_ds)
  bkw = dict(metric_name_to_monitor=RUN + '/' + TAG, metric_mode=mode, keep_checkpoints_without_metrics=keep_without, force_keep_period=force)
  def build(ds):
    if via == 'direct':
      return M(d, K.abstract(base), p, dataset_iterator=ds, save_dtype=save_dt, restore_dtype=restore_dt, keep=keep, period=period, force_keep_period=force,
               **({k: v for k, v in bkw.items() if k != 'force_keep_period'} if metric else {}))
    cls = checkpoints.Checkpointer
    if metric:
      if style == 'partial': cls = functools.partial(checkpoints.SaveBestCheckpointer, **bkw)
      else:
        class Best(checkpoints.SaveBestCheckpointer):
          def __init__(self, *a, **k): super().__init__(*a, **{**k, **bkw})
        cls = Best
    sc = utils.SaveCheckpointConfig(dtype=np.dtype(save_dt).name if save_dt is not None else None, period=period, keep=keep, checkpointer_cls=cls, save_dataset=use_ds)
    rc = utils.RestoreCheckpointConfig(path=d, mode='latest', dtype=np.dtype(restore_dt).name if restore_dt is not None else None, restore_dataset=use_ds)
    return utils.create_orbax_checkpoint_manager(save_cfg=sc, restore_cfg=rc, train_state=K.abstract(base), partitioner=p, ds_iter=ds, model_dir=d)
  writer = []
  def report(v, s):
    if not writer: writer.append(tf.summary.create_file_writer(os.path.join(d, RUN)))
    with writer[0].as_default(): tf.summary.scalar(TAG, v, step=s)
    writer[0].flush()
  # Legacy checkpoints that were there before.
  saved, pos, on, legacy = {}, {}, set(), {}
  if rng.random() < .35 and kind != 'inference':
    ldt = pick([None, np.float32, K.BF]); lc = checkpoints.Checkpointer(base, p, d, save_dtype=ldt)
    for s in sorted(int(x) for x in rng.choice(10, int(rng.integers(1, 4)), replace=False)):
      saved[s] = K.refill(rng, base, s); lc.save(K.place(saved[s], p, 'sharded')); on.add(s); legacy[s] = ldt; log.append(('legacy', s))
  junk = set()
  mgr = None; nxt = (max(on) + 1 if on else 0) ; metrics = {}; known = {}; acted = bool(legacy)
  def close():
    mgr.wait_until_finished(); mgr.close()
  def listing(mech):
    det = dict(det0, log=log[-25:])
    got = [int(x) for x in mgr.all_steps()]
    c.check(sorted(got) == sorted(on), mech + ':listing', got=got, want=sorted(on), **det)
    c.check(mgr.latest_step() == (max(on) if on else None), mech + ':latest', got=mgr.latest_step(), want=max(on) if on else None, **det)
    disk = {n for n in os.listdir(d) if n.startswith('checkpoint')} - junk
    c.check(disk == {'checkpoint_%d' % q for q in on}, mech + ':directory', got=sorted(disk), want=sorted(on), **det)
    c.check(list(checkpoints_utils.all_steps(d)) == sorted(on), mech + ':users-listing', got=list(checkpoints_utils.all_steps(d)), want=sorted(on), **det)
    c.event('listings')
    return len(c.violations)
  for j in range(int(rng.integers(5, 11))):
    if mgr is None or rng.random() < .2:
      if mgr is not None: close(); c.event('restarts')
      if rng.random() < .4:    # what a crash leaves behind, and files of others
        n = pick(['checkpoint_%d.orbax-checkpoint-tmp-%d' % (int(rng.integers(0, 40)), int(rng.integers(1, 9999))), 'checkpoint_x', 'other_3', 'xcheckpoint_3'])
        os.makedirs(os.path.join(d, n, 'state'), exist_ok=True)
        with open(os.path.join(d, n, 'state', 'f'), 'w') as f: f.write('x')
        if n in ('checkpoint_x',): junk.add(n)
        log.append(('junk', n)); c.event('junk')
      if use_ds: ds = iter(tf.data.Dataset.range(10000))
      ok, mgr = c.attempt('build', build, ds)
      if not ok: return
      log.append('restart'); listing('restart')
    r = rng.random()
    if r < .62 or not on:
      s = nxt + int(rng.integers(0, 4)); nxt = s + 1
      if metric:
        for q in [s] if rng.random() < .7 else ([int(rng.choice(sorted(on)))] if on else []):
          v = pick([float(rng.integers(0, 4)), float(np.float32(rng.standard_normal())), math.nan, math.inf, -math.inf], [.4, .35, .15, .05, .05])
          report(v, q); metrics[q] = float(np.float32(v)); log.append(('metric', q, v)); c.event('metrics')
      fc = bool(rng.random() < .75)
      want = fc or s % period == 0 or not on
      c.check(bool(mgr.should_save(s)) == (s % period == 0 or not on), 'should-save', step=s, got=bool(mgr.should_save(s)), **dict(det0, log=log[-25:]))
      st = K.refill(rng, base, s)
      if use_ds:
        for _ in range(int(rng.integers(0, 6))): next(ds)
      placed = K.place(st, p, 'sharded' if kind != 'multi' else 'sharded')
      ok, did = c.attempt('save', lambda: mgr.save(placed, force=fc))
      if not ok: return
      mgr.wait_until_finished()
      log.append(('save', s, fc)); det = dict(det0, log=log[-25:])
      if not c.check(bool(did) == want, 'save:performed', step=s, force=fc, got=did, **det): return
      if not want: listing('not-saved'); c.event('not-saved'); continue
      saved[s] = st; legacy.pop(s, None); c.event('saves')
      if use_ds: pos[s] = int(next(ds)); 
      on.add(s)
      if metric:
        for q in on:
          if q in metrics: known[q] = metrics[q]
      now = {int(x) for x in mgr.all_steps()}
      removed = on - now
      if not c.check(now <= on, 'invented', got=sorted(now), want=sorted(on), **det): return
      must, may = set(), set()
      if keep is not None and len(on) > keep:
        if not metric: must = may = set(sorted(on)[:-keep])
        else:
          worst = -math.inf if mode == 'max' else math.inf
          def score(q):
            v = known.get(q, math.nan); v = worst if math.isnan(v) else v
            return v if mode == 'max' else -v
          withm = sorted((q for q in on if q in known), key=score); without = sorted(q for q in on if q not in known)
          if keep_without: cand, n = withm, max(0, len(withm) - keep)
          else:
            n = len(on) - keep
            must = set(without[:n]); may = set(must); n -= len(must); cand = withm
          if n > 0:
            cut = score(cand[n - 1])
            if not any(math.isnan(known[q]) for q in cand if score(q) == cut) or True:
              must |= {q for q in cand if score(q) < cut}; may |= {q for q in cand if score(q) <= cut}
            if len({score(q) for q in cand}) > 1: c.event('metric-choices')
            if any(math.isnan(known[q]) for q in cand): c.event('nan-choices')
      if force: must, may = {q for q in must if q % force}, {q for q in may if q % force}
      if metric and force:
        lo = 0
      if not c.check(must <= removed <= may, 'retention', removed=sorted(removed), must=sorted(must), may=sorted(may), metrics={q: known.get(q) for q in sorted(on)}, **det): return
      if keep is not None and not force and not metric: c.check(len(now) <= keep, 'retention:number', now=sorted(now), **det)
      if metric and keep is not None and not force:
        n_with = len([q for q in now if q in known]); c.check((n_with if keep_without else len(now)) <= keep, 'retention:number', now=sorted(now), metrics={q: known.get(q) for q in sorted(on)}, **det)
      if removed: acted = True; c.event('removals', len(removed))
      if force and any(q % force == 0 for q in now): c.event('period-kept')
      on = now
      if not on: c.event('all-removed')
      n0 = len(c.violations)
      if listing('save') > n0: return
    else:
      s = int(rng.choice(sorted(on))); how = pick(['step', 'path', 'path/', 'default', 'other-manager', 'utils'])
      if how == 'default': s = max(on)
      path = os.path.join(d, 'checkpoint_%d' % s)
      log.append(('restore', how, s)); det = dict(det0, log=log[-25:], how=how, step=s)
      from_ds = use_ds and s in pos
      if use_ds and s not in pos and s not in legacy: continue
      def go():
        if how == 'step': return mgr.restore(step=s)
        if how == 'path': return mgr.restore(path=path)
        if how == 'path/': return mgr.restore(path=path + '/')
        if how == 'default': return mgr.restore()
        if how == 'utils': return utils.restore(mgr, [path], utils.RestoreCheckpointConfig(path=d, mode='latest'))
        m2 = M(c.dir('elsewhere'), K.abstract(base), p, dataset_iterator=ds, restore_dtype=restore_dt)
        try: return m2.restore(path=path)
        finally: m2.close()
      before = K.snapshot(d)
      ok, got = c.attempt('restore-legacy' if s in legacy else 'restore', go)
      if not ok: return
      c.check(K.snapshot(d) == before, 'restore:directory-modified', **det)
      if not compare(got, saved[s], legacy[s] if s in legacy else save_dt, restore_dt, 'restore-legacy' if s in legacy else 'restore', p, **det): return
      c.event('restores'); c.event('restore-' + how)
      if s in legacy: c.event('legacy-restores')
      elif use_ds:
        c.check(int(next(ds)) == pos[s], 'restore:dataset-position', **det); c.event('dataset-positions')
  close()
  for w in writer: w.close()
  c.case(str(det0) + str(log), acted, dict(det0, log=[str(x) for x in log[:8]]))
  c.drop(d)

def roundtrip(i):
  """Large steps, mutable collections, other mesh on restore, saving through a transformation, fallback dtypes."""
  kind = ['sgd', 'adafactor', 'adam', 'inference', 'multi'][i % 5]
  tree = K.random_tree(rng, int(rng.integers(2, 6)), rank=2, dtypes=[np.float32, K.BF, np.float16])
  if kind == 'multi': tree.setdefault('a', ((4, 8), np.float32, ('mod', 'nul1')))
  mut = {'stats': K.random_tree(rng, 3, depth=2, dtypes=[np.float32, np.int32])} if rng.random() < .5 else None
  base = K.make_state(rng, tree, kind, mut)
  m1, m2 = pick(MESHES), pick(MESHES); p1, p2 = part(m1), part(m2)
  save_dt, restore_dt = pick([None, np.float32, K.BF]), pick([None, np.float32, K.BF])
  s = int(pick([0, 1, 2 ** 24 + 1, 2 ** 30 + 7, int(rng.integers(2, 10 ** 6))])); d = c.dir('r')
  st = K.refill(rng, base, s)
  slim = kind in ('sgd', 'adafactor') and mut is None and rng.random() < .4
  det = dict(kind=kind, meshes=(m1, m2), save_dtype=str(save_dt), restore_dtype=str(restore_dt), step=s, params_only_saved=slim, tree=str(tree)[:300], mutables=bool(mut))
  def drop(state_dict, infos):
    f = lambda t: {**{k: v for k, v in t.items() if k != 'state'}, 'state': {'step': t['state']['step']}}
    return f(state_dict), f(infos)
  def save():
    m = M(d, base, p1, save_dtype=save_dt)
    m.save(K.place(st, p1, 'sharded'), state_transformation_fns=[drop] if slim else []); m.wait_until_finished(); m.close()
  ok, _ = c.attempt('save', save)
  if not ok: return
  fresh = K.refill(rng, base, 0)
  want = st
  fb = None
  if slim:
    fb = fresh.state_dict()
    sd = fresh.state_dict(); sd['state'] = {**sd['state'], 'step': np.asarray(s, np.int32)}; sd['target'] = st.state_dict()['target']
    want = base.restore_state(sd)
  fns = [functools.partial(__import__('t5x.state_utils', fromlist=['x']).apply_assignment_map, assignment_map=[])] if slim else []
  def rest():
    m = M(d, K.abstract(base), p2, restore_dtype=restore_dt)
    try: return m.restore(step=s, fallback_state=fb, state_transformation_fns=fns)
    finally: m.close()
  ok, got = c.attempt('restore', rest)
  if not ok: return
  compare(got, want, save_dt, restore_dt, 'roundtrip', p2, **det)
  if s > 2 ** 24: c.event('large-steps')
  if slim: c.event('saved-through-transformation')
  if m1 != m2: c.event('other-mesh')
  c.event('roundtrips')
  c.case(str(det), True, det); c.drop(d)

def rejects():
  base = K.make_state(rng, {'w': ((4, 4), np.float32, ('mod', 'nul1'))}, 'sgd'); p = part((1, 1)); d = c.dir()
  m = M(d, base, p)
  def rejected(what, f):
    try: f(); c.violation('accepted-' + what)
    except Exception as e:
      if vlib.blame(e) == 'harness': raise
      c.event('rejected')
  rejected('empty', lambda: m.restore()); rejected('empty-step', lambda: m.restore(step=3))
  m.save(K.place(K.refill(rng, base, 5), p, 'sharded')); m.wait_until_finished()
  rejected('both', lambda: m.restore(step=5, path=os.path.join(d, 'checkpoint_5')))
  rejected('absent', lambda: m.restore(step=4)); rejected('no-step-directory', lambda: m.restore(path=d))
  rejected('existing-step', lambda: (m.save(K.place(K.refill(rng, base, 5), p, 'sharded')), m.wait_until_finished()))
  more = K.make_state(rng, {'w': ((4, 4), np.float32, ('mod', 'nul1')), 'x': ((2,), np.float32, ('nul',))}, 'sgd')
  rejected('missing', lambda: M(d, K.abstract(more), p).restore(step=5))

for i in range(c.n(45, 900)):
  if c.out_of_time(.6): break
  c.section('history', history, i)
for i in range(c.n(25, 400)):
  if c.out_of_time(.95): break
  c.section('roundtrip', roundtrip, i)
c.section('rejects', rejects)
c.need('saves', 60); c.need('restores', 20); c.need('legacy-restores', 3); c.need('removals', 15); c.need('metric-choices', 3); c.need('roundtrips', 15); c.need('dataset-positions', 2); c.need('rejected', 6)
c.need('large-steps', 3); c.need('restarts', 10)
c.finish()
