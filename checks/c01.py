import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, t5xshim
import shutil
import numpy as np
import jax, jax.numpy as jnp
import tensorflow as tf
from flax.core import freeze
import ckptlib as K
from t5x import checkpoints, state_utils
c = vlib.Check('C01', rule='random train states (trees, dtypes, optimizers, mutables) saved several times and restored through every option; each leaf compared bit '
  'for bit with what was saved and with an independent msgpack/TensorStore reader; distinct by state structure and options; non-trivial = at least one leaf differs between saved steps')
rng = c.rng
MESHES = [(1, 1), (1, 2), (1, 4)]
KINDS = ['sgd', 'adafactor', 'adafactor_plain', 'adam', 'adamw_mask', 'multi', 'inference']
FD = [np.float32, K.BF, np.float16]
PARTS = {}

def part(mesh, on=True, hide=()):
  key = (mesh, on, hide)
  if key not in PARTS: PARTS[key] = K.part(mesh, on, hide)
  return PARTS[key]

def conv(x, dt):
  return x if dt is None or x.dtype == np.dtype(dt) else np.asarray(x).astype(dt)

def compare(got_state, saved, save_dt, restore_dt, mech, raw_types=True, **det):
  got, want = K.flat(got_state), K.flat(saved)
  if not c.check(set(got) == set(want), mech + ':structure', missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5], **det): return
  for k, w in want.items():
    if w is None:
      c.check(got[k] is None, mech + ':none-leaf', name=k, **det); continue
    w = K.host(w)
    g = K.host(got[k])
    if k.startswith('target/'):
      w = conv(conv(w, save_dt), restore_dt)
    c.event('leaves-compared')
    if not c.check(K.same(g, w), mech + ':leaf', name=k, got=(str(g.dtype), g), want=(str(w.dtype), w), **det): return

def on_disk(d, saved, save_dt, axes, **det):
  """The files themselves, read without t5x."""
  version, raw = K.read_raw(d)
  want = {k: v for k, v in K.flat(saved).items() if v is not None}
  raw = {k: v for k, v in raw.items() if v[0] is not None}
  if not c.check(set(raw) == set(want), 'disk:structure', missing=sorted(set(want) - set(raw))[:5], extra=sorted(set(raw) - set(want))[:5], **det): return
  paths = [v[2] for v in raw.values() if v[1]]
  c.check(len(set(paths)) == len(paths) and not any(os.path.isabs(p) for p in paths), 'disk:paths', paths=paths[:8], **det)
  for k, (a, by_ts, p) in raw.items():
    w = K.host(want[k]); w = conv(w, save_dt) if k.startswith('target/') else w
    a = np.asarray(a)
    c.check(K.same(a, w), 'disk:leaf', name=k, got=(str(a.dtype), a), want=(str(w.dtype), w), **det)
    c.event('tensorstore-arrays' if by_ts else 'msgpack-arrays')

def one(i):
  kind = KINDS[i % len(KINDS)]
  mesh = MESHES[int(rng.integers(0, len(MESHES)))]
  tree = K.random_tree(rng, int(rng.integers(2, 7)), rank=2 if kind in ('adafactor', 'adafactor_plain', 'multi') else 3, dtypes=[np.float32] if rng.random() < .4 else FD)
  if kind == 'multi': tree['a'] = ((4, 8), np.float32, ('mod', 'nul1')) if 'a' not in tree else tree['a']
  mut = None
  if rng.random() < .4: mut = {'stats': K.random_tree(rng, 3, depth=2, dtypes=[np.float32, np.int32, np.uint32, np.bool_, K.BF])}
  base = K.make_state(rng, tree, kind, mut)
  names = [k for k, v in K.flat(base).items() if v is not None and k.startswith(('target/', 'state/param_states'))]
  hide = tuple(sorted(str(x) for x in rng.choice(names, 2))) if rng.random() < .3 and kind not in ('adam', 'adamw_mask', 'multi', 'adafactor', 'adafactor_plain') else ()
  how = str(rng.choice(['single', 'sharded', 'sharded', 'host']))
  p = part(mesh, how != 'host', hide)
  save_dt = [np.float32, np.float32, K.BF, None, np.float16][int(rng.integers(0, 5))]
  gb = [128, 128, 1, 2e-7, 1e-9, 0][int(rng.integers(0, 6))]
  d = c.dir()
  det = dict(kind=kind, mesh=mesh, how=how, save_dtype=str(save_dt), tree=str(tree)[:300], hide=hide, concurrent_gb=gb)
  # The dataset iterator travels with the state.
  with_ds = rng.random() < .35
  ds = iter(tf.data.Dataset.range(1000)) if with_ds else None
  proto = base if rng.random() < .5 else K.abstract(base)
  ck = checkpoints.Checkpointer(proto, p, d, dataset_iterator=ds, save_dtype=save_dt)
  saved, pos, steps = {}, {}, sorted(int(x) for x in rng.choice(60, int(rng.integers(1, 4)), replace=False))
  if rng.random() < .2: steps = [0] + [s for s in steps if s][:1]
  lazily = rng.random() < .2
  for s in steps:
    st = K.refill(rng, base, s)
    placed = K.place(st, p, how)
    if lazily and how != 'sharded':
      placed = jax.tree.map(lambda x: checkpoints.LazyThreadPoolArray(x.shape, x.dtype, lambda x=x: np.asarray(x)), placed)
    if with_ds:
      for _ in range(int(rng.integers(0, 9))): next(ds)
      pos[s] = None
    try:
      with K.limit(60): ok, _ = c.attempt('save', ck.save, placed, concurrent_gb=gb)
    except K.Hang:
      c.violation('save:never-finishes', **det); return
    if not ok: return
    saved[s] = st
    if with_ds: pos[s] = int(next(ds)); 
    c.event('saves')
    if rng.random() < .25: ck = checkpoints.Checkpointer(proto, p, d, dataset_iterator=ds, save_dtype=save_dt)
  before = K.snapshot(d)
  for s in steps: on_disk(os.path.join(d, 'checkpoint_%d' % s), saved[s], save_dt, None, step=s, **det)
  # Saving an existing step again changes nothing.
  ok, _ = c.attempt('save-again', ck.save, K.place(K.refill(rng, base, steps[0]), p, how))
  c.check(K.snapshot(d) == before, 'save:existing-step-rewritten', **det)
  for _ in range(3):
    s = steps[int(rng.integers(0, len(steps)))]
    restore_dt = [None, None, np.float32, K.BF][int(rng.integers(0, 4))]
    mode = str(rng.choice(['step', 'dir', 'file', 'moved', 'latest', 'same-object']))
    mesh2 = mesh if rng.random() < .4 else MESHES[int(rng.integers(0, len(MESHES)))]
    on2 = bool(rng.random() < .8); lazy = not on2 and rng.random() < .6
    infer = kind != 'inference' and rng.random() < .2
    det2 = dict(mode=mode, restore_dtype=str(restore_dt), mesh2=mesh2, on_devices=on2, lazy=lazy, step=s, params_only=infer, **det)
    ds2 = iter(tf.data.Dataset.range(1000)) if with_ds and not infer and mode != 'same-object' else None
    p2 = part(mesh2, on2, hide)
    cur = d
    if mode == 'moved':
      cur = c.dir('moved'); shutil.copytree(os.path.join(d, 'checkpoint_%d' % s), os.path.join(cur, 'elsewhere'))
    kw = {'step': dict(step=s), 'dir': dict(path=os.path.join(d, 'checkpoint_%d' % s)), 'file': dict(path=os.path.join(d, 'checkpoint_%d' % s, 'checkpoint')),
          'moved': dict(path=os.path.join(cur, 'elsewhere')), 'latest': {}, 'same-object': dict(step=s)}[mode]
    if mode == 'latest': s = steps[-1]; det2['step'] = s
    if mode == 'same-object':
      rc = ck; restore_dt = None; infer = False; det2['lazy'] = lazy = False
    else:
      target = K.make_state(rng, tree, 'inference', mut) if infer else base
      ok, rc = c.attempt('checkpointer', lambda: checkpoints.Checkpointer(K.abstract(target), p2, d if mode != 'moved' else c.dir('empty'), dataset_iterator=ds2, restore_dtype=restore_dt))
      if not ok: return
    try:
      with K.limit(60): ok, got = c.attempt('restore', rc.restore, lazy_parameters=lazy, **kw)
    except K.Hang:
      c.violation('restore:never-finishes', **det2); return
    if not ok: return
    want = saved[s]
    if infer:
      want = {k: v for k, v in want.state_dict().items() if k != 'state'}; want['state'] = {'step': np.asarray(s, np.int32)}
    compare(got, want, save_dt, restore_dt, 'restore', **det2)
    if on2 and mode != 'same-object':
      # Restored arrays lie where the partitioner wants them.
      ax = K.flat(p2.get_mesh_axes(K.abstract(target)))
      for k, v in K.flat(got).items():
        if isinstance(v, jax.Array) and ax.get(k) is not None:
          c.check(v.sharding.is_equivalent_to(jax.sharding.NamedSharding(p2.mesh, ax[k]), v.ndim), 'restore:placement', name=k, got=str(v.sharding), want=str(ax[k]), **det2)
          c.event('placements-checked')
    if ds2 is not None:
      c.check(int(next(ds2)) == pos[s], 'restore:dataset-position', **det2); c.event('dataset-positions')
    c.event('restore-' + mode); c.event('restores')
    if mesh2 != mesh: c.event('other-mesh')
  # The importer-style loader reads the same values.
  s = steps[-1]
  rd = [None, K.BF][int(rng.integers(0, 2))]; lz = bool(rng.integers(0, 2))
  ok, t = c.attempt('load_t5x_checkpoint', lambda: checkpoints.load_t5x_checkpoint(d, step=s, restore_dtype=rd, lazy_parameters=lz, remap=False))
  if ok:
    got = {k: v for k, v in K.flat(t).items() if v is not None}
    want = {k: v for k, v in K.flat(saved[s]).items() if v is not None}
    if c.check(set(got) == set(want), 'load:structure', missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5], **det):
      for k, w in want.items():
        w = K.host(w); w = conv(conv(w, save_dt), rd) if k.startswith('target/') else w
        g = K.host(got[k])
        c.check(K.same(g, w), 'load:leaf', name=k, got=(str(g.dtype), g), want=(str(w.dtype), w), restore_dtype=str(rd), lazy=lz, **det)
  c.check(K.snapshot(d) == before, 'restore:checkpoint-modified', **det)
  c.case((kind, mesh, how, str(save_dt), str(tree), hide, tuple(steps)), True, dict(kind=kind, mesh=mesh, how=how, steps=steps))
  c.event('kind-' + kind)
  c.drop(d)

def rejects():
  """Requests that cannot be met are errors, never a different checkpoint."""
  base = K.make_state(rng, {'w': ((4, 4), np.float32, ('mod', 'nul1'))}, 'sgd')
  p = part((1, 1)); d = c.dir()
  ck = checkpoints.Checkpointer(base, p, d)
  for what, f in [('empty', lambda: ck.restore()), ('empty-step', lambda: ck.restore(step=3)), ('both', lambda: ck.restore(step=3, path=d))]:
    try: f(); c.violation('restore:accepted-' + what)
    except ValueError: c.event('rejected')
  ck.save(K.place(K.refill(rng, base, 5), p, 'single'))
  other = K.make_state(rng, {'w': ((4, 8), np.float32, ('mod', 'nul1'))}, 'sgd')
  more = K.make_state(rng, {'w': ((4, 4), np.float32, ('mod', 'nul1')), 'x': ((2,), np.float32, ('nul',))}, 'sgd')
  for what, st in (('shape', other), ('missing', more)):
    try: checkpoints.Checkpointer(K.abstract(st), p, d).restore(step=5); c.violation('restore:accepted-wrong-' + what)
    except ValueError: c.event('rejected')
  for s in (4, 6):
    try: ck.restore(step=s); c.violation('restore:accepted-absent-step')
    except ValueError: c.event('rejected')

def dotted():
  """Two parameters whose joined names coincide once '/' is written as '.'."""
  tree = {'a.b': {'c': ((4,), np.float32, ('nul',))}, 'a': {'b.c': ((4,), np.float32, ('nul',))}}
  base = K.make_state(rng, tree, 'sgd'); p = part((1, 1)); d = c.dir()
  st = K.refill(rng, base, 3)
  ok, got = c.attempt('dotted', lambda: (checkpoints.Checkpointer(base, p, d).save(K.place(st, p, 'single')), checkpoints.Checkpointer(base, p, d).restore(step=3))[1])
  if ok:
    f, w = K.flat(got), K.flat(st)
    c.check(all(K.same(K.host(f[k]), K.host(w[k])) for k in w), 'dotted-names-collide', names=sorted(w))

for i in range(c.n(42, 400)):
  if c.out_of_time(.9): break
  c.section('roundtrip', one, i)
c.section('rejects', rejects)
c.section('dotted', dotted)
c.need('restores', 60); c.need('leaves-compared', 800); c.need('dataset-positions', 10); c.need('tensorstore-arrays', 200); c.need('rejected', 7); c.need('other-mesh', 20)
c.finish()
