"""X01: a dense checkpoint restored as a mixture-of-experts model."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import shards
c = shards.run('X01', 'dense checkpoints (random parameter trees and real networks, saved on one mesh) restored as sparse models on another, on 8 devices and on several processes; every shard of every leaf is compared with the dense value, broadcast where it belongs to experts; '
  'distinct by trees, optimizer, mapping of the states, meshes, rules and types', 6, 48, parallel=6, stall=200,
  needs=[('expert-leaves', 60), ('dense-leaves', 150), ('from-scratch', 200), ('shards', 5000), ('split-leaves', 200), ('rejected', 6), ('networks', 4), ('multi-process', 2), ('upcycled-states', 20)])
import t5xshim
import functools
import numpy as np, jax, jax.numpy as jnp
import moelib as M, mproc
from t5x import checkpoints, partitioning, utils
from t5x.contrib.moe import checkpoints as mc, partitioning as mpart
rng = c.rng

def small(spec): return {k: v for k, v in spec.items() if k not in ('dense', 'sparse')}

def count(spec, out):
  c.event('split-leaves', out['split'])
  if spec['states'] == 'upcycled': c.event('upcycled-states', sum(k.startswith('state/param_states') and '/expert/' in k for k in out['want']))

def trees(i):
  spec = M.upcycle_spec(rng); det = dict(spec=small(spec), experts=[x[0] for x in spec['sparse'] if '/expert/' in x[0]])
  ok, out = c.attempt('upcycle', M.upcycle, spec, c.dir())
  if not ok: return
  M.judge_upcycle(c, spec, out, det); count(spec, out); c.case(('trees', str(spec)), True, det if i == 0 else None)

def state_of(model, part, spec):
  sh, ty = M.shapes(spec); return utils.TrainStateInitializer(model.optimizer_def, model.get_initial_variables, sh, part, ty)

def sparse_config(path, e, states, dtype=None):
  return utils.RestoreCheckpointConfig(path=path, mode='latest', fallback_to_scratch=True, dtype=dtype, assignment_map=M.ASSIGN + (M.SCRATCH if states == 'scratch' else M.STATES), checkpointer_cls=functools.partial(mc.UpcycleCheckpointer, num_experts=e))

def networks(i):
  """Where all experts are the dense layer, their mixture computes what it did."""
  scan = bool(rng.random() < .25); spec = M.random_spec(rng, scan=scan, e=int(rng.choice([8, 16])), opt=str(rng.choice(['sgd', 'adam', 'adafactor']))); det = dict(spec=spec)
  dense = dict(spec, enc=[x.replace('m', 'u') for x in spec['enc']], dec=[x.replace('m', 'u') for x in spec['dec']]); d = c.dir()
  dp = partitioning.PjitPartitioner(model_parallel_submesh=(1, int(rng.choice([1, 2])))); dm, m = M.model(dense, base=True), M.model(spec)
  ini = state_of(dm, dp, dense); ds = ini.from_scratch(jax.random.PRNGKey(spec['seed'] % 99)); checkpoints.Checkpointer(ini.global_train_state_shape, dp, d).save(ds)
  part = mpart.MoePjitPartitioner(num_expert_partitions=int(rng.choice([1, 2, 4, 8])), model_parallel_submesh=(1, int(rng.choice([1, 2])))); si = state_of(m, part, spec)
  try: st = si.from_checkpoint_or_scratch([sparse_config(d, spec['e'], 'scratch')], init_rng=jax.random.PRNGKey(9))
  except ValueError as e:
    # The axis of the layers lies elsewhere in a stack of experts.
    if scan and 'does not match expected' in str(e): c.event('rejected'); c.case(('network', str(spec)), True); return
    c.violation('network:raised', error=repr(e), **det); return
  b = M.batch(rng, 8, spec['kind']); host = lambda s, p, a: jax.tree.map(lambda x: np.asarray(x.addressable_data(0)), p.partition(lambda x: x, in_axis_resources=(a,), out_axis_resources=None)(s).params)
  f = lambda mod: jax.jit(lambda p: mod._compute_logits(p, b, None)); want = np.asarray(f(dm)(host(ds, dp, ini.train_state_axes))); p = host(st, part, si.train_state_axes)
  bad = {k: x.shape for k, x in M.flat(p).items() if x.shape != tuple(M.flat(si.global_train_state_shape)['target/' + k].shape)}
  if not c.check(not bad, 'network:shapes', leaves=bad, **det): return
  got = np.asarray(f(m)(p)); c.check(np.allclose(got, want, rtol=1e-3, atol=1e-4 * max(1, np.abs(want).max())), 'network:another-function', diff=float(np.abs(got - want).max()), scale=float(np.abs(want).max()), **det)
  c.event('networks'); c.case(('network', str(spec)), True, det if i == 0 else None)

def rejected(i):
  """Weights of another shape are not taken."""
  spec = M.upcycle_spec(rng); spec.update(states='scratch', where='latest', opt='sgd', restore_dtype=None); d = c.dir(); dp = partitioning.PjitPartitioner(num_partitions=None, model_parallel_submesh=spec['dense_mesh'])
  ini = utils.TrainStateInitializer(M.optimizer('sgd'), M.Tree(spec['dense']).get_initial_variables, {}, dp); ds = ini.from_scratch(jax.random.PRNGKey(1)); checkpoints.Checkpointer(ini.global_train_state_shape, dp, d).save(ds)
  for kind in ('expert', 'dense'):
    js = [j for j, x in enumerate(spec['sparse']) if ('/expert/' in x[0]) == (kind == 'expert') and len(x[1]) > 1 and '/router/' not in x[0]]
    j = js[int(rng.integers(len(js)))]; path, shape, axes = spec['sparse'][j]; q = len(shape) - 1 - int(rng.integers(0, len(shape) - (kind == 'expert'))); how = ['larger', 'smaller', 'swapped'][int(rng.integers(0, 3))]
    if how == 'swapped' and (shape[-1] == shape[-2] or len(shape) - (kind == 'expert') < 2): how = 'smaller'
    new = shape[:-2] + (shape[-1], shape[-2]) if how == 'swapped' else shape[:q] + (shape[q] * 2 if how == 'larger' else shape[q] // 2,) + shape[q + 1:]; na = axes[:-2] + (axes[-1], axes[-2]) if how == 'swapped' else axes
    tree = list(spec['sparse']); tree[j] = (path, new, na); det = dict(leaf=path, shape=shape, expected=new, spec=small(spec)); part = mpart.MoePjitPartitioner(num_expert_partitions=1, model_parallel_submesh=(1, 1)); si = utils.TrainStateInitializer(M.optimizer('sgd'), M.Tree(tree).get_initial_variables, {}, part)
    try: st = si.from_checkpoint_or_scratch([sparse_config(d, spec['e'], 'scratch')], init_rng=jax.random.PRNGKey(9))
    except ValueError as e: c.check('does not match expected' in str(e), 'mismatch:unclear', error=repr(e)[:300], **det); c.event('rejected'); c.case(('rejected', str(det)), True); continue
    c.violation('mismatch:accepted', got=M.flat(st)['target/' + path].shape, **det)

def processes(i):
  """Several processes of one device each, which share some of the experts' axis."""
  n = [2, 4][i % 2]; specs = [M.upcycle_spec(rng, n) for _ in range(2)]; dirs = [c.dir() for _ in specs]
  try: res = mproc.run('moe_upcycle', n, 1, (specs, dirs), c.scratch, timeout=180)
  except mproc.Failed as e:
    if any(x[1] == 'repo' for x in e.errors): c.violation('processes:raised', errors=e.errors, specs=[small(s) for s in specs]); return
    raise
  for h, outs in enumerate(res):
    for spec, out in zip(specs, outs): M.judge_upcycle(c, spec, out, dict(spec=small(spec), processes=n, process=h)); count(spec, out)
  c.event('multi-process'); c.case(('processes', n, str(specs)), True)

if c.shard % 3 == 0: c.section('processes', processes, c.shard // 3)
for i in range(c.n(2, 4)): c.section('trees', trees, i); c.beat()
for i in range(c.n(1, 2)): c.section('networks', networks, i); c.beat()
for i in range(c.n(1, 2)): c.section('rejected', rejected, i); c.beat()
c.finish()
