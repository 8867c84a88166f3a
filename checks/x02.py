"""X02: mixture-of-experts training."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import shards
c = shards.run('X02', 'mixture-of-experts models (encoder-decoder and decoder-only, stacked or not): losses against the mean of what the layers sow, gradient scaling of random trees, placement of parameters and slots on 8 devices, training against one plain device, '
  'data layouts of simulated and real clusters; distinct by network, optimizer, factors, mesh and data', 6, 48, parallel=6, stall=300,
  needs=[('losses', 30), ('uneven-stacks', 3), ('scaled-trees', 150), ('trainings', 5), ('split-expert-leaves', 100), ('metrics', 40), ('clusters', 40), ('shared-shards', 5), ('multi-process', 1)])
import t5xshim
import collections, re
import numpy as np, jax, jax.numpy as jnp
import flax
from flax import traverse_util
from flax.core import freeze
import moelib as M, mproc
from t5x import optimizers, train_state as ts_lib
from t5x.contrib.moe import partitioning as mpart, training_utils
from worldlib import HOST, Plain, divs, region, tpu, world
rng = c.rng

def value(m):
  v = m.compute_value() if hasattr(m, 'compute_value') else m.compute(); return float(np.asarray(v.value if hasattr(v, 'value') else v))

def losses(i):
  spec = M.random_spec(rng, opt='sgd'); det = dict(spec=spec)
  m, base = M.model(spec), M.model(spec, base=True); sh, ty = M.shapes(spec); v = m.get_initial_variables(jax.random.PRNGKey(spec['seed'] % 1000), sh, ty)['params']; b = M.batch(rng, spec['batch'], spec['kind'])
  stacks = [x for x in (spec['enc'], spec['dec']) if any('m' in k for k in x)]
  if spec['scan'] and len(stacks) == 2 and len(stacks[0]) != len(stacks[1]): c.event('uneven-stacks')
  ok, got = c.attempt('loss', jax.jit(lambda p: m.loss_fn(p, b, None)), v)
  if not ok: return
  loss, met = got; bl, bm = jax.jit(lambda p: base.loss_fn(p, b, None))(v); _, st = m._compute_logits(v, b, None, mutable=['intermediates'])
  mean, count = M.mean_sown(st['intermediates']); layers = sum(sum('m' in k for k in x) for x in (spec['enc'], spec['dec']))
  assert set(count.values()) == {layers}, (count, layers)
  aux, rz = spec['aux'] * mean['auxiliary_loss'], spec['rz'] * mean['router_z_loss']; want = float(bl) + aux + rz; near = lambda g, w: abs(g - w) <= 2e-5 * max(1, abs(w), abs(want)) + 1e-5
  c.check(near(float(loss), want), 'loss:total', got=float(loss), want=want, base=float(bl), aux=aux, z=rz, **det)
  from t5x import metrics as mlib
  met, bm = (mlib.set_step_metrics_num_steps({k: x for k, x in y.items() if not mlib.is_time_metric(x)}, 1) for y in (met, bm))
  exp = {'experts/auxiliary_loss': aux, 'experts/router_z_loss': rz, **{'experts/' + k: mean[k] for k in M.METRICS[2:]}}
  for k in bm:
    if k.startswith(('effective_batch_size', 'non_padding_fraction')): continue   # statistics of the batch, which mixtures need not report
    w = value(bm[k]); exp[k] = w * want / float(bl) if k.startswith('loss') else w
  for k, w in exp.items():
    if not c.check(k in met, 'loss:metric-missing', metric=k, **det): continue
    c.check(near(value(met[k]), w), 'loss:metric', metric=k, got=value(met[k]), want=w, **det)
  # The gradient sees the auxiliary losses with the same weight.
  if i % 4 == 0:
    g = jax.jit(jax.grad(lambda p: m.loss_fn(p, b, None)[0]))(v); w = jax.jit(jax.grad(lambda p: M.ref_loss(m, base, spec, p, b, None)[0]))(v)
    for (k, x), y in zip(M.flat(g).items(), M.flat(w).values()): c.check(np.allclose(x, y, rtol=1e-4, atol=1e-4 * max(1, float(np.abs(y).max()))), 'loss:gradient', leaf=k, **det)
  c.event('losses'); c.case(('loss', str(spec)), True, det if i == 0 else None)

NAMES = ['expert', 'experts', 'mlp', 'kernel', 'bias', 'router', 'a', 'b', 'z', 'not_expert', 'layers_10', 'layers_2', 'Expert', 'wi']
def tree(depth):
  out = {}
  for n in rng.choice(NAMES, int(rng.integers(1, 5)), replace=False):
    out[str(n)] = tree(depth - 1) if depth and rng.random() < .6 else rng.standard_normal(tuple(rng.integers(0, 4, int(rng.integers(0, 3))))).astype(np.float32)
  return out

def scaling(i):
  t = tree(3); flat = {'/'.join(k): v for k, v in traverse_util.flatten_dict(t).items()}; form = ['dict', 'frozen', 'mixed', 'state'][int(rng.integers(0, 4))]
  pat = [r'.*expert.*', r'.*/expert/.*', r'expert.*', r'.*kernel$', None, '', r'(a|b)/.*', r'.*', r'x^'][int(rng.integers(0, 9))]; f = float(rng.choice([1, 2, 4, 8, .5])); det = dict(form=form, pattern=pat, factor=f, paths=sorted(flat))
  x = freeze(t) if form == 'frozen' else {k: freeze(v) if isinstance(v, dict) and rng.random() < .5 else v for k, v in t.items()} if form == 'mixed' else t
  hit = lambda k: bool(pat) and re.match(pat, k) is not None
  if form == 'state':
    # Gradients may come as a train state.
    x = ts_lib.FlaxOptimTrainState(optimizers.Optimizer(M.optimizer('sgd'), optimizers.OptimizerState(jnp.zeros((), jnp.int32), freeze(t)), freeze(tree(1))))
    sd = flax.serialization.to_state_dict(x); flat = {'/'.join(k): v for k, v in traverse_util.flatten_dict(sd).items() if not isinstance(v, dict) and v is not None}
    pat = '.*expert.*' if pat in ('.*', r'x^') else pat; det['pattern'] = pat
    y = training_utils.scale_sharded_grads(x, training_utils.match_fn(pat), f); got = {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.serialization.to_state_dict(y)).items() if not isinstance(v, dict) and v is not None}
  else:
    fn = training_utils.match_fn(pat) if not (pat is None and rng.random() < .5) else None
    y = training_utils.scale_sharded_grads(x, fn, f); got = {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.core.unfreeze(freeze(y))).items()}
  c.check(jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(x), 'scale:structure', **det)
  if c.check(set(got) == set(flat), 'scale:paths', got=sorted(got), **det):
    for k, v in flat.items():
      w = np.asarray(v) * (f if hit(k) else 1); c.check(np.array_equal(np.asarray(got[k]), w), 'scale:value', leaf=k, hit=hit(k), got=got[k], want=w, **det)
  # Functions by name, with leaves that are None.
  if form != 'state':
    z = jax.tree.map(lambda v: None if rng.random() < .3 else v, t); zf = {'/'.join(k): v for k, v in traverse_util.flatten_dict(z).items()}
    seen = []; o = training_utils.tree_map_with_names(lambda v: ('f', seen.append(1)), z, training_utils.match_fn(pat)); of = {'/'.join(k): v for k, v in traverse_util.flatten_dict(o).items()}
    for k, v in zf.items(): c.check((of[k] == ('f', None)) == hit(k) if hit(k) else of[k] is v, 'map:leaf', leaf=k, hit=hit(k), got=repr(of[k])[:100], **det)
    c.check(len(seen) == sum(map(hit, zf)), 'map:calls', got=len(seen), **det)
  c.event('scaled-trees'); c.case(('scale', form, str(pat), f, str(sorted(flat))), any(map(hit, flat)), det if i == 0 else None)

def mesh_layout(world_=8):
  sm = int(rng.choice([1, 2, 4])); return dict(experts=int(rng.choice([1, 2, 3, 4, 8])), mesh=(1, sm), rules=(int(rng.choice([1, 2])), int(rng.choice([1, 2]))), compile=bool(rng.random() < .3))

def expert_count(): return int(rng.choice([4, 32], p=[.3, .7]))

def reference(spec):
  ref, dis = M.plain(spec)
  # What diverges on one device tells nothing.
  if not all(np.all(np.isfinite(x)) and np.abs(x).max(initial=0) < 1e4 for r in [ref] + dis for x in list(r['state'].values())) or not np.isfinite(ref['metrics']['loss']): c.event('diverged'); spec['opt'] = 'adam'; ref, dis = M.plain(spec)
  return ref, dis

def training(i):
  micro = [None, 2, None, 4][int(rng.integers(0, 4))]; lay = mesh_layout(); spec = M.random_spec(rng, steps=3, micro=micro, e=32, factor=float(rng.choice([1, 2, 4, 8])), match=['.*expert.*', '.*expert.*', '.*expert.*', '.*wi/kernel', None][int(rng.integers(0, 5))], dropout=0.0 if micro or rng.random() < .5 else .2, batch=16)
  if spec['opt'] == 'adafactor-heuristic': spec['opt'] = 'adafactor'
  if micro: spec['lnf'] = 48.0
  if spec['scan']: spec['dropout'] = 0.0
  if spec['lnf'] is None: spec['lnf'] = 'NUM_REAL_TARGET_TOKENS'   # tame gradients
  spec.update(aux=min(spec['aux'], .1), rz=min(spec['rz'], .1))
  if i % 3 == 2: spec.update(factor=1.0); lay['base'] = True   # the ordinary trainer
  data = 8 // lay['mesh'][1]; ex = max(k for k in range(1, lay['experts'] + 1) if data % k == 0)
  if 1 < ex < data:
    # The rows of a batch may be dealt to the devices in any order, which decides what they meet in a microbatch and under dropout.
    if i % 2: lay['experts'] = 1
    else: spec.update(micro=None, dropout=0.0)
  det = dict(spec=spec, layout=lay); ref, dis = reference(spec); c.beat()
  ok, out = c.attempt('train', M.partitioned, spec, lay)
  if not ok: return
  data, want = 8 // lay['mesh'][1], None
  want = max(k for k in range(1, lay['experts'] + 1) if data % k == 0)
  c.check(out['mesh'] == (data // want, want, lay['mesh'][1]) and out['names'] == ('data', 'expert', 'model'), 'mesh', got=(out['mesh'], out['names']), **det)
  M.judge_layout(c, spec, out, det); M.judge_training(c, ref, dis, out, det); c.event('trainings'); c.case(('train', str(spec), str(lay)), True, det if i == 0 else None)

def placement(i):
  lay = mesh_layout(); spec = M.random_spec(rng, e=32, steps=0); 
  if spec['opt'] == 'adafactor-heuristic': spec['opt'] = 'multi-partial'
  det = dict(spec=spec, layout=lay); ok, out = c.attempt('init', M.partitioned, spec, lay)
  if ok: M.judge_layout(c, spec, out, det); c.event('placements-checked'); c.case(('placement', str(spec), str(lay)), True)

class Odd(M.nn.Module):
  """Expert kernels of unusual ranks, which Adafactor may not factor."""
  leaves: tuple
  @M.nn.compact
  def __call__(self, x):
    for n, shape, axes in self.leaves: M.Kernel(shape, axes, name=n)()
    return x

def odd(i):
  e = 32; lay = mesh_layout(); dims = dict(expert=e, embed=8, mlp=16, unmodeled=6, kv=4, layers=3); kinds = [('expert', 'unmodeled'), ('expert', 'embed'), ('expert', 'embed', 'mlp'), ('expert', 'layers', 'embed', 'mlp'), ('expert', 'mlp'), ('expert', 'embed', 'unmodeled'), ('expert', 'layers', 'unmodeled')]
  pick = rng.choice(len(kinds), int(rng.integers(1, 4)), replace=False); leaves = [('expert_%d/k' % j, tuple(dims[a] for a in kinds[j]), kinds[j]) for j in pick] + [('other/k', (8, 16), ('embed', 'mlp'))]
  spec = dict(e=e, opt=str(rng.choice(['adafactor', 'adafactor-nomom', 'adam', 'adafactor-unfactored'])), seed=int(rng.integers(1 << 30))); det = dict(spec=spec, layout=lay, leaves=leaves)
  tr = M.Tree([(n.replace('/k', '/expert/kernel') if n != 'other/k' else 'other/kernel', s, a) for n, s, a in leaves]); part = M.partitioner(lay)
  from t5x import utils
  ok, st = c.attempt('odd', lambda: utils.TrainStateInitializer(M.optimizer(spec['opt']), tr.get_initial_variables, {}, part).from_scratch(jax.random.PRNGKey(1)))
  if not ok: return
  out = dict(init=M.flat(st), where=M.where(st, part), mesh=tuple(part.mesh.devices.shape), names=tuple(part.mesh.axis_names)); M.judge_layout(c, spec, out, det); c.event('odd-kernels'); c.case(('odd', str(det)), True)

def cluster(i):
  """Layouts of every host of a simulated cluster."""
  if rng.random() < .6:
    cores = int(rng.choice([1, 2])); host = [(2, 2, 1, cores), (1, 1, 1, cores), (2, 1, 1, cores)][int(rng.choice([0, 0, 1, 2]))]; nb = [int(rng.choice([1, 2, 2, 4])) for _ in range(2)]
    dims = tuple(h * b for h, b in zip(host[:2], nb)) + (1, cores); devices = tpu(dims, host); mps = tuple(int(rng.choice(divs(g))) for g in dims); name = dict(dims=dims, host=host)
  else:
    n, k = int(rng.choice([1, 2, 4, 8])), int(rng.choice([1, 2, 4, 8])); devices = [Plain(h * k + j, h, 'gpu', 'gpu') for h in range(n) for j in range(k)]; mps = (int(rng.choice(divs(n))), int(rng.choice(divs(k)))); name = dict(hosts=n, per_host=k)
  want = int(rng.choice([1, 2, 3, 4, 6, 8, 16, 64])); kw = dict(num_expert_partitions=want, model_parallel_submesh=mps); det = dict(kw=kw, **name)
  with world(devices) as n:
    try: p = mpart.MoePjitPartitioner(**kw); mesh = p.mesh
    except AssertionError: c.event('mesh-rejected'); return
    from t5x import partitioning
    base = partitioning.PjitPartitioner(model_parallel_submesh=mps).mesh; data = base.shape['data']; ex = max(k for k in range(1, want + 1) if data % k == 0)
    c.check(dict(mesh.shape) == dict(data=data // ex, expert=ex, model=base.shape['model']), 'mesh', got=dict(mesh.shape), want=(data // ex, ex), **det)
    c.check([d.id for d in mesh.devices.flat] == [d.id for d in base.devices.flat], 'mesh:order', **det)
    B = data * int(rng.integers(1, 3)); by = collections.defaultdict(list); num = None
    for h in range(n):
      HOST[0] = h
      try: q = mpart.MoePjitPartitioner(**kw); l = q.get_data_layout(B)
      except ValueError as e:
        if 'contiguous subcube' in str(e): c.event('not-contiguous'); HOST[0] = 0; return
        HOST[0] = 0; raise
      c.check(q.get_data_layout().batch_size == data, 'layout:default-batch', got=q.get_data_layout().batch_size, want=data, **det)
      rows = frozenset(x[0] for x in region(mesh, [('expert', 'data')], (B,), h)); by[l.shard_id].append((rows, bool(l.is_first_host_in_replica_set))); num = num or l.num_shards
      c.check(l.batch_size == B and l.num_shards == num and sum(b - a for a, b in rows) == B // l.num_shards, 'layout:rows', at_host=h, got=repr(l), rows=sorted(rows)[:6], **det)
      if data > 1:
        try: q.get_data_layout(B + int(rng.integers(1, data))); c.violation('layout:bad-batch-accepted', **det)
        except ValueError: c.event('batch-rejected')
    HOST[0] = 0
    c.check(sorted(by) == list(range(num)), 'layout:shards', got=sorted(by), want=num, **det)
    c.check(all(len({r for r, _ in v}) == 1 and sum(f for _, f in v) == 1 for v in by.values()), 'layout:replicas', got={k: [(sorted(r)[:4], f) for r, f in v] for k, v in list(by.items())[:6]}, **det)
    cells = collections.Counter(x for v in by.values() for a, b in v[0][0] for x in range(a, b)); c.check(set(cells) == set(range(B)) and set(cells.values()) == {1}, 'layout:rows-not-once', got={k: sorted(v[0][0])[:4] for k, v in by.items()}, **det)
    c.event('clusters'); c.event('shared-shards', any(len(v) > 1 for v in by.values()))
  c.case(('cluster', str(det)), n > 1, det if i == 0 else None)

def rules(i):
  """Standard rules: the batch along both axes, experts along 'expert', the rest as without experts."""
  from t5x import partitioning
  for a in (1, 2):
    for b in (1, 2):
      extra = [('mine', 'model'), ('batch', 'data')][:int(rng.integers(0, 3))] or None
      ok, got = c.attempt('rules', mpart.standard_logical_axis_rules, a, b, extra)
      if not ok: continue
      base = [(k, ('expert', 'data') if k == 'batch' else v) for k, v in partitioning.standard_logical_axis_rules(a, b)]; more = [('expert', 'expert'), ('expert_mlp', 'model'), ('expert_replicas', 'data'), ('unmodeled', None)] + [(k, ('expert', 'data') if k == 'batch' else v) for k, v in extra or ()]
      c.check([tuple(x) for x in got] == base + more, 'rules:standard', got=got, want=base + more)
  P = jax.sharding.PartitionSpec
  for x, w in ((P('data'), P(('expert', 'data'))), (P('model'), P('model')), (None, None), (P(None, 'data'), P(None, 'data')), ((P('data'), None, P()), (P(('expert', 'data')), None, P())), ([P('data'), {'a': P('data')}], (P(('expert', 'data')), {'a': P('data')}))):
    c.check(mpart.override_partition_specs(x) == w, 'rules:override', given=repr(x), got=repr(mpart.override_partition_specs(x)), want=repr(w))
  c.event('rules')

def processes(i):
  """Real processes of one device each train like one plain device."""
  n = [2, 4][i % 2]; lay = dict(experts=int(rng.choice(divs(n)[1:])), mesh=(1, 1), rules=(1, int(rng.choice([1, 2]))))
  spec = M.random_spec(rng, steps=2, micro=None, e=32, factor=2.0, match='.*expert.*', batch=8, opt=str(rng.choice(['sgd', 'adam', 'adafactor'])), lnf='NUM_REAL_TARGET_TOKENS', aux=.1, rz=.05); det = dict(spec=spec, layout=lay, processes=n); ref, dis = reference(spec)
  try: res = mproc.run('moe_train', n, 1, (spec, lay), c.scratch, timeout=200)
  except mproc.Failed as e:
    if any(x[1] == 'repo' for x in e.errors): c.violation('processes:raised', errors=e.errors, **det); return
    raise
  for out in res: M.judge_layout(c, spec, out, det); M.judge_training(c, ref, dis, out, det)
  c.event('multi-process'); c.case(('processes', n, str(spec), str(lay)), True)

if c.shard == 0: c.section('rules', rules, 0)
for i in range(c.n(40, 200)): c.section('scaling', scaling, i)
for i in range(c.n(12, 60)): c.section('cluster', cluster, i); c.beat()
if c.shard % 6 == 1: c.section('processes', processes, c.shard // 6)
for i in range(c.n(8, 30)): c.section('losses', losses, i); c.beat()
for i in range(c.n(2, 6)): c.section('training', training, c.shard + i); c.beat()
for i in range(c.n(1, 4)): c.section('odd', odd, i); c.beat()
for i in range(c.n(1, 4)): c.section('placement', placement, i); c.beat()
c.finish()
