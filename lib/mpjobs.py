"""Functions run in every process of a real multi-process JAX job."""
import numpy as np
import jax
from jax.experimental import multihost_utils
from t5x import partitioning

P = jax.sharding.PartitionSpec


def _norm(idx, shape):
  return tuple((s.start or 0, n if s.stop is None else s.stop) for s, n in zip(idx, shape))


def layout(cases):
  """For every (partitioner arguments, batch, [(shape, spec)]): layout, chunks and where the data really are."""
  out = []
  for kw, batch, arrays in cases:
    rec = dict(process=jax.process_index(), processes=jax.process_count())
    try: p = partitioning.PjitPartitioner(**kw); rec['mesh'] = [(d.process_index, d.id) for d in p.mesh.devices.flat]
    except (AssertionError, ValueError) as e:
      rec['rejected'] = repr(e)[:200]; out.append(rec); continue
    rec['shape'] = dict(p.mesh.shape)
    try:
      l = p.get_data_layout(batch); rec['layout'] = (l.batch_size, l.shard_id, l.num_shards, bool(l.is_first_host_in_replica_set))
    except ValueError as e: rec['layout'] = None; rec['why'] = repr(e)[:200]
    if rec['layout']:
      # The rows of the global batch that really live here.
      s = jax.sharding.NamedSharding(p.mesh, p.data_partition_spec)
      rows = set()
      for ix in s.addressable_devices_indices_map((batch, 2)).values(): a, b = _norm(ix, (batch, 2))[0]; rows |= set(range(a, b))
      rec['rows'] = sorted(rows)
      # Rows handed over by this process arrive at its place of the global batch.
      n = batch // l.num_shards
      mine = np.arange(l.shard_id * n, (l.shard_id + 1) * n, dtype=np.float32)
      g = multihost_utils.host_local_array_to_global_array(mine, p.mesh, p.data_partition_spec)
      f = p.partition(lambda x: x * 2, in_axis_resources=p.data_partition_spec, out_axis_resources=None)
      rec['global'] = np.asarray(f(g)).tolist()
    ch = []
    for shape, spec in arrays:
      info = p.get_local_chunk_info(shape, spec)
      s = jax.sharding.NamedSharding(p.mesh, P(*spec))
      real = sorted(set(_norm(ix, shape) for ix in s.addressable_devices_indices_map(shape).values()))
      ch.append((_norm(info.slice, shape), int(info.replica_id), real))
    rec['chunks'] = ch
    out.append(rec)
  return out


def train(spec, layouts):
  """The job of parlib on the devices of all processes."""
  import parlib
  return [parlib.partitioned(spec, l) for l in layouts]


def infer(cases):
  """get_infer_fn on the devices of all processes: every process's answer."""
  import inferlib
  return [inferlib.attempt(c) for c in cases]


def data(cases):
  """The input pipeline of every process and the global batches made of them."""
  import seqio, datalib as D
  from t5x import utils
  out = []
  for x in cases:
    t = x['task']; D.register([t], None, x['d']); part = partitioning.PjitPartitioner(model_parallel_submesh=(1, x['mp'])); lay = part.get_data_layout(x['B'])
    cfg = utils.DatasetConfig(mixture_or_task_name=t['name'], task_feature_lengths={'inputs': D.LI, 'targets': D.LT}, split='validation', batch_size=x['B'], shuffle=x['shuffle'], seed=x['seed'])
    mk = lambda: utils.get_dataset(cfg, lay.shard_id, lay.num_shards, seqio.EncDecFeatureConverter)
    raw = mk().as_numpy_iterator(); loc = [D.uids(next(raw)) for _ in range(x['steps'])]
    it = utils.prepare_train_iter(mk(), partitioner=part, checkpoint_cfg=None, data_layout=lay); glob = []
    f = part.partition(lambda b: b, in_axis_resources=part.data_partition_spec, out_axis_resources=None)
    for _ in range(x['steps']): glob.append(D.uids({k: np.asarray(f(v).addressable_data(0)) for k, v in next(it).items()}))
    ev = utils.get_training_eval_datasets(cfg, lay.shard_id, lay.num_shards, x['eval_steps'], seqio.EncDecFeatureConverter)[t['name']]
    out.append(dict(shard=lay.shard_id, num_shards=lay.num_shards, raw=loc, eval=[D.uids(b) for b in ev.as_numpy_iterator()], **{'global': glob}))
  return out


def moe_train(spec, lay):
  """A training job with experts on the devices of all processes."""
  import moelib
  return moelib.partitioned(spec, lay)


def moe_upcycle(specs, dirs):
  """Dense checkpoints restored as sparse models on the devices of all processes."""
  import moelib
  return [moelib.upcycle(s, d) for s, d in zip(specs, dirs)]


def ckpt(plan, log):
  """Saves and restores of one multi-host job, see mpckpt.py."""
  import mpckpt
  return mpckpt.run(plan, log)


def loop(plan):
  """Lifetimes of a multi-host training job, see mploop.py."""
  import mploop
  return mploop.run(plan)
