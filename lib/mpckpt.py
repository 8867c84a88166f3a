"""One host's part of a multi-host checkpoint job.

The plan is a list of dicts, executed by every process in step; every process
knows the whole state (it follows from the seeds) and answers for its own
shards only.
"""
import os, time, traceback
import numpy as np
import fsfault
import ckptlib as K
import jax
import tensorflow as tf
from t5x import checkpoints
import vlib

K.RULES = K.RULES + (('batch', 'data'),)   # hosts have shards of the data


def trees(x):
  rng = np.random.default_rng(x['seed']); tree = K.random_tree(rng, x['leaves'], rank=2, dtypes=[np.float32, K.BF] if x['bf16'] else [np.float32])
  tree = jax.tree.map(lambda s: (tuple(n if a.startswith('nul') else 3 * n for n, a in zip(s[0], s[2])),) + s[1:], tree, is_leaf=K.is_spec)   # three hosts, too
  return tree, K.make_state(rng, tree, x['kind'])


def contents(x, base, step): return K.refill(np.random.default_rng([x['seed'], step, x.get('version', {}).get(step, 0)]), base, step)


def place(state, part):
  """Global arrays laid out as the partitioner says; replicated where it says nothing."""
  from flax import traverse_util
  ax = traverse_util.flatten_dict(part.get_mesh_axes(state).state_dict(), keep_empty_nodes=True); fl = traverse_util.flatten_dict(state.state_dict(), keep_empty_nodes=True); out = {}
  for k, v in fl.items():
    if v is None or isinstance(v, type(traverse_util.empty_node)): out[k] = v; continue
    a = np.asarray(v); s = jax.sharding.NamedSharding(part.mesh, ax.get(k) if ax.get(k) is not None else K.P())
    out[k] = jax.make_array_from_callback(a.shape, s, lambda i, a=a: a[i])
  return state.restore_state(traverse_util.unflatten_dict(out))


def position(x, shard, step): return (x['seed'] + 7 * shard + 3 * step) % 23


def iterator(n=0, shard=0):
  it = iter(tf.data.Dataset.range(1000 * shard, 1000 * shard + 1000))
  for _ in range(n): next(it)
  return it


def manager(x, base, part, ds):
  if x['cls'] == 'orbax':
    return checkpoints.OrbaxCheckpointManagerInterface(x['dir'], K.abstract(base), part, dataset_iterator=ds, save_dtype=None, restore_dtype=None, keep=x['keep'], keep_dataset_checkpoints=x['keep_ds'])
  return checkpoints.Checkpointer(K.abstract(base), part, x['dir'], ds, keep=x['keep'], save_dtype=None, keep_dataset_checkpoints=x['keep_ds'])


CLOCK = time.time
STALL = [0.0]
WRITE = tf.train.Checkpoint.write


def slow_write(self, *a, **k):
  """Some hosts are late with their part."""
  if STALL[0]: time.sleep(STALL[0])
  return WRITE(self, *a, **k)


tf.train.Checkpoint.write = slow_write


def one(x, log):
  """Clocks of different hosts need not agree, and hosts do not arrive together."""
  me = jax.process_index(); skew = x.get('skew', {}).get(me, 0)
  if x.get('late', {}).get(me): time.sleep(x['late'][me])
  time.time = lambda: CLOCK() + skew; STALL[0] = x.get('stall', {}).get(me, 0.0) if x['op'] == 'save' else 0.0
  try: return work(x, log)
  finally: time.time = CLOCK


def work(x, log):
  me = jax.process_index(); part = K.part(tuple(x['mesh'])); lay = part.get_data_layout()
  _, base = trees(x); rec = dict(process=me, shard=(lay.shard_id, lay.num_shards, bool(lay.is_first_host_in_replica_set)))
  if x['op'] == 'save':
    rec['after'] = []; ck = None; ds = None
    for step in x['steps']:
      st = place(contents(x, base, step), part)
      if x['ds']: ds = iterator(position(x, lay.shard_id, step), lay.shard_id)
      if ck is not None and hasattr(ck, 'close'): ck.close()
      ck = manager(x, base, part, ds)
      tr = x.get('trace'); killed = x.get('kill')
      if tr: fsfault.trace(x['dir'], log, me, tr['seed'] * 31 + me, tr['permille'] if me in tr['slow'] else 0, tr['us'], killed[1] if killed and killed[0] == me and step == x['steps'][-1] else -1)
      ck.save(st)
      if x['cls'] != 'orbax' and tr:
        with open(log, 'ab', buffering=0) as f: f.write(b'%d returned %s\n' % (me, os.path.join(x['dir'], 'checkpoint_%d' % step).encode()))
      if hasattr(ck, 'close'): ck.close()
      if tr: rec.setdefault('ops', []).append(fsfault.untrace())
      rec['after'].append(sorted(int(s) for s in ck.all_steps()))
      rec.setdefault('latest', []).append(ck.latest_step())
  else:
    ds = iterator(0, lay.shard_id) if x['ds'] else None
    ck = manager(x, base, part, ds); rec['steps'] = sorted(int(s) for s in ck.all_steps()); rec['read'] = {}
    for step in x['steps'] if x['steps'] is not None else rec['steps']:
      try: got = K.flat(ck.restore(step=step))
      except Exception as e:  # pylint: disable=broad-except
        rec['read'][step] = dict(raised=traceback.format_exc()[-2500:], blame=vlib.blame(e)); continue
      want = K.flat(contents(x, base, step)); ax = K.flat(part.get_mesh_axes(base)); bad, n, split = [], 0, 0
      if set(got) != set(want): bad.append(('structure', sorted(set(got) ^ set(want))[:5]))
      else:
        for k, w in want.items():
          g = got[k]
          if w is None or g is None: 
            if (w is None) != (g is None): bad.append((k, 'None'))
            continue
          w = np.asarray(w)
          if isinstance(g, jax.Array):
            if g.shape != w.shape or g.dtype != w.dtype: bad.append((k, str(g.shape), str(g.dtype))); continue
            sh = [(s.index, np.asarray(s.data)) for s in g.addressable_shards]
            if ax.get(k) is not None and not g.sharding.is_equivalent_to(jax.sharding.NamedSharding(part.mesh, ax[k]), g.ndim): bad.append((k, 'placement', str(g.sharding), str(ax[k])))
            split += not g.is_fully_addressable and not g.is_fully_replicated
          else: sh = [((Ellipsis,), np.asarray(g))]
          for i, a in sh:
            n += 1
            if not K.same(a, w[i]): bad.append((k, 'value', str(i), vlib._short(a, 200), vlib._short(w[i], 200)))
      rec['read'][step] = dict(bad=bad[:5], shards=n, split=split, next=int(next(ds)) if ds is not None else None)
    if hasattr(ck, 'close'): ck.close()
  return rec


def shim():
  """The installed Orbax asks the coordination service for a call that the installed jaxlib has under another name only."""
  from jax._src.lib import xla_extension
  C = xla_extension.DistributedRuntimeClient
  if not hasattr(C, 'key_value_try_get'):
    C.key_value_try_get = lambda self, k: self.blocking_key_value_get(k, 20)


def run(plan, log):
  shim()
  return [one(x, log) for x in plan]
