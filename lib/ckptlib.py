"""Random train states, placements and independent readers for checkpoint checks.

Import after setting XLA_FLAGS (four host devices are expected).
"""
import hashlib, os, signal
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax, jax.numpy as jnp
import flax, ml_dtypes, optax
from flax import traverse_util
from flax.core import freeze, unfreeze
from flax.linen import partitioning as fp
import tensorstore as tsto
import trainlib as TL
from t5x import adafactor, checkpoints, optimizers, partitioning, train_state as ts_lib

P = jax.sharding.PartitionSpec
BF = ml_dtypes.bfloat16
RULES = (('nul', None), ('nul0', None), ('nul1', None), ('nul2', None), ('mod', 'model'), ('dat', 'data'), ('stack', None))


def part(mesh=(1, 1), on_devices=True, hide=()):
  """Partitioner over prod(mesh) model partitions; leaves under `hide` are declared unpartitioned."""
  class Part(partitioning.PjitPartitioner):
    def get_mesh_axes(self, st):
      a = super().get_mesh_axes(st)
      if not hide:
        return a
      sd = a.state_dict()
      flat = traverse_util.flatten_dict(sd, keep_empty_nodes=True)
      for k in flat:
        if '/'.join(k) in hide:
          flat[k] = None
      return a.restore_state(traverse_util.unflatten_dict(flat))
  return Part(num_partitions=None, model_parallel_submesh=mesh, params_on_devices=on_devices, logical_axis_rules=RULES)


NAMES = ['encoder', 'decoder', 'layers_0', 'layers_10', 'kernel', 'bias', 'scale', 'wi', 'embedding', 'a', 'b_c', 'mlp']


def random_tree(rng, n, depth=3, dtypes=(np.float32,), names=NAMES, rank=3):
  """Nested dict of (shape, dtype, logical axes) leaves with n leaves."""
  flat = {}
  while len(flat) < n:
    k = tuple(str(rng.choice(names)) for _ in range(int(rng.integers(1, depth + 1))))
    if any(k[:len(q)] == q or q[:len(k)] == k for q in flat):
      continue
    r = min(rank, int(rng.choice([0, 1, 1, 2, 2, 2, 3])))
    axes, shape, used = [], [], set()
    for j in range(r):
      a = str(rng.choice(['nul', 'mod', 'dat']))
      if a in used:
        a = 'nul'
      if a != 'nul':
        used.add(a)
      axes.append(a if a != 'nul' else 'nul%d' % j)
      shape.append(int(rng.integers(1, 6)) if a == 'nul' else 4 * int(rng.integers(1, 4)))
    flat[k] = (tuple(shape), dtypes[int(rng.integers(0, len(dtypes)))], tuple(axes))
  return traverse_util.unflatten_dict(flat)


def is_spec(x):
  return isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], tuple)


def fill(rng, shape, dtype):
  """Random values including special ones."""
  dt = np.dtype(dtype)
  if dt == np.bool_:
    return rng.random(shape) < .5
  if dt.kind in 'iu':
    info = np.iinfo(dt)
    return rng.integers(info.min, info.max, size=shape, dtype=dt, endpoint=True)
  x = np.asarray(rng.standard_normal(shape) * 10.0 ** rng.integers(-6, 6), np.float32)
  if x.size:
    f = x.reshape(-1)
    for v in (0.0, -0.0, np.inf, -np.inf, np.nan, 1e-30, 65504.0, 1 + 2.0 ** -9):
      if rng.random() < .25:
        f[int(rng.integers(0, f.size))] = v
    x = f.reshape(shape)
  return x.astype(dt)


def opt_def(kind):
  if kind == 'sgd':
    return TL.SGD()
  if kind == 'adafactor':
    return adafactor.Adafactor(learning_rate=.1, beta1=.9, min_dim_size_to_factor=4, logical_factor_rules=freeze(
        {'nul0': adafactor.FactorDim.BATCH, 'nul1': adafactor.FactorDim.COLUMN, 'nul2': adafactor.FactorDim.ROW, 'mod': adafactor.FactorDim.ROW,
         'dat': adafactor.FactorDim.COLUMN}))
  if kind == 'adafactor_plain':
    return adafactor.Adafactor(learning_rate=.1, min_dim_size_to_factor=4)
  if kind == 'adam':
    return optimizers.OptaxWrapper(optax.adam(1e-3))
  if kind == 'adamw_mask':
    return optimizers.OptaxWrapper(optax.chain(optax.clip(1.0), optax.adamw(1e-3), optax.trace(.9)))
  if kind == 'multi':
    from flax import traverse_util as tu
    t1 = tu.ModelParamTraversal(lambda p, _: 'kernel' in p or 'a' in p.split('/'))
    return optimizers.MultiOptimizer(((t1, adafactor.Adafactor(learning_rate=.1, min_dim_size_to_factor=4)),))
  raise ValueError(kind)


def variables(rng, tree, mut=None):
  """Model variables (numpy) with axis metadata."""
  def vals(t):
    return jax.tree.map(lambda s: fill(rng, s[0], s[1]), t, is_leaf=is_spec)
  def axes(t):
    flat = traverse_util.flatten_dict(t)
    return traverse_util.unflatten_dict({k[:-1] + (k[-1] + '_axes',): fp.AxisMetadata(v[2]) for k, v in flat.items()})
  v = {'params': vals(tree), 'params_axes': axes(tree)}
  for name, t in (mut or {}).items():
    v[name] = vals(t)
    v[name + '_axes'] = axes(t)
  return v


def make_state(rng, tree, kind, mut=None):
  v = jax.tree.map(lambda x: jnp.asarray(x) if isinstance(x, np.ndarray) else x, variables(rng, tree, mut), is_leaf=lambda x: isinstance(x, fp.AxisMetadata))
  if kind == 'inference':
    return ts_lib.InferenceState.create(freeze(v))
  return jax.tree.map(jnp.asarray, ts_lib.FlaxOptimTrainState.create(opt_def(kind), freeze(v)))


def abstract(state):
  return jax.tree.map(lambda x: jax.ShapeDtypeStruct(np.shape(x), getattr(x, 'dtype', np.int32)), state)


def refill(rng, state, step):
  """A state of the same structure with fresh random contents (numpy leaves)."""
  def f(x):
    a = np.asarray(x)
    return fill(rng, a.shape, a.dtype)
  sd = jax.tree.map(f, state.state_dict())
  sd['state']['step'] = np.asarray(step, np.int32)
  return state.restore_state(sd)


def place(state, partitioner, how):
  """how: host (numpy), single (one device), sharded (as the partitioner lays it out)."""
  if how == 'host':
    return jax.tree.map(np.asarray, state)
  if how == 'single':
    return jax.tree.map(jnp.asarray, state)
  axes = partitioner.get_mesh_axes(state)
  flat_axes = traverse_util.flatten_dict(axes.state_dict(), keep_empty_nodes=True)
  flat = traverse_util.flatten_dict(state.state_dict(), keep_empty_nodes=True)
  out = {}
  for k, v in flat.items():
    if v is None or isinstance(v, type(traverse_util.empty_node)):
      out[k] = v
      continue
    a = flat_axes.get(k)
    out[k] = jax.device_put(np.asarray(v), jax.sharding.NamedSharding(partitioner.mesh, a if a is not None else P()))
  return state.restore_state(traverse_util.unflatten_dict(out))


def flat(state_or_dict):
  """'/'-joined path -> leaf (None kept)."""
  sd = state_or_dict if isinstance(state_or_dict, dict) else state_or_dict.state_dict()
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(unfreeze(freeze(sd))).items()}


def host(x):
  if isinstance(x, checkpoints.LazyArray):
    x = x.get()
  return np.asarray(x)


def same(a, b):
  """Bit equality up to the payload of NaN."""
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape or a.dtype != b.dtype:
    return False
  if a.dtype.kind in 'fV' or a.dtype == BF:
    x, y = a.astype(np.float64), b.astype(np.float64)
    return bool(np.all((x == y) & (np.signbit(x) == np.signbit(y)) | np.isnan(x) & np.isnan(y)))
  return bool(np.array_equal(a, b))


def snapshot(d):
  """Content hash of every file below d."""
  out = {}
  for root, dirs, files in os.walk(d):
    for n in dirs:
      out[os.path.relpath(os.path.join(root, n), d) + '/'] = ''
    for n in files:
      p = os.path.join(root, n)
      with open(p, 'rb') as f:
        out[os.path.relpath(p, d)] = hashlib.sha1(f.read()).hexdigest()
  return out


def read_raw(ckpt_dir):
  """Reads a T5X checkpoint with msgpack and TensorStore only: path -> (array, stored by tensorstore?, spec path)."""
  from flax import serialization
  with open(os.path.join(ckpt_dir, 'checkpoint'), 'rb') as f:
    tree = serialization.msgpack_restore(f.read())
  out = {}
  def walk(t, k):
    if isinstance(t, dict) and {'driver', 'kvstore', 'metadata'} <= set(t):
      p = t['kvstore'].get('path') or t.get('path')
      arr = tsto.open({'driver': t['driver'], 'kvstore': {'driver': 'file', 'path': os.path.join(ckpt_dir, p)}}, open=True, read=True).result().read().result()
      out['/'.join(k)] = (np.asarray(arr), True, p)
    elif isinstance(t, dict):
      for q, v in t.items():
        walk(v, k + (q,))
    else:
      out['/'.join(k)] = (t, False, None)
  walk(tree['optimizer'], ())
  return tree['version'], out


class Hang(BaseException):
  """An operation that does not finish."""


class limit:
  """Raises Hang in the main thread after the given seconds."""

  def __init__(self, seconds):
    self.s = seconds

  def __enter__(self):
    def h(*a):
      raise Hang()
    self.old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, self.s)

  def __exit__(self, *a):
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, self.old)
