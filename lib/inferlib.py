"""Batched inference (utils.get_infer_fn) of exact integer models, in one or several processes."""
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax, jax.numpy as jnp
import tensorflow as tf
from flax.core import freeze
import vlib
from t5x import partitioning, train_state as ts_lib, utils

P = jax.sharding.PartitionSpec
W = 5


def features(case):
  """Unique, non-monotonic content per example, so that a result names its input."""
  rng = np.random.default_rng(case['seed']); n = case['n']
  ident = rng.permutation(1000)[:n].astype(np.int32) + 1
  return dict(a=(ident[:, None] * 10 + np.arange(W)).astype(np.int32), b=ident)


KINDS = ['plain', 'aux', 'score', 'dict', 'tuple', 'aux-nested', 'scalar']


def outputs(kind, a, b, w, mut, draw, xp):
  """The model: every output is exact integer arithmetic on one example."""
  tok = a * w + mut + draw; score = b * 7 + w
  if kind == 'plain': return tok
  if kind == 'scalar': return score + draw
  if kind == 'aux': return tok, {'scores': score.astype(xp.float32), 'state': a[:, :2]}
  if kind == 'aux-nested': return tok, {'scores': score, 'inner': {'x': b * 2, 'y': a * 3}}
  if kind == 'score': return score.astype(xp.float32), {'intermediates': {'m': tok, 'k': (b,)}}
  if kind == 'dict': return {'x': tok, 'y': {'z': score}}
  if kind == 'tuple': return tok, score, b
  raise ValueError(kind)


def step(case):
  kind = case['kind']
  def run(params, batch, rng, mut):
    w = params['w'][0]; m = mut['m'][0] if case['mutables'] else 0
    d = 0
    if case['rng'] == 'used': d = jax.random.randint(rng, (), 0, 1000000).astype(jnp.int32)
    return outputs(kind, batch['a'], batch['b'], w, m, d, jnp)
  # The four signatures that an inference step may have.
  if case['rng'] != 'no' and case['mutables']: return lambda params, batch, rng, flax_mutables=None: run(params, batch, rng, flax_mutables)
  if case['rng'] != 'no': return lambda params, batch, rng: run(params, batch, rng, None)
  if case['mutables']: return lambda params, batch, flax_mutables=None: run(params, batch, None, flax_mutables)
  return lambda params, batch: run(params, batch, None, None)


def want(case):
  """The same model on every example, in input order; a drawn value depends on the batch only."""
  f = features(case)
  g = lambda d: outputs(case['kind'], f['a'], f['b'], np.int32(case['w']), np.int32(case['m'] if case['mutables'] else 0), np.int32(d), np)
  return f, g(0), g(1)


def run(case):
  part = partitioning.PjitPartitioner(**case['kw']); B = case['batch']
  st = ts_lib.InferenceState(jnp.array(0), freeze({'w': np.array([case['w']], np.int32)}), flax_mutables=freeze({'m': np.array([case['m']], np.int32)} if case['mutables'] else {}))
  axes = ts_lib.InferenceState(None, freeze({'w': P(None)}), flax_mutables=freeze({'m': P(None)} if case['mutables'] else {}))
  fn = utils.get_infer_fn(step(case), B, axes, part, keep_aux_as_numpy=case['keep_np'])
  f = features(case); ds = tf.data.Dataset.from_tensor_slices(f).enumerate()
  key = jax.random.PRNGKey(case['key']) if case['rng'] == 'used' or case['give'] else None
  res = fn(ds, st) if key is None else fn(ds, st, rng=key)
  again = None
  if case['twice']: again = fn(ds, st) if key is None else fn(ds, st, rng=key)
  lay = part.get_data_layout(B)
  return dict(res=jax.tree.map(_host, res), again=jax.tree.map(_host, again), kinds=sorted({type(x).__name__ for x in jax.tree.leaves(res)}), shards=lay.num_shards, shard=lay.shard_id, mesh=dict(part.mesh.shape))


def _host(x): return np.asarray(x) if hasattr(x, 'shape') else x


def attempt(case):
  try: return run(case)
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    return dict(raised=traceback.format_exc()[-1500:], blame=vlib.blame(e))
