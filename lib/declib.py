"""History-dependent toy language models with a numpy twin.

The model's only memory of the past is what it wrote in its decode cache, so a
mis-gathered, dropped or stale cache row changes the logits and is caught by a
numpy replay of the returned sequence.
"""
import numpy as np
import vlib
import jax
import jax.numpy as jnp
from jax.experimental import io_callback

M = 251


class Toy:
  """logits(step) = table[hash of all tokens consumed so far in this row]."""

  def __init__(self, vocab, maxlen, offset=0, scale=2.0):
    self.v, self.l, self.offset, self.scale = vocab, maxlen, offset, scale
    self.nl = 2 + (vocab + maxlen) % 3
    self.events = []

  def table(self, rng, scale=None):
    t = rng.standard_normal((M, self.v)).astype(np.float32)
    return t * np.float32(self.scale if scale is None else scale)

  # numpy twin
  def hash0(self, b):
    return (np.asarray(b) * 17 + 3) % M

  def step_hash(self, h, tok, idx):
    return (np.asarray(h, np.int64) * 31 + np.asarray(tok) * 7 + idx * 3 + 1) % M

  def hash_of(self, b, tokens):
    h = int(self.hash0(b))
    for i, t in enumerate(tokens):
      h = int(self.step_hash(h, int(t), i))
    return h

  def init_cache(self, batch, prefix=None, lens=None):
    """prefix tokens [B, L] of which lens[b] have been consumed already."""
    hist = np.zeros((batch, self.l), np.int32)
    h = self.hash0(np.arange(batch))
    if lens is not None:
      h = np.array([self.hash_of(b, prefix[b, :lens[b]]) for b in range(batch)])
      for b in range(batch):
        hist[b, :lens[b]] = prefix[b, :lens[b]] + 1
      index = np.asarray(lens, np.int32)
    else:
      index = np.zeros((), np.int32)
    rid = np.arange(batch, dtype=np.int32)
    layer = {
        'hash': jnp.asarray(h, jnp.int32)[:, None],
        'cached_key': jnp.asarray(hist, jnp.float32)[:, :, None],
        'cached_value': jnp.asarray(hist * 3, jnp.int32)[:, None, :],
        'rid': jnp.asarray(rid)[:, None, None],
        'cache_index': jnp.asarray(index),
        'cached_bias': jnp.arange(12, dtype=jnp.float32).reshape(1, 3, 4),
        'position_embedder_index': jnp.asarray(5, jnp.int32),
    }
    if self.offset:
      nl = self.nl  # every layer holds different values
      for k in ('hash', 'cached_key', 'cached_value', 'rid'):
        layer[k] = jnp.stack([layer[k] + 1000 * i for i in range(nl)], 0)
      if lens is not None:
        layer['cache_index'] = jnp.stack([layer['cache_index']] * nl, 0)
      else:
        layer['cache_index'] = jnp.zeros((nl,), jnp.int32)
    return {'blk': {'attn': layer}}

  def consts_ok(self, layer):
    return (jnp.all(layer['cached_bias'] ==
                    jnp.arange(12, dtype=jnp.float32).reshape(1, 3, 4))
            & (layer['position_embedder_index'] == 5))

  def tokens_to_logits(self, table, record=True, own_index=False):
    off = self.offset

    def f(state):
      layer = state.cache['blk']['attn']
      h = layer['hash'][0] if off else layer['hash']
      h = h.reshape(-1)
      rows = h.shape[0]
      want = jax.tree.map(
          lambda x: (x.shape[:off] + (rows,) + x.shape[off + 1:]
                     if x.ndim > off else x.shape),
          {k: layer[k] for k in ('hash', 'cached_key', 'cached_value', 'rid')})
      got = {k: layer[k].shape for k in want}
      cshape = layer['cache_index'].shape[off:]
      if got != want or (own_index and int(np.prod(cshape)) != rows):
        raise vlib.Violation('cache:shape', dict(got=got, rows=rows,
                             index=layer['cache_index'].shape))
      tok = state.cur_token.reshape(-1)
      idx = jnp.broadcast_to(state.cur_index, (rows,))
      if own_index:  # position kept by the model itself (prefilled cache)
        ci = layer['cache_index']
        ci = ci[0] if off else ci
        idx = jnp.broadcast_to(ci.reshape(-1), (rows,))
      nh = (h * 31 + tok * 7 + idx * 3 + 1) % M
      logits = table[nh]
      hist = layer['cached_key']
      hist = hist[0] if off else hist
      onehot = (jnp.arange(self.l)[None, :] == idx[:, None])
      newhist = jnp.where(onehot[:, :, None],
                          (tok + 1).astype(jnp.float32)[:, None, None], hist)
      rid = layer['rid'][0] if off else layer['rid']
      val = layer['cached_value']
      same = jnp.all((val[0] if off else val)[:, 0, :] == hist[:, :, 0] * 3)
      if off:
        for k in ('hash', 'cached_key', 'cached_value', 'rid'):
          for i in range(1, self.nl):
            same = same & jnp.all(layer[k][i] == layer[k][0] + 1000 * i)
      if record:
        io_callback(self._record, None, idx, tok, state.sequences, hist[:, :, 0],
                    rid.reshape(-1), layer['cache_index'],
                    self.consts_ok(layer) & same, ordered=True)
      new = dict(layer)
      up = {'hash': nh[:, None], 'cached_key': newhist,
            'cached_value': (newhist[:, :, 0] * 3).astype(jnp.int32)[:, None, :]}
      for k, x in up.items():
        new[k] = (jnp.stack([x + 1000 * i for i in range(self.nl)], 0)
                  if off else x)
      new['cache_index'] = layer['cache_index'] + 1
      return logits, {'blk': {'attn': new}}

    return f

  def _record(self, *a):
    self.events.append([np.array(x) for x in a])


def log_softmax(x):
  x = np.asarray(x, np.float64)
  m = x.max(-1, keepdims=True)
  return x - m - np.log(np.exp(x - m).sum(-1, keepdims=True))
