"""Small instances of every shipped transformer, random parameters, batches."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
import seqio
from flax.core import unfreeze

V = 17
EOS = 1
vocab = seqio.PassThroughVocabulary(size=V, eos_id=EOS)


def module(kind, dtype=jnp.float32, layers=2, acts=('relu',), via_emb=False, vocab_size=V,
           dropout=0.0, **kw):
  if kind == 'toy':
    return toy(**kw)
  common = dict(vocab_size=vocab_size, dtype=dtype, emb_dim=8, num_heads=2, head_dim=4,
                mlp_dim=16, mlp_activations=acts, dropout_rate=dropout,
                logits_via_embedding=via_emb)
  if kind == 'decoder_only':
    from t5x.examples.decoder_only import network
    return network.DecoderWrapper(network.TransformerConfig(num_layers=layers, **common, **kw))
  if kind == 't5':
    from t5x.examples.t5 import network
  elif kind in ('scalable', 'scalable_unrolled'):
    from t5x.examples.scalable_t5 import network
    kw.setdefault('scan_layers', kind == 'scalable')
  elif kind == 'gpu':
    from t5x.contrib.gpu.t5 import network
  else:
    raise KeyError(kind)
  return network.Transformer(network.T5Config(
      num_encoder_layers=layers, num_decoder_layers=layers, **common, **kw))


def init(mod, kind, seed, scale=1.0):
  """Generic random parameters (no compilation)."""
  if kind == 'toy':
    return toy_params(seed)
  o = jnp.ones((1, 4), jnp.int32)
  args = (o, o) if kind == 'decoder_only' else (o, o, o)
  shapes = jax.eval_shape(functools.partial(mod.init, enable_dropout=False),
                          jax.random.PRNGKey(0), *args)['params']
  rng = np.random.default_rng(seed)

  def f(path, x):
    name = '/'.join(str(getattr(k, 'key', k)) for k in path)
    n = rng.standard_normal(x.shape).astype(np.float32)
    if name.endswith('scale'):
      n = 1 + 0.15 * n
    elif 'embed' not in name and 'rel' not in name:
      n = n * 0.4
    return jnp.asarray(n * scale)
  return jax.tree_util.tree_map_with_path(f, unfreeze(shapes))


def shift(t):
  out = np.zeros_like(t)
  out[:, 1:] = t[:, :-1]
  return out


def ragged(rng, b, L, lo=1, lens=None):
  t = np.zeros((b, L), np.int32)
  lens = rng.integers(lo, L + 1, b) if lens is None else np.asarray(lens)
  for i in range(b):
    t[i, :lens[i]] = rng.integers(2, V, lens[i])
  return t, lens


# --- a tiny encoder-decoder whose decoder supports prefill -----------------
from flax import linen as nn  # pylint: disable=g-import-not-at-top

MOD = 97


class ToyDecoder(nn.Module):
  """logits = table[hash of the tokens consumed so far and of the input]."""
  pos_emb: bool = False

  @nn.compact
  def __call__(self, enc_hash, tokens, decode, prefill, lengths):
    tab = self.param('tab', nn.initializers.normal(1.0), (MOD, V))
    B, T = tokens.shape
    w = jnp.array([pow(5, j, MOD) for j in range(64)])
    is_init = self.has_variable('cache', 'cached_key')
    if decode or prefill:
      key = self.variable('cache', 'cached_key', jnp.zeros, (B, T), jnp.int32)
      index = self.variable('cache', 'cache_index', lambda: jnp.array(0, jnp.int32))
    pidx = None
    if self.pos_emb:
      pe = ToyPos(name='position_embedder')
      pidx = pe(decode)
    if (decode or prefill) and not is_init:
      return jnp.zeros((B, T, V))
    if decode:
      L = key.value.shape[1]
      idx = jnp.broadcast_to(index.value.reshape(-1), (B,)) if index.value.ndim else jnp.full((B,), index.value)
      hist = jnp.where(jnp.arange(L)[None] == idx[:, None], tokens[:, :1] + 1, key.value)
      key.value = hist
      index.value = index.value + 1
      h = (hist * w[:L] * (jnp.arange(L)[None] <= idx[:, None])).sum(1) + enc_hash * 13
      if pidx is not None:
        h = h + 3 * jnp.broadcast_to(pidx.reshape(-1), (B,))
      return tab[h % MOD][:, None]
    if prefill:
      key.value = (tokens + 1) * (jnp.arange(T)[None] < lengths[:, None])
      index.value = lengths.astype(jnp.int32)
      return jnp.zeros((B, T, V))
    h = jnp.cumsum((tokens + 1) * w[:T], axis=1) + enc_hash[:, None] * 13
    if self.pos_emb:
      h = h + 3 * jnp.arange(T)[None]
    return tab[h % MOD]


class ToyPos(nn.Module):

  @nn.compact
  def __call__(self, decode):
    is_init = self.has_variable('cache', 'position_embedder_index')
    if not decode and not is_init:
      return None
    i = self.variable('cache', 'position_embedder_index', lambda: jnp.array(0, jnp.int32))
    v = i.value
    if decode and is_init:
      i.value = v + 1
    return v


class ToyED(nn.Module):
  pos_emb: bool = False

  def setup(self):
    self.decoder = ToyDecoder(self.pos_emb)

  def encode(self, encoder_input_tokens, encoder_segment_ids=None, enable_dropout=True):
    return (encoder_input_tokens * (2 + jnp.arange(encoder_input_tokens.shape[1])) % MOD)[:, :, None]

  def decode(self, encoded, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens,
             encoder_segment_ids=None, decoder_segment_ids=None, decoder_positions=None,
             enable_dropout=True, decode=False, max_decode_length=None, prefill=False, prefill_lengths=None):
    h = (encoded[:, :, 0] * (encoder_input_tokens > 0)).sum(1)
    return self.decoder(h, decoder_input_tokens, decode, prefill, prefill_lengths)

  def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens,
               encoder_segment_ids=None, decoder_segment_ids=None, encoder_positions=None,
               decoder_positions=None, *, enable_dropout=True, decode=False):
    e = self.encode(encoder_input_tokens)
    return self.decode(e, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, decode=decode)


def toy(pos_emb=False):
  return ToyED(pos_emb)


def toy_params(seed):
  t = np.random.default_rng(seed).standard_normal((MOD, V)).astype(np.float32) * 1.5
  t[:, 0] = -40  # padding is never generated
  return {'decoder': {'tab': jnp.asarray(t)}}
