"""A small early-exit encoder-decoder with the calling convention of CALM's model, and its float64 replay."""
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax, jax.numpy as jnp
import flax.linen as nn
import seqio
import trainlib as TL
from t5x.contrib.calm import models, decoding

BETA = 1.5


class Layer(nn.Module):
  d: int

  @nn.compact
  def __call__(self, h, e, length=None, decode=False, only_propagate_state=False):
    init = nn.initializers.normal(1.0)
    U = self.param('U', init, (self.d, self.d)); W = self.param('W', init, (self.d, self.d)); C = self.param('C', init, (self.d, self.d))
    k = h @ U
    if decode:
      there = self.has_variable('cache', 'cached_key')
      ck = self.variable('cache', 'cached_key', lambda: jnp.zeros((h.shape[0], length, self.d))); ix = self.variable('cache', 'cache_index', lambda: jnp.zeros((), jnp.int32))
      if there:
        t = ix.value; ck.value = jax.lax.dynamic_update_slice(ck.value, k, (0, t, 0)); ix.value = t + 1
        if only_propagate_state: return h
        s = jnp.where(jnp.arange(ck.value.shape[1]) <= t, BETA * jnp.einsum('bqd,bjd->bqj', h, ck.value), -1e9)
        return jnp.tanh(h @ W + jnp.einsum('bqj,bjd->bqd', nn.softmax(s), ck.value) + e @ C)
    n = h.shape[1]; s = jnp.where(jnp.tril(jnp.ones((n, n), bool)), BETA * jnp.einsum('bqd,bjd->bqj', h, k), -1e9)
    return jnp.tanh(h @ W + jnp.einsum('bqj,bjd->bqd', nn.softmax(s), k) + e @ C)


class Net(nn.Module):
  layers: int
  d: int
  vocab: int
  meta: bool = False
  scale: float = 2.0

  def setup(self):
    init = nn.initializers.normal(1.0)
    self.emb = self.param('emb', init, (self.vocab, self.d)); self.enc = self.param('enc', init, (self.vocab, self.d)); self.out = self.param('out', init, (self.d, self.vocab)); self.score = self.param('score', init, (self.d, 2))
    self.stack = [Layer(self.d, name='l%d' % i) for i in range(self.layers)]

  def encode(self, inputs, enable_dropout=False, **kw): return self.enc[inputs]

  def context(self, encoded, raw):
    m = (raw > 0)[..., None]; return jnp.sum(encoded * m, 1, keepdims=True) / jnp.maximum(m.sum(1, keepdims=True), 1)

  def compute_logits(self, h, logit_mask=None, enable_dropout=False): return self.scale * h @ self.out

  def decode(self, encoded, raw, ids, targets, enable_dropout=False, decode=False, max_decode_length=None, start_idx=0, end_idx=None, decoder_embedded_input=None, return_prelogits=False, only_propagate_state=False, **kw):
    h = self.emb[ids] if decoder_embedded_input is None else decoder_embedded_input; e = self.context(encoded, raw)
    for l in self.stack[start_idx:end_idx]: h = l(h, e, max_decode_length, decode, only_propagate_state)
    if not return_prelogits: return self.compute_logits(h)
    return (h, h @ self.score) if self.meta else h

  def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, enable_dropout=False, decode=False, **kw):
    """All layers' logits."""
    e = self.context(self.encode(encoder_input_tokens), encoder_input_tokens); h = self.emb[decoder_input_tokens]; out = []; sc = []
    for l in self.stack: h = l(h, e, decoder_input_tokens.shape[1], decode); out.append(self.compute_logits(h)); sc.append(h @ self.score)
    return (jnp.stack(out), jnp.stack(sc)) if self.meta else jnp.stack(out)


def softmax(x):
  x = x - x.max(-1, keepdims=True); e = np.exp(x); return e / e.sum(-1, keepdims=True)


class Replay:
  """The same network one token at a time in float64, exits chosen by definition."""

  def __init__(self, params, net, inputs, length, cfg):
    self.p = jax.tree.map(lambda x: np.asarray(x, np.float64), params); self.n, self.cfg, self.net = net.layers, cfg, net; R = len(inputs)
    m = (np.asarray(inputs) > 0)[..., None]; self.e = (self.p['enc'][np.asarray(inputs)] * m).sum(1) / np.maximum(m.sum(1), 1)
    self.K = np.zeros((self.n, R, length, net.d)); self.t = 0; self.length = length

  def key(self, l, h): self.K[l][:, self.t] = h @ self.p['l%d' % l]['U']

  def layer(self, l, h):
    q = self.p['l%d' % l]; self.key(l, h); K = self.K[l][:, :self.t + 1]
    return np.tanh(h @ q['W'] + np.einsum('bj,bjd->bd', softmax(BETA * np.einsum('bd,bjd->bj', h, K)), K) + self.e @ q['C'])

  def logits(self, h): return self.net.scale * h @ self.p['out']

  def conf(self, h, prev):
    m = self.cfg['conf_method']
    if m == 'meta': return softmax(h @ self.p['score'])[:, 1]
    if m == 'state': return (h * prev).sum(-1) / (np.linalg.norm(h, axis=-1) * np.linalg.norm(prev, axis=-1)) if prev is not None else np.zeros(len(h))
    s = np.sort(softmax(self.logits(h)), -1)
    return s[:, -1] if m == 'softmax_max' else s[:, -1] - s[:, -2]

  def step(self, tok):
    """Returns logits, confidence, exit layer and how close the decisions were."""
    c, n, t = self.cfg, self.n, self.t; margin = np.inf; h = self.p['emb'][tok]; K0 = self.K.copy(); prev = None
    stops = [min(s, n) for s in range(c['first_exit'] + 1, n + c['exit_interval'], c['exit_interval'])]
    full = None
    if c['oracle_tok_consistency'] or c['oracle_tok_noisy_cache']:
      g = h
      for l in range(n): g = self.layer(l, g)
      full = self.logits(g); self.K = K0.copy()
      srt = np.sort(full, -1); margin = min(margin, (srt[:, -1] - srt[:, -2]).min())
    thr = c['conf_threshold'] * (np.exp(-c['position_temp'] * t / self.length) / 10 + .9) if c['position_adjusted_threshold'] else c['conf_threshold']
    lo = 0
    for layer in stops:
      start = h
      for l in range(lo, layer): h = self.layer(l, h)
      conf = self.conf(h, start if lo else None); lo = layer
      if layer >= n: break
      if c['oracle_tok_consistency']:
        lg = self.logits(h); srt = np.sort(lg, -1); margin = min(margin, (srt[:, -1] - srt[:, -2]).min()); done = bool(np.all(lg.argmax(-1) == full.argmax(-1)))
        if done: break
      else:
        if layer < c['min_exit']: continue
        if c['conf_method'] != 'state' or layer > stops[0]: margin = min(margin, abs(conf.min() - thr))
        if conf.min() >= thr: break
    lg = self.logits(h)
    if layer < n:
      g = h
      for l in range(layer, n):
        if c['oracle_cache']: g = self.layer(l, g)
        else: self.key(l, h)
    self.t += 1
    return full if c['oracle_tok_noisy_cache'] else lg, conf, layer, margin


DEFAULTS = dict(conf_threshold=1.0, min_exit=0, first_exit=0, exit_interval=1, oracle_tok_consistency=False, oracle_cache=False, oracle_tok_noisy_cache=False, conf_method='softmax_max', position_adjusted_threshold=False, position_temp=4)


def model(net, cls=None, **kw):
  v = seqio.PassThroughVocabulary(net.vocab, eos_id=1)
  return (cls or models.EncoderDecoderModel)(net, v, v, TL.SGD(), decoder_layers=net.layers, **kw)


def params(net, seed, S, T):
  return net.init(jax.random.PRNGKey(seed), jnp.ones((1, S), jnp.int32), jnp.ones((1, T), jnp.int32), jnp.ones((1, T), jnp.int32))['params']
