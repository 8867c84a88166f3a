import vlib, t5xshim
import functools, inspect
import numpy as np, jax, jax.numpy as jnp, seqio
from flax import linen as nn
import netlib as nl
from netlib import V, EOS, shift, ragged
from declib import log_softmax
from t5x import models, decoding, losses
c = vlib.Check('N03', rule='model wrappers around an instrumented module (logits = sum of per-feature tables) and an instrumented decode function; '
  'numpy oracles of prediction layout, scores, loss and metrics; distinct by configuration and batch; non-trivial = batch has real targets')
rng = c.rng
K = 64

class Fake(nn.Module):
  """logits are a sum of table rows picked by every feature it is given."""
  ed: bool = True
  scan_layers: bool = False

  def setup(self):
    self.tab = self.param('tab', nn.initializers.normal(1.0), (8, K, V))

  def _logits(self, feats, enable_dropout):
    y = 0
    for i, f in enumerate(feats):
      if f is not None:
        y = y + self.tab[i][jnp.asarray(f).astype(jnp.int32) % K]
    if enable_dropout:
      y = y + jax.random.normal(self.make_rng('dropout'), (V,))
    self.sow('intermediates', 'seen', y)
    return y

  @staticmethod
  def summary(x):
    return None if x is None else jnp.broadcast_to((x * (1 + jnp.arange(x.shape[1]))).sum(1, keepdims=True), x.shape)

class FakeED(Fake):
  def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=None, decoder_segment_ids=None,
               encoder_positions=None, decoder_positions=None, *, enable_dropout=True, decode=False):
    s = lambda x: None if x is None else jnp.broadcast_to((jnp.asarray(x) * (1 + jnp.arange(x.shape[1]))).sum(1, keepdims=True), decoder_input_tokens.shape)
    return self._logits([decoder_input_tokens, decoder_target_tokens, s(encoder_input_tokens), decoder_segment_ids, decoder_positions,
                         s(encoder_segment_ids), s(encoder_positions)], enable_dropout)

class FakeDO(Fake):
  def __call__(self, decoder_input_tokens, decoder_target_tokens, decoder_segment_ids=None, decoder_positions=None,
               decoder_causal_attention=None, *, enable_dropout=True, decode=False, max_decode_length=None, prefill=None, prefill_lengths=None):
    return self._logits([decoder_input_tokens, decoder_target_tokens, None, decoder_segment_ids, decoder_positions, decoder_causal_attention], enable_dropout)

def fake_ref(tab, batch, ed, bidi):
  s = lambda k: None if k not in batch else np.broadcast_to((batch[k] * (1 + np.arange(batch[k].shape[1]))).sum(1, keepdims=True), batch['decoder_input_tokens'].shape)
  g = batch.get
  if ed: f = [g('decoder_input_tokens'), g('decoder_target_tokens'), s('encoder_input_tokens'), g('decoder_segment_ids'), g('decoder_positions'), s('encoder_segment_ids'), s('encoder_positions')]
  else: f = [g('decoder_input_tokens'), g('decoder_target_tokens'), None, g('decoder_segment_ids'), g('decoder_positions'), g('decoder_causal_attention') if bidi else None]
  y = 0
  for i, x in enumerate(f):
    if x is not None: y = y + tab[i][np.asarray(x) % K]
  return np.asarray(y, np.float64)

def segs(B, L, fill=True):
  seg = np.zeros((B, L), np.int32); pos = seg.copy()
  for b in range(B):
    at, s = 0, int(rng.integers(1, 3))
    while at < L and rng.random() < .85:
      n = int(min(rng.integers(1, 4), L - at)); seg[b, at:at + n] = s; pos[b, at:at + n] = np.arange(n); at += n; s += int(rng.integers(1, 3))
  return seg, pos

def make_batch(ed, packed, weights, extra_only_dec=False):
  B, Le, L = [(1, 4, 3), (4, 5, 7), (3, 1, 5)][int(rng.integers(0, 3))] if c.tier == "quick" else (int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(2, 8)))
  b = {}
  if packed:
    ds, dp = segs(B, L); tgt = np.where(ds > 0, rng.integers(2, V, (B, L)), 0).astype(np.int32)
    b.update(decoder_segment_ids=ds, decoder_positions=dp)
    if ed:
      es, ep = segs(B, Le); b.update(encoder_segment_ids=es, encoder_positions=ep)
      b['encoder_input_tokens'] = np.where(es > 0, rng.integers(2, V, (B, Le)), 0).astype(np.int32)
  else:
    tgt, _ = ragged(rng, B, L, 0)
    if ed: b['encoder_input_tokens'], _ = ragged(rng, B, Le, 0)
  b['decoder_target_tokens'] = tgt; b['decoder_input_tokens'] = shift(tgt)
  if not ed: b['decoder_causal_attention'] = (np.arange(L)[None] < rng.integers(0, L, B)[:, None]).astype(np.int32)
  if weights is not None:
    w = (tgt > 0).astype(np.float32)
    if weights == 'sub': w = w * (rng.random(w.shape) < .7)
    if weights == 'int': w = w.astype(np.int32)
    b['decoder_loss_weights'] = w
  return b

LNFS = [None, 7.5, 'NUM_REAL_TARGET_TOKENS', 'NUM_TOTAL_TARGET_TOKENS', 'AVERAGE_PER_SEQUENCE', losses.SpecialLossNormalizingFactor.NUM_REAL_TARGET_TOKENS, 3]

def build(ed, i, decode_fn=None, scanned=False, **kw):
  mod = (FakeED if ed else FakeDO)(scan_layers=scanned)
  if ed: return mod, models.EncoderDecoderModel(mod, nl.vocab, nl.vocab, None, **({'decode_fn': decode_fn} if decode_fn else {}), **kw)
  return mod, models.DecoderOnlyModel(mod, nl.vocab, None, inputs_bidirectional_attention=bool(i % 2), **({'decode_fn': decode_fn} if decode_fn else {}), **kw)

def loss_ref(lg, batch, ls, z, lnf):
  tgt = batch['decoder_target_tokens']; B, L = tgt.shape
  w = batch.get('decoder_loss_weights'); w = None if w is None else np.asarray(w, np.float64)
  name = lnf.name if isinstance(lnf, losses.SpecialLossNormalizingFactor) else lnf
  if isinstance(name, str):
    if w is None: w = (tgt > 0).astype(np.float64)
    if name == 'NUM_REAL_TARGET_TOKENS': d = w.sum()
    elif name == 'NUM_TOTAL_TARGET_TOKENS': d = B * L
    else:
      nw = np.zeros_like(w)
      seg = batch.get('decoder_segment_ids', np.ones((B, L), int))
      for b in range(B):
        for s in np.unique(seg[b]):
          sel = seg[b] == s
          if s and w[b][sel].sum(): nw[b][sel] = w[b][sel] / w[b][sel].sum()
      w = nw; d = w.sum()
  else: d = 1.0 if lnf is None else lnf
  conf, low = 1 - ls, ls / (V - 1)
  lse = lg.max(-1) + np.log(np.exp(lg - lg.max(-1, keepdims=True)).sum(-1))
  oh = np.full(lg.shape, low); np.put_along_axis(oh, tgt[..., None], conf, -1)
  ce = (oh * (lse[..., None] - lg)).sum(-1) + (conf * np.log(conf) + (V - 1) * low * np.log(low + 1e-20))
  ww = np.ones((B, L)) if w is None else w
  return (((ce + z * lse ** 2) * ww).sum() / d, (z * lse ** 2 * ww).sum() / d, w, d)

def loss():
  for i in range(c.n(60, 500)):
    ed = bool(i % 2); lnf = LNFS[i % len(LNFS)]; packed = bool((i // 2) % 2); ls = [0.0, 0.1][(i // 3) % 2]; z = [0.0, 1e-2][(i // 5) % 2]
    batch = make_batch(ed, packed, [None, 'full', 'sub', 'int'][int(rng.integers(0, 4))])
    if isinstance(lnf, (str, losses.SpecialLossNormalizingFactor)) and not batch.get('decoder_loss_weights', batch['decoder_target_tokens']).any(): continue
    mod, m = build(ed, i // 2, label_smoothing=ls, z_loss=z, loss_normalizing_factor=lnf)
    tab = rng.standard_normal((8, K, V)).astype(np.float32); p = {'tab': jnp.asarray(tab)}
    jb = {k: jnp.asarray(v) for k, v in batch.items()}
    val, met = m.eval_fn(p, jb) if i % 3 else m.loss_fn(p, jb, None)
    lg = fake_ref(tab, batch, ed, bool((i // 2) % 2))
    tot, zt, w, d = loss_ref(lg, batch, ls, z, lnf)
    det = dict(ed=ed, packed=packed, lnf=str(lnf), ls=ls, z=z, batch=batch)
    tol = dict(rtol=5e-4, atol=5e-4)
    c.close(val, tot, 'loss:value', **tol, **det)
    tgt = batch['decoder_target_tokens']; n = tgt.size
    ww = np.ones(tgt.shape) if w is None else w
    real = ww.sum()
    on = ww > 0  # accuracy is counted over positions, the mask is boolean
    acc = ((lg.argmax(-1) == tgt) * on).sum() / on.sum() if real else np.nan
    want = {'loss': tot, 'accuracy': acc, 'loss_per_all_target_tokens': tot / n, 'loss_per_nonpadding_target_token': tot / real if real else np.nan,
            'z_loss': zt, 'z_loss_per_all_target_tokens': zt / n, 'cross_ent_loss': tot - zt, 'cross_ent_loss_per_all_target_tokens': (tot - zt) / n,
            'non_padding_fraction/loss_weights': real / n, 'timing/seqs': tgt.shape[0]}
    if packed: sg = {k[:-12]: v for k, v in batch.items() if k.endswith('_segment_ids')}
    else: sg = {k: (batch[k] != 0).astype(int) for k in ('encoder_input_tokens', 'decoder_target_tokens') if k in batch}
    tt = nt = 0
    for k, v in sg.items():
      ne = sum(len(set(r[r > 0])) for r in v) if packed else int((v.any(1)).sum())
      want['effective_batch_size/' + k] = ne; want['non_padding_fraction/' + k] = (v > 0).mean(); tt += v.size; nt += (v > 0).sum()
    want['non_padding_fraction/overall'] = nt / tt
    for k, x in want.items():
      if not c.check(k in met, 'metrics:missing', name=k, **det): continue
      if x is np.nan or (isinstance(x, float) and np.isnan(x)): continue
      c.close(met[k].compute(), x, 'metrics:' + (k if '/' not in k else k.split('/')[0]), rtol=1e-3, atol=1e-3, name=k, **det)
      c.event('metric_values')
    for k, num in (('timing/seqs_per_second', tgt.shape[0]), ('timing/seqs_per_second_per_core', tgt.shape[0] / jax.device_count()),
                   ('timing/target_tokens_per_second', n), ('timing/target_tokens_per_second_per_core', n / jax.device_count())):
      if c.check(k in met, 'metrics:missing', name=k): c.close(met[k].replace_duration(2.0).compute(), num / 2.0, 'metrics:rate', name=k, **det)
    # dropout only when a key is given
    if i % 5 == 0:
      k1, k2 = jax.random.PRNGKey(1), jax.random.PRNGKey(2)
      a, b2, a2 = (float(m.loss_fn(p, jb, k)[0]) for k in (k1, k2, k1))
      c.check(a == a2, 'loss:dropout-not-deterministic', **det)
      if real: c.check(a != b2 and a != float(val), 'loss:dropout-key-unused', **det)
      c.event('dropout')
    # gradient flows: loss_fn is differentiable and matches finite difference in one direction
    if i % 7 == 0 and real:
      g = jax.grad(lambda q: m.loss_fn(q, jb, None)[0])(p)['tab']
      u = rng.standard_normal(tab.shape).astype(np.float64); e = 1e-4
      up = loss_ref(fake_ref(tab + e * u, batch, ed, bool((i // 2) % 2)), batch, ls, z, lnf)[0]
      dn = loss_ref(fake_ref(tab - e * u, batch, ed, bool((i // 2) % 2)), batch, ls, z, lnf)[0]
      c.close((np.asarray(g, np.float64) * u).sum(), (up - dn) / (2 * e), 'loss:gradient', rtol=5e-3, atol=5e-3 * max(1, abs(tot)), **det); c.event('gradients')
    c.event('losses'); c.case(('loss', str(lnf), tgt.tobytes(), ls, z), bool(tgt.any()), dict(loss=tot, lnf=str(lnf), packed=packed, targets=tgt))

def score():
  for i in range(c.n(30, 300)):
    ed = bool(i % 2); batch = make_batch(ed, bool((i // 2) % 2), ['full', 'sub', 'int', 'sub'][i % 4])
    mod, m = build(ed, i // 2, label_smoothing=0.3, z_loss=0.2, loss_normalizing_factor='NUM_REAL_TARGET_TOKENS')
    tab = rng.standard_normal((8, K, V)).astype(np.float32); p = {'tab': jnp.asarray(tab)}
    if i % 3 == 0: batch['decoder_loss_weights'] = (batch['decoder_loss_weights'] * rng.choice([1, .5, 2], batch['decoder_loss_weights'].shape)).astype(np.float32)
    lg = fake_ref(tab, batch, ed, bool((i // 2) % 2)); tgt, w = batch['decoder_target_tokens'], batch['decoder_loss_weights']
    tok = np.take_along_axis(log_softmax(lg), tgt[..., None], -1)[..., 0] * w
    s = m.score_batch(p, batch); s2, inter = m.score_batch(p, batch, return_intermediates=True)
    det = dict(ed=ed, batch=batch)
    c.close(s, tok.sum(1), 'score:value', rtol=1e-3, atol=1e-3, **det); c.close(s2, tok.sum(1), 'score:value-with-intermediates', rtol=1e-3, atol=1e-3, **det)
    d = inter['decoder']
    c.close(d['token_scores'][0], tok, 'score:token-scores', rtol=1e-3, atol=1e-3, **det)
    c.equal(d['target_tokens'][0], tgt, 'score:intermediate-targets', **det); c.equal(d['loss_weights'][0], w, 'score:intermediate-weights', **det)
    c.check('seen' in inter, 'score:sown-intermediates-lost', got=list(inter), **det)
    c.event('scores', len(s)); c.case(('score', tgt.tobytes(), np.asarray(w).tobytes()), bool(np.asarray(w).any()), dict(score=s, targets=tgt, weights=w))

class Spy:
  """decode function that records what it is given and returns fixed decodes."""
  def __init__(self, with_index):
    self.calls = []
    if with_index:
      def fn(inputs, cache, tokens_to_logits, eos_id, num_decodes, decode_rng=None, cache_offset=0, initial_index=None, decodes=None, scores=None, extra=None):
        return self.go(locals())
    else:
      def fn(inputs, cache, tokens_to_logits, eos_id, num_decodes, decode_rng=None, cache_offset=0, decodes=None, scores=None, extra=None):
        return self.go(locals())
    self.fn = fn
  def go(self, kw):
    kw = {k: v for k, v in kw.items() if k not in ('self', 'fn')}
    self.calls.append(kw)
    return kw['decodes'], kw['scores']

def predict():
  for i in range(c.n(48, 240)):
    ed = bool(i % 2); kind = (['t5', 'scalable', 'toy', 'gpu', 'toy'][(i // 2) % 5] if ed else 'decoder_only')
    scanned = kind == 'scalable'
    cfg = dict(layers=1) if kind != 'toy' else {}
    mod = MODS.setdefault(kind, nl.module(kind, **cfg)); p = PAR.setdefault(kind, nl.init(mod, kind, 3))
    with_index = bool((i // 6) % 2) or not ed
    spy = Spy(with_index); k = int(rng.integers(1, 4)); B, L, Le = 2, 6, 3
    default = models.DecoderParams(return_all_decodes=bool(i % 3 == 0), num_decodes=k) if ed and i % 5 < 2 else None
    if ed: m = models.EncoderDecoderModel(mod, nl.vocab, seqio.PassThroughVocabulary(size=V, eos_id=3), None, decode_fn=spy.fn, default_decoder_params=default)
    else: m = models.DecoderOnlyModel(mod, nl.vocab, None, decode_fn=spy.fn, inputs_bidirectional_attention=bool((i // 2) % 2))
    eos = 3 if ed else EOS
    prompted = bool(rng.integers(0, 2)); all_ = bool(rng.integers(0, 2)); use_rng = int(rng.integers(0, 3)); own_eos = bool(rng.integers(0, 3) == 0)
    dec = rng.integers(1, V, (B, k, L)).astype(np.int32); sc = np.sort(rng.standard_normal((B, k)).astype(np.float32), 1)
    key = jax.random.PRNGKey(i)
    dp = dict(decodes=jnp.asarray(dec), scores=jnp.asarray(sc), extra=i)
    if own_eos: dp['eos_id'] = 5
    if use_rng == 2: dp['decode_rng'] = key
    batch = {}
    if ed:
      batch['encoder_input_tokens'], _ = ragged(rng, B, Le)
      tg, tl = ragged(rng, B, L, 1); 
      for b in range(B):
        if prompted and rng.random() < .6: tg[b, tl[b] - 1] = eos
      batch['decoder_target_tokens'], batch['decoder_input_tokens'] = tg, shift(tg)
      kw = dict(prompt_with_targets=prompted)
      if default is None or i % 10 < 5: kw.update(return_all_decodes=all_, num_decodes=k)
      else: all_ = default.return_all_decodes
    else:
      tg, _ = ragged(rng, B, L, 2); pl = rng.integers(1, L - 1, B)
      prm, _ = ragged(rng, B, L, lens=pl)
      for b in range(B):
        if rng.random() < .5: prm[b, pl[b] - 1] = EOS  # inputs usually end in EOS
      full = np.where(np.arange(L)[None] < pl[:, None], prm, tg)
      batch = dict(decoder_target_tokens=full, decoder_input_tokens=shift(full), decoder_causal_attention=(np.arange(L)[None] <= pl[:, None]).astype(np.int32))
      kw = dict(return_all_decodes=all_, num_decodes=k)
    if use_rng == 1: kw['rng'] = key
    saved = {a: np.array(v) for a, v in batch.items()}
    keys = set(dp)
    ok, r = c.attempt('predict', m.predict_batch_with_aux, p, {a: jnp.asarray(v) for a, v in batch.items()}, decoder_params=dp, **kw)
    if not ok: continue
    c.check(set(dp) == keys, 'predict:decoder-params-modified', added=sorted(set(dp) - keys), kind=kind)
    if i % 2:  # the same dictionary serves the next batch
      ok, r = c.attempt('predict-again', m.predict_batch_with_aux, p, {a: jnp.asarray(v) for a, v in batch.items()}, decoder_params=dp, **kw)
      if not ok: continue
      c.event('decoder_params_reused')
    out, aux = r; call = spy.calls[-1]
    det = dict(kind=kind, prompted=prompted, all_decodes=all_, k=k, with_index=with_index, batch=saved)
    c.event('predictions')
    c.check(call['num_decodes'] == k, 'predict:num-decodes', got=call['num_decodes'], **det)
    c.check(int(call['eos_id']) == (5 if own_eos else eos), 'predict:eos-id', got=call['eos_id'], **det)
    c.check(call['cache_offset'] == (1 if scanned else 0), 'predict:cache-offset', got=call['cache_offset'], **det)
    c.check(call['extra'] == i, 'predict:decoder-params-lost', **det)
    if use_rng: c.equal(call['decode_rng'], np.asarray(key), 'predict:rng', **det)
    else: c.check(call['decode_rng'] is None, 'predict:rng', **det)
    if ed:
      d = batch['decoder_input_tokens']; want = d * (d != eos) if prompted else np.zeros_like(d)
      c.equal(call['inputs'], want, 'predict:prompt', **det)
      pf = with_index and kind == 'toy'
      if pf: c.equal(call['initial_index'], (want != 0).sum(1), 'predict:initial-index', **det)
      elif with_index: c.check(call['initial_index'] is None, 'predict:initial-index', **det)
      wd = dec
    else:
      d = batch['decoder_input_tokens'] * batch['decoder_causal_attention']
      c.equal(call['inputs'], d, 'predict:prompt', **det); c.equal(call['initial_index'], pl, 'predict:initial-index', **det)
      wd = np.zeros_like(dec)
      for b in range(B): wd[b, :, :L - pl[b]] = dec[b, :, pl[b]:]
    c.equal(out, wd if all_ else wd[:, -1], 'predict:decodes', **det)
    c.check(set(aux) == {'scores'}, 'predict:aux-keys', got=list(aux), **det)
    c.equal(aux['scores'], sc if all_ else sc[:, -1], 'predict:scores', **det)
    if i % 4 == 0:
      kw2 = dict(decoder_params=dict(dp, decode_rng=key), rng=key)
      try: m.predict_batch_with_aux(p, batch, **dict(kw, **kw2)); c.violation('predict:two-rngs-accepted', **det)
      except ValueError: c.event('rejected')
    if ed and default is not None and not default.return_all_decodes and not (i % 10 < 5):
      pass
    c.case((kind, i, dec.tobytes()), True, dict(kind=kind, prompt=call['inputs'], decodes=dec, returned=out, scores=aux['scores']))
  # predict_batch is the first element of predict_batch_with_aux, without optional arguments
  for ed in (True, False):
    kind = 't5' if ed else 'decoder_only'; mod = MODS.setdefault(kind, nl.module(kind, layers=1)); p = PAR.setdefault(kind, nl.init(mod, kind, 3))
    dec = rng.integers(2, V, (2, 1, 5)).astype(np.int32)
    def fn(inputs, cache, tokens_to_logits, eos_id, num_decodes, decode_rng=None, cache_offset=0, initial_index=None):
      seen.append((num_decodes, decode_rng)); return jnp.asarray(dec), jnp.zeros((2, 1))
    seen = []
    if ed: m = models.EncoderDecoderModel(mod, nl.vocab, nl.vocab, None, decode_fn=fn)
    else: m = models.DecoderOnlyModel(mod, nl.vocab, None, decode_fn=fn)
    tg, _ = ragged(rng, 2, 5, 2); b = dict(decoder_target_tokens=tg, decoder_input_tokens=shift(tg))
    if ed: b['encoder_input_tokens'] = tg
    else: b['decoder_causal_attention'] = (np.arange(5)[None] <= np.array([[1], [2]])).astype(np.int32)
    out = m.predict_batch(p, b, rng=jax.random.PRNGKey(5))
    w = dec[:, -1] if ed else np.stack([np.r_[dec[0, 0, 1:], 0], np.r_[dec[1, 0, 2:], 0, 0]])
    c.equal(out, w, 'predict_batch:decodes', ed=ed); c.check(seen[-1][0] == 1, 'predict_batch:num-decodes'); c.equal(seen[-1][1], jax.random.PRNGKey(5), 'predict_batch:rng')
    if not ed:
      del b['decoder_causal_attention']
      try: m.predict_batch(p, b); c.violation('predict:missing-feature-accepted')
      except ValueError: c.event('rejected')

def helpers():
  for _ in range(c.n(60, 600)):
    L, B = [(1, 2), (6, 3), (8, 1)][int(rng.integers(0, 3))] if c.tier == "quick" else (int(rng.integers(1, 9)), int(rng.integers(1, 4))); pl = rng.integers(0, L + 1, B)
    s = rng.integers(0, V, (B, L)).astype(np.int32) if rng.random() < .5 else rng.integers(0, V, (B, 3, L)).astype(np.int32)
    w = np.zeros_like(s)
    for b in range(B): w[b, ..., :L - pl[b]] = s[b, ..., pl[b]:]
    c.equal(models.remove_prefix(jnp.asarray(s), jnp.asarray(pl)), w, 'remove_prefix', sequence=s, prefix=pl)
    seg, _ = segs(B, L)
    c.equal(models.count_packed_examples(jnp.asarray(seg)), sum(len(set(r[r > 0])) for r in seg), 'count_packed_examples', segments=seg)
    lg = rng.standard_normal((B, L, 5)).astype(np.float32); t = rng.integers(0, 5, (B, L)); ww = (rng.integers(0, 2, (B, L)) * rng.choice([1, .5, 2], (B, L))).astype(np.float32)
    c.close(models.compute_weighted_accuracy(jnp.asarray(lg), jnp.asarray(t), jnp.asarray(ww)), ((lg.argmax(-1) == t) * ww).sum(), 'compute_weighted_accuracy')
    c.event('helpers'); c.case(('helper', s.tobytes(), seg.tobytes()), bool(seg.any()), None)

def initial():
  for kind in ('t5', 'scalable', 'gpu', 'decoder_only'):
    mod = nl.module(kind, layers=1); ed = kind != 'decoder_only'
    m = models.EncoderDecoderModel(mod, nl.vocab, nl.vocab, None) if ed else models.DecoderOnlyModel(mod, nl.vocab, None)
    shapes = dict(decoder_input_tokens=(2, 5), decoder_target_tokens=(2, 5))
    if ed: shapes['encoder_input_tokens'] = (2, 3)
    types = {k: jnp.int32 for k in shapes}
    vs = jax.jit(lambda r: m.get_initial_variables(r, shapes, types))(jax.random.PRNGKey(3))
    a = [jnp.ones(shapes[k], jnp.int32) for k in (('encoder_input_tokens',) if ed else ()) + ('decoder_input_tokens', 'decoder_target_tokens')]
    want = jax.jit(lambda r: mod.init(r, *a, enable_dropout=False))(jax.random.PRNGKey(3))
    g, w = jax.tree_util.tree_leaves_with_path(dict(vs)), jax.tree_util.tree_leaves_with_path(dict(want))
    c.check([str(x[0]) for x in g] == [str(x[0]) for x in w], 'initial-variables:names', kind=kind, got=len(g), want=len(w))
    for (pa, x), (_, y) in zip(g, w): c.close(x, y, 'initial-variables:values', kind=kind, path=str(pa)) if hasattr(x, 'shape') else None
    c.event('initial_variables', len(g)); c.case(('init', kind), True, None)

MODS, PAR = {}, {}
for n, f in (('loss', loss), ('score', score), ('predict', predict), ('helpers', helpers), ('initial', initial)): c.section(n, f)
for e, n in (('losses', 40), ('metric_values', 300), ('scores', 30), ('predictions', 40), ('helpers', 50), ('dropout', 5), ('gradients', 3), ('initial_variables', 20)): c.need(e, n)
c.finish()
