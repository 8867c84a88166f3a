import vlib, t5xshim
import functools
import numpy as np, jax, jax.numpy as jnp
import netlib as nl
from netlib import V, EOS, shift, ragged
from t5x import models, decoding
c = vlib.Check('N02', rule='random parameters/inputs/prompts per shipped network; (a) every per-position logit of a token-by-token decode through the '
  'model wrapper vs the teacher-forced pass, (b) score of every predicted sequence vs score_batch; distinct by network, configuration and tokens; '
  'non-trivial = at least two generated positions were compared')
rng = c.rng

def forced(prefill):
  """A decode_fn that feeds prescribed sequences and returns all logits."""
  def run(inputs, cache, tokens_to_logits, num_decodes, cache_offset, initial_index, seq):
    B, L = inputs.shape; k = num_decodes
    cache = decoding.cache_map(functools.partial(decoding.flat_batch_beam_expand, beam_size=k, offset=cache_offset), cache,
                               apply_to_index=initial_index is not None)
    start = jnp.zeros((B,), jnp.int32) if initial_index is None else initial_index
    start = jnp.repeat(start, k); rows = jnp.arange(B * k); flat = seq.reshape(B * k, L)
    def step(carry, i):
      cache, out = carry
      idx = start + i; ok = idx < L; ix = jnp.minimum(idx, L - 1)
      tok = flat[rows, ix][:, None]
      lg, cache = tokens_to_logits(decoding.DecodingState(cur_index=idx, sequences=flat, cur_token=tok, cache=cache))
      out = out.at[rows, ix].set(jnp.where(ok[:, None], lg, out[rows, ix]))
      return (cache, out), None
    out = jnp.full((B * k, L, V), jnp.nan, jnp.float32)
    (cache, out), _ = jax.lax.scan(step, (cache, out), jnp.arange(L))
    return seq, out.reshape(B, k, L, V)
  if prefill:
    def fn(inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset=0, decode_rng=None, initial_index=None, seq=None):
      return run(inputs, cache, tokens_to_logits, num_decodes, cache_offset, initial_index, seq)
  else:
    def fn(inputs, cache, tokens_to_logits, eos_id, num_decodes, cache_offset=0, decode_rng=None, seq=None):
      return run(inputs, cache, tokens_to_logits, num_decodes, cache_offset, None, seq)
  return fn

def encdec_forced(kind, cfg, prefill, k, seed):
  mod = nl.module(kind, **cfg); tag = '%s:%s:prefill=%s:k=%d' % (kind, cfg, prefill, k)
  m = models.EncoderDecoderModel(mod, nl.vocab, nl.vocab, None, decode_fn=forced(prefill))
  B, Le, L = 3, int(rng.integers(3, 7)), int(rng.integers(5, 9))
  pred = jax.jit(lambda p, b, seq: m.predict_batch_with_aux(p, b, decoder_params={'seq': seq}, return_all_decodes=True,
                                                           num_decodes=k, prompt_with_targets=True)[1]['scores'])
  teach = jax.jit(lambda p, e, d, t: mod.apply({'params': p}, e, d, t, enable_dropout=False))
  for rep in range(c.n(4, 40)):
    p = nl.init(mod, kind, seed * 1000 + rep)
    enc, _ = ragged(rng, B, Le); tgt = rng.integers(2, V, (B, k, L)).astype(np.int32)
    pl = rng.integers(0, L - 1, B); pl[0] = 0 if rep % 2 else pl[0]
    prompt = np.zeros((B, L), np.int32)
    for b in range(B):
      tgt[b, :, :pl[b]] = tgt[b, 0, :pl[b]]
      prompt[b, :pl[b]] = tgt[b, 0, :pl[b]]
    seq = np.zeros_like(tgt); seq[:, :, 1:] = tgt[:, :, :-1]
    dit = shift(prompt)
    got = np.asarray(pred(p, dict(encoder_input_tokens=enc, decoder_input_tokens=dit, decoder_target_tokens=prompt), seq))
    c.event('forced-decodes')
    pf = prefill and kind == 'toy'
    for j in range(k):
      want = np.asarray(teach(p, enc, seq[:, j], tgt[:, j]))
      for b in range(B):
        s = pl[b] if pf else 0
        ok = c.close(got[b, j, s:], want[b, s:], 'decode-vs-teacher:' + ('prefill' if pf else 'stepwise'), rtol=2e-3, atol=2e-3, net=tag, prompt_len=pl[b], row=b, decode=j)
        c.event('positions-compared', L - int(s))
        if pf: c.event('prefilled-rows', int(pl[b] > 0))
        if not ok: return
    c.case((tag, tgt.tobytes(), enc.tobytes()), L - max(pl) > 1, dict(net=tag, enc=enc[0], sequence=tgt[0, 0], prompt_len=int(pl[0])))

def deconly_forced(cfg, bidi, k, seed):
  kind = 'decoder_only'; mod = nl.module(kind, **cfg); tag = '%s:%s:bidirectional=%s:k=%d' % (kind, cfg, bidi, k)
  m = models.DecoderOnlyModel(mod, nl.vocab, None, decode_fn=forced(True), inputs_bidirectional_attention=bidi)
  B, L = 3, int(rng.integers(6, 10))
  pred = jax.jit(lambda p, b, seq: m.predict_batch_with_aux(p, b, decoder_params={'seq': seq}, return_all_decodes=True, num_decodes=k)[1]['scores'])
  teach = jax.jit(lambda p, d, t, ca: mod.apply({'params': p}, d, t, decoder_causal_attention=ca if bidi else None, enable_dropout=False))
  for rep in range(c.n(4, 40)):
    p = nl.init(mod, kind, seed * 1000 + rep)
    tgt = rng.integers(2, V, (B, k, L)).astype(np.int32); pl = rng.integers(1, L - 1, B)
    for b in range(B):
      if rep % 2 and b: tgt[b, 0, pl[b] - 1] = EOS  # inputs usually end in EOS
      tgt[b, :, :pl[b]] = tgt[b, 0, :pl[b]]
    seq = np.zeros_like(tgt); seq[:, :, 1:] = tgt[:, :, :-1]
    ca = (np.arange(L)[None] <= pl[:, None]).astype(np.int32)
    # the batch holds some other continuation: prediction must ignore it
    other, ol = ragged(rng, B, L); full = np.where(np.arange(L)[None] < pl[:, None], tgt[:, 0], other)
    got = np.asarray(pred(p, dict(decoder_input_tokens=shift(full), decoder_target_tokens=full, decoder_causal_attention=ca), seq))
    c.event('forced-decodes')
    for j in range(k):
      want = np.asarray(teach(p, seq[:, j], tgt[:, j], ca))
      for b in range(B):
        ok = c.close(got[b, j, pl[b]:], want[b, pl[b]:], 'decode-vs-teacher:prefix-lm' if bidi else 'decode-vs-teacher:prefill', rtol=2e-3, atol=2e-3, net=tag, prompt_len=pl[b], row=b, decode=j)
        c.event('positions-compared', L - int(pl[b])); c.event('prefilled-rows')
        if not ok: return
    c.case((tag, tgt.tobytes()), True, dict(net=tag, sequence=tgt[0, 0], prompt_len=int(pl[0])))

DEC = {
  'greedy': (functools.partial(decoding.temperature_sample, temperature=0.0, rescale_log_probs=False), 1),
  'greedy3': (functools.partial(decoding.temperature_sample, temperature=0.0, topk=0, rescale_log_probs=False), 3),
  'sample': (functools.partial(decoding.temperature_sample, temperature=0.8, topk=0, rescale_log_probs=False), 4),
  'beam': (functools.partial(decoding.beam_search, alpha=0.0), 3),
  'beam-alpha': (functools.partial(decoding.beam_search, alpha=0.6), 2),
}

def compare_scores(tag, name, seqs, scores, prompt_len, score_fn, dec_only, params, prompts, enc, ca):
  """seqs [B,k,L] as returned; scores [B,k]."""
  B, k, L = seqs.shape
  c.check(bool(np.all(np.diff(scores, axis=1) >= 0)), 'predict:order', net=tag, scores=scores)
  alpha = 0.6 if name == 'beam-alpha' else 0.0
  for j in range(k):
    tgt = np.zeros((B, L), np.int32); w = np.zeros((B, L), np.float32); fin = [None] * B; skip = [False] * B
    for b in range(B):
      if scores[b, j] < -1e6:  # an empty beam slot
        skip[b] = True; continue
      s = list(map(int, seqs[b, j])); pl = int(prompt_len[b])
      full = (list(map(int, prompts[b, :pl])) + s)[:L] if dec_only else s
      if not dec_only and pl:
        c.equal(full[:pl], prompts[b, :pl], 'predict:prompt-not-kept', net=tag, decoded=full, prompt=prompts[b])
      e = [i for i in range(pl, L) if full[i] == EOS]
      if e: full = full[:e[0] + 1] + [0] * (L - e[0] - 1); fin[b] = e[0]
      gen = full[pl:(fin[b] + 1) if e else L]
      skip[b] = 0 in gen or len(gen) < 1
      tgt[b] = full; w[b, pl:pl + len(gen)] = 1
    batch = dict(decoder_input_tokens=shift(tgt), decoder_target_tokens=tgt, decoder_loss_weights=w)
    if dec_only: batch['decoder_causal_attention'] = ca
    else: batch['encoder_input_tokens'] = enc
    want = np.asarray(score_fn(params, batch))
    for b in range(B):
      if skip[b]:
        c.event('rows-with-sampled-padding'); continue
      ws = want[b]
      if name.startswith('beam') and fin[b] is not None:
        ws = ws / ((5 + fin[b] + 1) / 6.0) ** alpha
      c.close(scores[b, j], ws, 'predict-score-vs-score-batch', rtol=2e-3, atol=5e-3, net=tag, decode_fn=name, row=b, sequence=tgt[b], prompt_len=prompt_len[b])
      c.event('scores-compared'); c.event('scores-compared:' + name)
      c.case((tag, name, b, j, tgt[b].tobytes()), w[b].sum() > 1, dict(net=tag, decode_fn=name, sequence=tgt[b], score=scores[b, j], score_batch=ws))

def encdec_e2e(kind, cfg, name, prompted, seed):
  fn, k = DEC[name]; mod = nl.module(kind, **cfg); tag = '%s:%s:prompt=%s' % (kind, cfg, prompted)
  m = models.EncoderDecoderModel(mod, nl.vocab, nl.vocab, None, decode_fn=fn)
  B, Le, L = 3, 5, 8
  pred = jax.jit(lambda p, b, key: m.predict_batch_with_aux(p, b, rng=key, return_all_decodes=True, num_decodes=k, prompt_with_targets=prompted))
  top = jax.jit(lambda p, b, key: m.predict_batch_with_aux(p, b, rng=key, num_decodes=k, prompt_with_targets=prompted)) if c.tier == 'thorough' else None
  score = jax.jit(m.score_batch)
  for rep in range(c.n(4, 30)):
    p = nl.init(mod, kind, seed * 1000 + rep); enc, _ = ragged(rng, B, Le)
    pl = rng.integers(0, 4, B) if prompted else np.zeros(B, int)
    prompt, _ = ragged(rng, B, L, lens=pl)
    batch = dict(encoder_input_tokens=enc, decoder_input_tokens=shift(prompt), decoder_target_tokens=prompt)
    seqs, aux = jax.tree_util.tree_map(np.asarray, pred(p, batch, jax.random.PRNGKey(rep)))
    compare_scores(tag, name, seqs, aux['scores'], pl, score, False, p, prompt, enc, None)
    if top:
      s1, a1 = top(p, batch, jax.random.PRNGKey(rep))
      c.equal(s1, seqs[:, -1], 'predict:best', net=tag); c.equal(a1['scores'], aux['scores'][:, -1], 'predict:best', net=tag)

def deconly_e2e(cfg, bidi, name, seed):
  fn, k = DEC[name]; mod = nl.module('decoder_only', **cfg); tag = 'decoder_only:%s:bidirectional=%s' % (cfg, bidi)
  m = models.DecoderOnlyModel(mod, nl.vocab, None, decode_fn=fn, inputs_bidirectional_attention=bidi)
  B, L = 3, 9
  pred = jax.jit(lambda p, b, key: m.predict_batch_with_aux(p, b, rng=key, return_all_decodes=True, num_decodes=k))
  score = jax.jit(m.score_batch)
  for rep in range(c.n(4, 30)):
    p = nl.init(mod, 'decoder_only', seed * 1000 + rep)
    pl = rng.integers(1, 5, B); prompt, _ = ragged(rng, B, L, lens=pl)
    ca = (np.arange(L)[None] <= pl[:, None]).astype(np.int32)
    other, _ = ragged(rng, B, L); full = np.where(np.arange(L)[None] < pl[:, None], prompt, other)
    batch = dict(decoder_input_tokens=shift(full), decoder_target_tokens=full, decoder_causal_attention=ca)
    seqs, aux = jax.tree_util.tree_map(np.asarray, pred(p, batch, jax.random.PRNGKey(rep)))
    compare_scores(tag, name, seqs, aux['scores'], pl, score, True, p, prompt, None, ca)

s = c.seed * 100
A, Bc = dict(), dict(via_emb=True, acts=('gelu', 'linear'))
T = c.tier == 'thorough'
for kind in ('t5', 'scalable', 'gpu') + (('scalable_unrolled',) if T else ()):
  for i, (prefill, k) in enumerate(((True, 1), (False, 2), (True, 3)) if T else ((True, 2), (False, 1))):
    if kind == 'gpu' and prefill and not T: continue
    s += 1; c.section('forced:' + kind, encdec_forced, kind, (A, Bc)[(i + c.seed) % 2], prefill, k, s)
if not T: c.section('forced:scalable_unrolled', encdec_forced, 'scalable_unrolled', A, True, 2, s + 50)
for bidi in (False, True):
  for k in (1, 3) if T else (2,):
    s += 1; c.section('forced:decoder_only', deconly_forced, (A, Bc)[(k + bidi) % 2], bidi, k, s)
names = list(DEC)
plan = []
for i, kind in enumerate(('t5', 'scalable', 'gpu', 'scalable_unrolled')):
  for j, name in enumerate(names):
    for prompted in (False, True):
      if T or (kind == 't5' and prompted == ((j + c.seed) % 2 == 0)) or (kind == 'scalable' and name in ('sample', 'beam') and prompted == (name == 'sample')) \
         or (kind == 'gpu' and name in ('beam-alpha',) and not prompted):
        plan.append((kind, name, prompted))
for kind, name, prompted in plan:
  s += 1; c.section('e2e:' + kind, encdec_e2e, kind, A if T else (A, Bc)[s % 2], name, prompted, s)
  if c.out_of_time(): break
for pe in (False, True):
  for prefill, k in ((True, 1), (True, 1 if pe else 3), (False, 2)):
    s += 1; c.section('forced:toy', encdec_forced, 'toy', dict(pos_emb=pe), prefill, k, s)
for i, name in enumerate(names):
  for prompted in (False, True):
    if T or prompted or i == c.seed % 5: s += 1; c.section('e2e:toy', encdec_e2e, 'toy', {}, name, prompted, s)
for j, name in enumerate(names):
  for bidi in (False, True):
    if T or bidi == ((j + c.seed) % 2 == 0):
      s += 1; c.section('e2e:decoder_only', deconly_e2e, (A, Bc)[s % 2], bidi, name, s)
for e, n in (('forced-decodes', 10), ('positions-compared', 300), ('prefilled-rows', 10), ('scores-compared', 50)):
  c.need(e, n)
c.finish()
