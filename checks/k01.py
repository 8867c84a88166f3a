"""K01: early-exit (CALM) decoding uses of each token exactly the layers its confidence asks for."""
import vlib, shards
c = shards.run('K01', 'one case = one prediction (or loss) of an early-exit model with random depth, exits, threshold, confidence measure, oracle options and decoding settings; every step is replayed in float64 from the '
  'emitted tokens; distinct by settings; non-trivial = tokens of one prediction left at different layers', 6, 40, parallel=6, stall=200,
  needs=[('predictions', 60), ('steps-replayed', 300), ('left-early', 80), ('used-all-layers', 60), ('middle-exits', 12), ('cache-matters', 10), ('losses', 8), ('classifier-losses', 4), ('full-depth', 8), ('max-decode-steps', 6), ('prompted', 6), ('several-decodes', 8)])
import t5xshim
import numpy as np, jax, jax.numpy as jnp
import calmlib as C
from t5x import models, decoding
from t5x.contrib.calm import decoding as cdec, models as cmodels
rng = c.rng
def pick(xs): return xs[int(rng.integers(0, len(xs)))]
TOL = 2e-3

def logsm(x):
  x = x - x.max(-1, keepdims=True); return x - np.log(np.exp(x).sum(-1, keepdims=True))

def batch(B, S, T, V, prompt):
  x = rng.integers(1, V, (B, S)).astype(np.int32)
  for r in x: r[int(rng.integers(1, S + 1)):] = 0
  d = np.zeros((B, T), np.int32)
  if prompt:
    for r in d: k = int(rng.integers(0, T - 1)); r[1:1 + k] = rng.integers(2, V, k)
  return dict(encoder_input_tokens=jnp.asarray(x), decoder_input_tokens=jnp.asarray(d))

def config():
  n = int(rng.integers(1, 6)); first = int(rng.integers(0, n)) if rng.random() < .4 else 0
  cfg = dict(C.DEFAULTS, first_exit=first, exit_interval=pick([1, 1, 1, 2, 3]), min_exit=int(rng.integers(0, n + 1)) if rng.random() < .3 else 0, conf_method=pick(['softmax_max', 'softmax_max', 'softmax_diff', 'softmax_diff_approx', 'state', 'meta']),
    conf_threshold=float(np.round(rng.uniform(.15, 1.02), 3)))
  if cfg['conf_method'] == 'state': cfg['conf_threshold'] = float(np.round(rng.uniform(.02, .8), 3))
  o = rng.random()
  if o < .12: cfg['oracle_cache'] = True
  elif o < .2: cfg['oracle_tok_noisy_cache'] = True
  elif o < .28: cfg.update(oracle_tok_consistency=True, conf_method=pick(['softmax_max', 'softmax_diff']))
  if rng.random() < .25: cfg.update(position_adjusted_threshold=True, position_temp=pick([1, 4, 12]))
  return n, cfg

def predict():
  n, cfg = config(); V = 11; T = int(rng.integers(3, 9)); S = int(rng.integers(2, 5))
  nd = pick([1, 1, 2, 3]); B = int(rng.integers(1, 4))
  if cfg['oracle_tok_consistency']: nd = B = 1
  prompt = bool(rng.random() < .3); seed = int(rng.integers(1 << 20))
  net = C.Net(n, 5, V, cfg['conf_method'] == 'meta', float(pick([.6, 1.2, 2.0]))); p = C.params(net, seed, S, T); b = batch(B, S, T, V, prompt)
  dp = dict(rescale_log_probs=bool(rng.random() < .5))
  if nd > 1 or rng.random() < .5: dp.update(temperature=float(pick([.5, 1.0, 2.0])), topk=int(pick([0, 0, 2, 4])))
  else: dp['temperature'] = 0.0
  if rng.random() < .3: dp['max_decode_steps'] = int(rng.integers(1, T + 1))
  if rng.random() < .15: dp['eos_id'] = int(rng.integers(2, V))
  m = C.model(net, apply_early_inference=True, **cfg); key = jax.random.PRNGKey(seed); given = dict(dp)
  det = dict(layers=n, config={k: v for k, v in cfg.items() if v != C.DEFAULTS[k] or k in ('conf_threshold', 'conf_method')}, decoder_params=dp, T=T, B=B, num_decodes=nd, prompt=prompt, seed=seed)
  def run(all_):
    d, a = m.predict_batch_with_aux(p, b, rng=key, decoder_params=dp, return_all_decodes=all_, num_decodes=nd, prompt_with_targets=prompt)
    return [np.asarray(x) for x in (d, a['scores'], a['exits'], a['confidences'])]
  with guard('raised', det): D, sc, ex, cf = run(True); last = run(False)
  if guard.bad: guard.bad = False; return
  c.check(dp == given, 'decoder-params-changed', got=str(dp)[:300], **det)
  for name, g, w in zip(('decodes', 'scores', 'exits', 'confidences'), last, (D, sc, ex, cf)): c.equal(g, w[:, -1], 'best-decode:' + name, **det)
  if not c.check(D.shape == (B, nd, T) and ex.shape == (B, nd, T) and cf.shape == (B, nd, T) and sc.shape == (B, nd), 'shapes', got=[x.shape for x in (D, sc, ex, cf)], **det): return
  c.check(bool(np.all(np.diff(sc, axis=1) >= -1e-6)), 'score-order', got=sc, **det)
  judge(net, p, b, cfg, dp, prompt, nd, T, D, sc, ex, cf, det)

def judge(net, p, b, cfg, dp, prompt, nd, T, D, sc, ex, cf, det):
  B = len(D); R = B * nd; n = net.layers; seq = D.reshape(R, T); ex = ex.reshape(R, T); cf = cf.reshape(R, T); sc = sc.reshape(R); eos = dp.get('eos_id', 1)
  inp = np.repeat(np.asarray(b['encoder_input_tokens']), nd, 0); pr = np.zeros((R, T + 1), int)
  if prompt:
    q = np.asarray(b['decoder_input_tokens']); pr[:, :T] = np.repeat(q * (q != 1), nd, 0)
  # A prompt that holds the end symbol of this call is not ended by it.
  base = (pr == eos).sum(1)
  limit = np.full(R, T) if 'max_decode_steps' not in dp else np.minimum(T, (pr[:, :T] != 0).sum(1) + dp['max_decode_steps'])
  end = np.zeros(R, int)
  for r in range(R):
    seen = 0
    for j in range(T):
      seen = (pr[r] == eos)[j + 2:].sum() + (seq[r, :j + 1] == eos).sum() + (pr[r, 0] == eos)
      if seen > base[r] or j >= limit[r] - 1: break
    end[r] = j
  steps = int(end.max()) + 1; c.event('max-decode-steps', 'max_decode_steps' in dp); c.event('prompted', prompt); c.event('several-decodes', nd > 1); c.event('predictions'); c.event('conf-' + cfg['conf_method'])
  rep = C.Replay(p, net, inp, T, cfg); noprop = C.Replay(p, net, inp, T, dict(cfg, oracle_cache=not cfg['oracle_cache'])); tok = np.zeros(R, int); lp = np.zeros(R); layers = set(); judged = True; tempered = dp['temperature'] > 0
  for t in range(steps):
    logits, conf, layer, margin = rep.step(tok); other = noprop.step(tok); c.event('cache-matters', np.abs(other[0] - logits).max() > 1e-2)
    if margin < TOL: c.event('near-threshold'); judged = False; break
    d = dict(det, step=t, threshold_margin=margin)
    on = t <= end
    if not c.check(bool(np.all(ex[on, t] == layer)), 'exit-layer', got=ex[:, t], want=layer, confidence=conf, **d): return
    if not c.check(bool(np.allclose(cf[on, t], conf[on], atol=TOL)), 'confidence', got=cf[:, t], want=conf, **d): return
    layers.add(layer); c.event('steps-replayed'); c.event('left-early', layer < n); c.event('used-all-layers', layer == n and n > 1); c.event('middle-exits', cfg['first_exit'] + 1 < layer < n)
    scaled = logits / dp['temperature'] if tempered else logits; k = dp.get('topk', 1) if tempered else 0
    srt = np.sort(scaled, -1)[:, ::-1]; ok = scaled >= srt[:, k - 1:k] - 1e-6 if k else np.ones_like(scaled, bool)
    lps = logsm(np.where(ok, scaled, -1e7)) if dp['rescale_log_probs'] else logsm(logits)
    for r in range(R):
      w = pr[r, t + 1] if t + 1 <= T else 0
      if t > end[r]: c.check(seq[r, t] == 0, 'after-end', row=r, got=seq[r], **d); continue
      if w: c.check(seq[r, t] == w, 'prompt-not-kept', row=r, got=seq[r], given=pr[r], **d); c.event('prompt-tokens'); continue
      g = int(seq[r, t])
      if not tempered: c.check(logits[r, g] >= logits[r].max() - TOL, 'greedy-token', row=r, got=g, logits=logits[r], **d)
      elif k:
        close = k < len(srt[r]) and srt[r, k - 1] - srt[r, k] < TOL
        if close: judged = False
        c.check(scaled[r, g] >= srt[r, k - 1] - TOL, 'sampled-outside-topk', row=r, got=g, logits=logits[r], **d)
      if tempered or not dp['rescale_log_probs']: lp[r] += lps[r, g]
      c.event('tokens')
    # What an ended row feeds is padding.
    tok = np.where(t <= end, seq[:, t], 0)
  if judged and t == steps - 1:
    c.check(bool(np.allclose(sc, lp, atol=2e-3 * steps)), 'score', got=sc, want=lp, **det); c.event('scores')
    free = np.broadcast_to(np.arange(T)[None] >= steps, (R, T)); free = free & (np.arange(T)[None] != limit[:, None])   # an example that has ended stays at its limit
    c.check(bool(np.all(ex[free] == -1)) and bool(np.all(cf[free] == -1)), 'beyond-end', exits=ex, steps=steps, **det)
  c.case((str(det['config']), n, T, B, nd, det['seed']), len(layers) > 1, det)

class guard:
  bad = False
  def __init__(self, mech, det): self.m, self.d = mech, det
  def __enter__(self): return self
  def __exit__(self, t, e, tb):
    if e is not None and isinstance(e, Exception) and vlib.blame(e) == 'repo': 
      guard.bad = True; c.violation(self.m, error='%s: %s' % (t.__name__, str(e)[:600]), **self.d); return True
    return False

def full_depth():
  """Without a way to leave early, and without early inference, the plain model's answer."""
  n = int(rng.integers(2, 5)); V, S, T, B = 11, 3, int(rng.integers(3, 8)), int(rng.integers(1, 4)); seed = int(rng.integers(1 << 20)); nd = pick([1, 2])
  net = C.Net(n, 5, V); p = C.params(net, seed, S, T); prompt = bool(rng.random() < .3); b = batch(B, S, T, V, prompt); key = jax.random.PRNGKey(seed); all_ = bool(rng.random() < .5)
  dp = dict(temperature=float(pick([0., 1., .7])), topk=int(pick([0, 3])), rescale_log_probs=bool(rng.random() < .5)); det = dict(layers=n, seed=seed, decoder_params=dp, all=all_, num_decodes=nd)
  kw = dict(rng=key, return_all_decodes=all_, num_decodes=nd, prompt_with_targets=prompt)
  ref = C.model(net, apply_early_inference=False, decode_fn=decoding.temperature_sample)
  plain = models.EncoderDecoderModel(net, ref.input_vocabulary, ref.output_vocabulary, ref.optimizer_def, decode_fn=decoding.temperature_sample)
  with guard('full-depth:raised', det):
    w, wa = plain.predict_batch_with_aux(p, b, decoder_params=dict(dp), **kw)
    g, ga = ref.predict_batch_with_aux(p, b, decoder_params=dict(dp), **kw)
    c.equal(np.asarray(g), np.asarray(w), 'full-depth:decodes', **det); c.check(bool(np.allclose(ga['scores'], wa['scores'], atol=1e-3)), 'full-depth:scores', got=np.asarray(ga['scores']), want=np.asarray(wa['scores']), **det)
    for how in (dict(conf_threshold=1.01), dict(min_exit=n, conf_threshold=0.1)):
      m = C.model(net, apply_early_inference=True, exit_interval=int(pick([1, 2])), **how); g, ga = m.predict_batch_with_aux(p, b, decoder_params=dict(dp), **kw)
      c.equal(np.asarray(g), np.asarray(w), 'never-leaves:decodes', how=how, **det); c.check(bool(np.allclose(ga['scores'], wa['scores'], atol=1e-3)), 'never-leaves:scores', got=np.asarray(ga['scores']), want=np.asarray(wa['scores']), how=how, **det)
      c.check(set(np.asarray(ga['exits']).ravel().tolist()) <= {n, -1}, 'never-leaves:exits', got=np.asarray(ga['exits']), how=how, **det)
  guard.bad = False
  c.case(('full', seed), True, det); c.event('full-depth')

def default_decoder():
  net = C.Net(2, 5, 11); p = C.params(net, 1, 3, 4); b = batch(1, 3, 4, 11, False)
  m = C.model(net)
  try: m.predict_batch_with_aux(p, b); c.event('default-decoder')
  except Exception as e:  # pylint: disable=broad-except
    c.violation('default-decoder-without-early-inference', error=str(e)[:300])

def loss():
  """The weighted mean over all layers of the cross entropy of each."""
  n = int(rng.integers(1, 5)); V, S, T, B = 9, 3, int(rng.integers(2, 6)), int(rng.integers(1, 4)); seed = int(rng.integers(1 << 20)); net = C.Net(n, 5, V); p = C.params(net, seed, S, T)
  agg = int(pick([-1, 0, 1, 2, 3])); z = float(pick([0., 1e-2])); ls = float(pick([0., .1])); norm = pick([None, 7.0])
  x = batch(B, S, T, V, True); tgt = rng.integers(1, V, (B, T)).astype(np.int32); w = (rng.random((B, T)) < .8).astype(np.float32); w[0, 0] = 1
  b = dict(x, decoder_target_tokens=jnp.asarray(tgt), decoder_loss_weights=jnp.asarray(w)); det = dict(layers=n, aggregation=agg, z_loss=z, label_smoothing=ls, normalizer=norm, seed=seed)
  m = C.model(net, aggregation_weights=agg, z_loss=z, label_smoothing=ls, loss_normalizing_factor=norm)
  with guard('loss:raised', det): got, met = m.loss_fn(p, b, None)
  if guard.bad: guard.bad = False; return
  lg = np.asarray(net.apply({'params': p}, b['encoder_input_tokens'], b['decoder_input_tokens'], b['decoder_target_tokens']), np.float64); per, acc = [], []
  hi, lo = 1 - ls, ls / (V - 1); const = -(hi * np.log(hi) + (V - 1) * lo * np.log(lo + 1e-20))
  for l in range(n):
    q = logsm(lg[l]); lse = np.log(np.exp(lg[l]).sum(-1)); oh = np.eye(V)[tgt]; ce = -((oh * hi + (1 - oh) * lo) * q).sum(-1) - const + z * lse ** 2
    per.append((ce * w).sum() / (norm or 1.0)); acc.append(((lg[l].argmax(-1) == tgt) * w).sum() / w.sum())
  aw = [2. ** i for i in range(n)] if agg == -1 else [1.] * n if agg == 0 else [1. + agg * i for i in range(n)]
  want = np.average(per, weights=aw)
  c.check(bool(np.allclose(got, want, rtol=1e-4)), 'loss:value', got=float(got), want=want, per_layer=per, weights=aw, **det)
  for i in range(n - 1):
    v = float(met['accuracy_per_layer/layer_%d' % i].compute()); c.check(abs(v - acc[i]) < 1e-5, 'loss:layer-accuracy', got=v, want=acc[i], layer=i, **det)
    mm = met['loss_per_layer/layer_%d' % i]; c.check(bool(np.allclose(mm.total, per[i], rtol=1e-4)), 'loss:layer-loss', got=float(mm.total), want=per[i], layer=i, **det)
  c.check(abs(float(met['accuracy'].compute()) - acc[-1]) < 1e-5, 'loss:accuracy', got=float(met['accuracy'].compute()), want=acc[-1], **det)
  c.case(('loss', seed), n > 1, det); c.event('losses')

def ce(q, tgt, ls, z):
  """Cross entropy of each position, with smoothed labels less their entropy, plus z_loss."""
  V = q.shape[-1]; hi, lo = 1 - ls, ls / (V - 1); const = -(hi * np.log(hi) + (V - 1) * lo * np.log(lo + 1e-20)); m = q.max(-1, keepdims=True); lse = (m + np.log(np.exp(q - m).sum(-1, keepdims=True)))[..., 0]
  oh = np.eye(V)[tgt]; return -((oh * hi + (1 - oh) * lo) * (q - lse[..., None])).sum(-1) - const + z * lse ** 2

def meta_loss():
  """What trains the classifiers that say when to leave: does this layer predict what the last one does?"""
  n = int(rng.integers(2, 6)); V, S, T, B = 9, 3, int(rng.integers(2, 6)), int(rng.integers(1, 4)); seed = int(rng.integers(1 << 20)); net = C.Net(n, 5, V, True, float(pick([.3, 1.0, 2.0]))); p = C.params(net, seed, S, T)
  z = float(pick([0., 1e-2])); ls = float(pick([0., .1])); norm = pick([None, 7.0]); x = batch(B, S, T, V, True); tgt = rng.integers(1, V, (B, T)).astype(np.int32); w = (rng.random((B, T)) < .8).astype(np.float32); w[0, 0] = 1
  b = dict(x, decoder_target_tokens=jnp.asarray(tgt), decoder_loss_weights=jnp.asarray(w)); det = dict(layers=n, z_loss=z, label_smoothing=ls, normalizer=norm, seed=seed)
  m = C.model(net, z_loss=z, label_smoothing=ls, loss_normalizing_factor=norm, conf_method='meta')
  with guard('meta-loss:raised', det): got, met = m.loss_fn_meta_cls(p, b, None); geo, gmet = m.loss_fn_meta_cls_geom_like(p, b, None)
  if guard.bad: guard.bad = False; return
  lg, sc = (np.asarray(v, np.float64) for v in net.apply({'params': p}, b['encoder_input_tokens'], b['decoder_input_tokens'], b['decoder_target_tokens']))
  srt = np.sort(lg, -1)
  if (srt[..., -1] - srt[..., -2]).min() < 1e-4: return
  agree = (lg.argmax(-1) == lg[-1].argmax(-1)).astype(int); per = []
  for l in range(n - 1):
    yes, no = (agree[l] * w).sum(), ((1 - agree[l]) * w).sum(); bal = w * np.where(agree[l] == 1, no, yes) / (yes + no)   # both answers weigh the same
    per.append((ce(sc[l], agree[l], ls, z) * bal).sum() / (norm or 1.0)); c.event('both-answers', yes > 0 and no > 0)
    c.check(bool(np.allclose(met['meta_loss/layer_%d' % l].total, per[l], rtol=1e-3, atol=1e-5)), 'meta-loss:layer', got=float(met['meta_loss/layer_%d' % l].total), want=per[l], layer=l, **det)
    acc = ((sc[l].argmax(-1) == agree[l]) * w).sum() / w.sum(); v = [float(q['meta_accuracy/layer_%d' % l].compute()) for q in (met, gmet)]; c.check(max(abs(u - acc) for u in v) < 1e-5, 'meta-loss:accuracy', got=v, want=acc, layer=l, **det)
  c.check(bool(np.allclose(got, np.mean(per), rtol=1e-3, atol=1e-5)), 'meta-loss:value', got=float(got), want=float(np.mean(per)), per_layer=per, **det)
  # One decision after the other: stay, ..., stay, leave at the first layer that agrees.
  q = logsm(sc); score = np.stack([q[:l, ..., 0].sum(0) + q[l, ..., 1] for l in range(n)], -1); first = agree.argmax(0); want = (ce(score, first, ls, z) * w).sum() / (norm or 1.0)
  c.check(bool(np.allclose(geo, want, rtol=1e-3, atol=1e-5)), 'meta-loss:geometric', got=float(geo), want=float(want), **det)
  acc = ((score.argmax(-1) == first) * w).sum() / w.sum(); v = float(gmet['meta_accuracy/multiclass'].compute()); c.check(abs(v - acc) < 1e-5, 'meta-loss:geometric-accuracy', got=v, want=acc, **det)
  c.case(('meta', seed), True, det); c.event('classifier-losses')

default_decoder()
for i in range(16 if c.tier == 'quick' else 24):
  if c.out_of_time(.85): break
  predict(); c.beat()
  if i % 5 == 0: full_depth(); c.beat()
  if i % 4 == 0: loss(); c.beat()
  if i % 4 == 2: meta_loss(); c.beat()
c.finish()
