import vlib, t5xshim
import numpy as np, functools
import jax, jax.numpy as jnp
from t5x import losses
from declib import log_softmax
c = vlib.Check('L01', rule='random logits/targets/weights/smoothing/z-loss and target batches; '
  'distinct by input bytes; non-trivial = loss is non-zero')
rng = c.rng

def ref(logits, targets, weights, ls, z, lnf):
  lg = np.asarray(logits, np.float64); v = lg.shape[-1]
  conf = 1 - ls
  low = (1 - conf) / (v - 1) if v > 1 else 1 - conf
  norm = -(conf * np.log(conf) + (v - 1) * low * np.log(low + 1e-20))
  oh = np.full(lg.shape, low); np.put_along_axis(oh, targets[..., None], conf, -1)
  m = lg.max(-1, keepdims=True); lse = m[..., 0] + np.log(np.exp(lg - m).sum(-1))
  ce = (oh * (lse[..., None] - lg)).sum(-1)
  zl = z * lse ** 2
  w = np.ones(targets.shape) if weights is None else np.asarray(weights, np.float64)
  tot = (ce + zl - norm) * w; zt = zl * w
  wsum = float(np.prod(targets.shape)) if weights is None else w.sum()
  d = 1.0 if lnf is None else lnf
  sm = np.exp(lg - lse[..., None])
  grad = w[..., None] / d * ((oh.sum(-1)[..., None] + 2 * z * lse[..., None]) * sm - oh)
  scale = np.abs(ce + zl).max() * max(1.0, np.abs(w).sum()) / d
  return tot.sum() / d, zt.sum() / d, wsum, grad, scale

def ce():
  LS, ZS, k_ = (0.0, 0.1, 0.3, 0.7), (0.0, 1e-4, 1e-2, 0.3), int(rng.integers(0, 16))
  shapes = [(2, 3, 7), (1, 1, 2), (4, 5, 33), (3, 2, 1), (1, 8, 129)]
  for sh in shapes:
    for use_w in (0, 1):
      for lnf_on in (0, 1):
       for _rep in range(c.n(2, 6)):
        ls = float(LS[k_ % 4]) if sh[-1] > 1 else 0.0
        z = float(ZS[(k_ // 4 + k_) % 4]); k_ += 1
        def f(lg, tg, w, lnf):
          return losses.compute_weighted_cross_entropy(lg, tg, w if use_w else None, ls, z, lnf if lnf_on else None)
        jf = jax.jit(jax.value_and_grad(lambda *a: (lambda r: (r[0], r))(f(*a)), has_aux=True))
        jn = jax.jit(f)
        for _ in range(c.n(5, 20)):
          scale = rng.choice([0.1, 1, 5, 50, 1000])
          lg = (rng.standard_normal(sh) * scale + rng.choice([0, 0, -40, 70])).astype(np.float32)
          tg = rng.integers(0, sh[-1], sh[:2]).astype(np.int32)
          w = None
          if use_w:
            w = (rng.integers(0, 2, sh[:2]) * rng.choice([1, 1, .5, 2.0], sh[:2])).astype(np.float32)
            if rng.random() < .1: w[:] = 0
          lnf = float(rng.choice([1.0, 7.0, 233472.0, 0.5])) if lnf_on else None
          args = (jnp.asarray(lg), jnp.asarray(tg), jnp.asarray(w if use_w else np.zeros(sh[:2], np.float32)), lnf if lnf_on else 1.0)
          (val, aux), g = jf(*args)
          tot, zt, ws, grad, sc = ref(lg, tg, w, ls, z, lnf)
          det = dict(shape=sh, scale=scale, smoothing=ls, z_loss=z, lnf=lnf, weights=w)
          tol = dict(rtol=2e-4, atol=3e-5 * max(1.0, sc))
          c.close(val, tot, 'loss:value', **tol, **det)
          c.close(aux[1], zt, 'loss:z-part', **tol, **det)
          c.close(aux[2], ws, 'loss:weight-sum', **det)
          gs = max(1e-8, np.abs(grad).max())
          c.close(np.asarray(g) / gs, grad / gs, 'loss:gradient', rtol=2e-3, atol=2e-3, **det)
          c.check(bool(np.all(np.isfinite(np.asarray(g)))) and np.isfinite(float(val)), 'loss:not-finite', **det)
          v2 = jn(*args)
          for a, b, n in zip(v2, (tot, zt, ws), ('value', 'z-part', 'weight-sum')):
            c.close(a, b, 'loss:undifferentiated-' + n, **tol, **det)
          c.event('losses')
          c.case(('ce', lg.tobytes(), tg.tobytes(), ls, z), tot != 0, dict(loss=tot, z=zt, weight_sum=ws, smoothing=ls, z_loss=z))

def soft():
  """cross_entropy_with_logits with arbitrary soft targets and cotangents."""
  for _ in range(c.n(30, 200)):
    sh = (2, 3, int(rng.integers(2, 9)))
    lg = (rng.standard_normal(sh) * rng.choice([1, 10, 100])).astype(np.float32)
    t = rng.random(sh); t = (t / t.sum(-1, keepdims=True)).astype(np.float32)
    z = float(rng.choice([0.0, 1e-3, .1])); u = rng.standard_normal(sh[:2]).astype(np.float32)
    f = lambda l, t: jnp.sum(losses.cross_entropy_with_logits(l, t, z)[0] * u)
    (gl, gt) = jax.grad(f, (0, 1))(jnp.asarray(lg), jnp.asarray(t))
    L = lg.astype(np.float64); ls = log_softmax(L); lse = (L - ls)[..., 0]
    wl = u[..., None] * ((1 + 2 * z * lse[..., None]) * np.exp(ls) - t)
    wt = -u[..., None] * ls
    c.close(gl, wl, 'loss:soft-gradient', rtol=1e-3, atol=1e-3 * max(1, np.abs(wl).max()))
    c.close(gt, wt, 'loss:target-gradient', rtol=1e-3, atol=1e-3 * max(1, np.abs(wt).max()))
    c.event('soft_gradients'); c.case(('soft', lg.tobytes()), True)

def pack(b, l):
  seg = np.zeros((b, l), np.int32); pos = np.zeros((b, l), np.int32)
  for i in range(b):
    at, s = 0, 1
    while at < l and rng.random() < .9:
      n = int(min(rng.integers(1, 5), l - at))
      seg[i, at:at + n] = s; pos[i, at:at + n] = np.arange(n); at += n; s += 1
  return seg, pos

def factors():
  E = losses.SpecialLossNormalizingFactor
  jits = {}
  for _ in range(c.n(300, 2500)):
    b, l = [(1, 1), (2, 6), (3, 11), (4, 7)][rng.integers(0, 4)]
    packed = rng.random() < .5
    if packed: seg, pos = pack(b, l)
    else:
      n = rng.integers(0, l + 1, b); seg = (np.arange(l)[None] < n[:, None]).astype(np.int32); pos = None
    tok = np.where(seg > 0, rng.integers(1, 9, (b, l)), 0).astype(np.int32)
    batch = {'decoder_target_tokens': jnp.asarray(tok)}
    w = (tok > 0).astype(np.float32)
    has_w = rng.random() < .6
    if has_w:
      w = w * (rng.random((b, l)) < .7) * rng.choice([1.0, 1.0, 0.5, 2.0], (b, l)).astype(np.float32)
      w = w.astype(np.float32)
      batch['decoder_loss_weights'] = jnp.asarray(w)
    if packed:
      batch['decoder_segment_ids'] = jnp.asarray(seg); batch['decoder_positions'] = jnp.asarray(pos)
    mode = ['NUM_REAL_TARGET_TOKENS', 'num_total_target_tokens', 'Average_Per_Sequence', None, 3.5, 7][rng.integers(0, 6)]
    arg = mode
    if isinstance(mode, str) and rng.random() < .5: arg = E[mode.upper()]
    if isinstance(mode, str) and packed and mode.upper().startswith('AV'):
      key = arg
      if key not in jits:
        jits[key] = jax.jit(functools.partial(losses.get_loss_normalizing_factor_and_weights, arg))
      lnf, lw = jits[key](batch)
    else:
      lnf, lw = losses.get_loss_normalizing_factor_and_weights(arg, batch)
    det = dict(mode=mode, packed=packed, tokens=tok, weights=w, segments=seg)
    c.event('factor_modes_%s%s' % (mode, '_packed' if packed and isinstance(mode, str) and mode.upper().startswith('AV') else ''))
    if not isinstance(mode, str):
      c.check(lnf == mode, 'factor:constant', got=lnf, **det)
      c.check((lw is None) == (not has_w), 'factor:weights-none', **det)
      if has_w and lw is not None: c.equal(lw, w, 'factor:weights', **det)
    else:
      m = mode.upper()
      if m == 'NUM_REAL_TARGET_TOKENS': wl, wf = w, w.sum()
      elif m == 'NUM_TOTAL_TARGET_TOKENS': wl, wf = w, b * l
      else:
        wl = np.zeros_like(w, np.float64)
        for i in range(b):
          for s in (np.unique(seg[i]) if packed else [None]):
            if s == 0: continue
            sel = seg[i] == s if packed else np.ones(l, bool)
            t = w[i][sel].sum()
            if t > 0: wl[i][sel] = w[i][sel] / t
        wf = wl.sum()
      c.close(lw, wl, 'factor:weights', **det); c.close(lnf, wf, 'factor:value', **det)
      # the resulting loss is the documented average
      v = 6
      lg = rng.standard_normal((b, l, v)).astype(np.float32)
      if wf > 0:
        val = float(losses.compute_weighted_cross_entropy(jnp.asarray(lg), jnp.asarray(tok % v), lw, 0.0, 0.0, lnf)[0])
        ce_ = -np.take_along_axis(log_softmax(lg), (tok % v)[..., None], -1)[..., 0]
        c.close(val, (ce_ * wl).sum() / wf, 'factor:loss', **det)
    c.case(('lnf', str(mode), tok.tobytes(), w.tobytes()), bool(w.any()), dict(mode=str(mode), packed=packed, tokens=tok))
  try:
    losses.convert_special_loss_normalizing_factor_to_enum('nope'); c.violation('factor:unknown-name-accepted')
  except ValueError: pass

for n, f in (('ce', ce), ('soft', soft), ('factors', factors)): c.section(n, f)
c.need('losses', 100); c.need('soft_gradients', 20); c.need('factor_modes_Average_Per_Sequence_packed', 5)
c.finish()
