import vlib, t5xshim
import functools
import numpy as np, jax, jax.numpy as jnp
import netlib as nl
from netlib import V, shift, ragged
c = vlib.Check('N01', rule='random parameters/tokens/lengths/packings per shipped network; each case perturbs tokens and compares '
  'every unaffected position; distinct by network, configuration, monitor and tokens; non-trivial = the perturbation changed some output that may see it')
rng = c.rng
TOL = dict(rtol=2e-5, atol=2e-5)
DIFF = 1e-7

def perturb(tok, mask):
  """Different non-zero tokens wherever mask is set."""
  alt = (tok - 2 + rng.integers(1, V - 2, tok.shape)) % (V - 2) + 2
  return np.where(mask, alt, tok).astype(np.int32)

def live(a, b, mech, **d):
  """Allowed influence must exist (a mask that hides too much)."""
  c.event('influence-checks')
  return c.check(float(np.abs(np.asarray(a, np.float64) - np.asarray(b, np.float64)).max()) > DIFF, mech, **d)

def encdec(kind, cfg, dropout, seed):
  mod = nl.module(kind, dropout=0.3 if dropout else 0.0, **cfg)
  tag = '%s:%s' % (kind, 'dropout' if dropout else ','.join('%s=%s' % kv for kv in sorted(cfg.items())))
  apply = jax.jit(lambda p, key, *a, **k: mod.apply({'params': p}, *a, **k, enable_dropout=dropout, decode=False,
                                                 rngs={'dropout': key} if dropout else None))
  Le, Ld, B = int(rng.integers(6, 9)), int(rng.integers(6, 9)), 4
  for rep in range(c.n(3, 25)):
    p = nl.init(mod, kind, seed * 1000 + rep); key = jax.random.PRNGKey(rep)
    run = lambda e, t, d=None, **k: np.asarray(apply(p, key, e, shift(t) if d is None else d, t, **k), np.float32)
    for _ in range(c.n(2, 6)):
      enc, el = ragged(rng, B, Le, 1); tgt, tl = ragged(rng, B, Ld, 2)
      enc[0], el[0] = ragged(rng, 1, Le, lens=[Le])[0], Le
      base = run(enc, tgt)
      c.check(bool(np.isfinite(base).all()), 'not-finite', net=tag)
      d0 = shift(tgt)
      # causality: replace decoder inputs from j on
      j = rng.integers(1, tl)  # per row, >=1 (position 0 holds BOS)
      m = (np.arange(Ld)[None] >= j[:, None]) & (d0 > 0)
      alt = run(enc, tgt, perturb(d0, m))
      before = np.arange(Ld)[None] < j[:, None]
      c.close(alt[before], base[before], 'causality', **TOL, net=tag, tgt=tgt, j=j)
      for b in range(B):
        live(alt[b, j[b]], base[b, j[b]], 'over-masking:decoder-self', net=tag)
      # every earlier position stays visible: perturb only one early position
      k = int(rng.integers(1, min(tl)))
      onep = (np.arange(Ld)[None] == k) & (d0 > 0)
      alt1 = run(enc, tgt, perturb(d0, onep))
      c.close(alt1[:, :k], base[:, :k], 'causality', **TOL, net=tag)
      for b in range(B):
        for i in range(k, tl[b]):
          live(alt1[b, i], base[b, i], 'over-masking:decoder-history', net=tag, k=k, i=i)
      # target tokens themselves never enter the logits
      alt = run(enc, perturb(tgt, tgt > 0), d0)
      c.close(alt, base, 'target-leak', **TOL, net=tag)
      # rows are independent
      r = int(rng.integers(B)); e2, t2 = enc.copy(), tgt.copy()
      e2[r] = perturb(e2[r], e2[r] > 0); t2[r] = perturb(t2[r], t2[r] > 0)
      alt = run(e2, t2); o = np.arange(B) != r
      c.close(alt[o], base[o], 'row-leak', **TOL, net=tag)
      live(alt[r], base[r], 'over-masking:row', net=tag)
      # every real encoder token is visible to every decoder position
      i = int(rng.integers(0, min(el))); em = np.arange(Le)[None] == i
      alt = run(perturb(enc, em & (enc > 0)), tgt)
      for b in range(B):
        for q in range(tl[b]):
          live(alt[b, q], base[b, q], 'over-masking:cross', net=tag)
      last = np.arange(Le)[None] == (el - 1)[:, None]
      alt = run(perturb(enc, last), tgt)
      for b in range(B):
        live(alt[b, 0], base[b, 0], 'over-masking:cross', net=tag)
      if not dropout:
        # padding amount must not matter
        pe, pd = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        e2 = np.pad(enc, ((0, 0), (0, pe))); t2 = np.pad(tgt, ((0, 0), (0, pd)))
        real = tgt > 0
        pad_run = run(np.pad(enc, ((0, 0), (0, 3))), np.pad(tgt, ((0, 0), (0, 2))))[:, :Ld]
        c.close(pad_run[real], base[real], 'padding-leak', **TOL, net=tag)
        # packed segments
        c.event('packed')
        packed(run, tag, True)
      c.event('perturbations', 6)
      c.case((tag, enc.tobytes(), tgt.tobytes()), True, dict(net=tag, enc=enc[1], tgt=tgt[1], from_position=j[1]))

def packed(run, tag, cross, prefix=False):
  """Two or three examples in one row versus each of them alone."""
  n = int(rng.integers(2, 4)); Le, Ld = 12, 12
  ex = []
  for _ in range(n):
    el, dl = int(rng.integers(1, 5)), int(rng.integers(2, 5))
    ex.append((rng.integers(2, V, el), rng.integers(2, V, dl), int(rng.integers(1, dl + 1))))
  E = np.zeros((2, Le), np.int32); T = np.zeros((2, Ld), np.int32); D = T.copy(); ES, TS, EP, TP, CA = E.copy(), T.copy(), E.copy(), T.copy(), T.copy()
  ids = list(range(1, n + 1))
  ep = tp = 0
  spans = []
  for s, (a, t, pre) in zip(ids, ex):
    sl, tlc = slice(ep, ep + len(a)), slice(tp, tp + len(t))
    E[:, sl] = a; ES[:, sl] = s; EP[:, sl] = np.arange(len(a))
    T[:, tlc] = t; D[:, tlc] = np.concatenate([[0], t[:-1]]); TS[:, tlc] = s; TP[:, tlc] = np.arange(len(t))
    CA[:, tp:tp + pre] = 1
    spans.append(tlc); ep += len(a); tp += len(t)
  # row 1: perturb one segment only
  s = int(rng.integers(1, n + 1))
  E[1] = perturb(E[1], ES[1] == s); T[1] = perturb(T[1], TS[1] == s)
  D[1] = perturb(D[1], (TS[1] == s) & (D[1] > 0))
  kw = dict(decoder_segment_ids=TS, decoder_positions=TP)
  if cross:
    out = run(E, T, D, encoder_segment_ids=ES, encoder_positions=EP, **kw)
  else:
    if prefix:
      kw['decoder_causal_attention'] = CA
    out = run(T, D, **kw)
  others = (TS[0] != s) & (TS[0] > 0)
  c.close(out[1][others], out[0][others], 'segment-leak', **TOL, net=tag, segments=TS[0], changed=s)
  e2 = np.zeros((2, Le), np.int32); t2 = np.zeros((2, Ld), np.int32); ca2 = t2.copy()
  for i, ((a, t, pre), sp) in enumerate(zip(ex, spans)):
    if i % 2 == 0:
      e2[:], t2[:], ca2[:] = 0, 0, 0
    r = i % 2
    e2[r, :len(a)] = a; t2[r, :len(t)] = t; ca2[r, :pre] = 1
    if r == 1 or i == n - 1:
      alone = run(e2, t2) if cross else run(t2, **(dict(decoder_causal_attention=ca2) if prefix else {}))
      for q in range(r + 1):
        k = i - r + q
        L = len(ex[k][1])
        c.close(out[0][spans[k]], alone[q][:L], 'packed-vs-alone', **TOL, net=tag, segment=k, n=n)
        c.event('segments-compared')

def deconly(cfg, dropout, seed):
  kind = 'decoder_only'
  mod = nl.module(kind, dropout=0.3 if dropout else 0.0, **cfg)
  tag = '%s:%s' % (kind, 'dropout' if dropout else ','.join('%s=%s' % kv for kv in sorted(cfg.items())))
  apply = jax.jit(lambda p, key, d, t, **k: mod.apply({'params': p}, d, t, **k, enable_dropout=dropout, decode=False,
                                                 rngs={'dropout': key} if dropout else None))
  L, B = int(rng.integers(6, 10)), 4
  for rep in range(c.n(3, 25)):
    p = nl.init(mod, kind, seed * 1000 + rep); key = jax.random.PRNGKey(rep)
    run = lambda t, d=None, **k: np.asarray(apply(p, key, shift(t) if d is None else d, t, **k), np.float32)
    for _ in range(c.n(2, 6)):
      tgt, tl = ragged(rng, B, L, 3); d0 = shift(tgt)
      for prefix in (False, True):
        pl = rng.integers(1, tl)           # prefix length incl. BOS position
        ca = (np.arange(L)[None] < pl[:, None]).astype(np.int32)
        kw = dict(decoder_causal_attention=ca) if prefix else {}
        base = run(tgt, d0, **kw)
        j = np.array([rng.integers(pl[b] if prefix else 1, tl[b]) for b in range(B)]); j = np.maximum(j, 1)
        m = (np.arange(L)[None] >= j[:, None]) & (d0 > 0)
        alt = run(tgt, perturb(d0, m), **kw)
        before = np.arange(L)[None] < j[:, None]
        c.close(alt[before], base[before], 'causality' if not prefix else 'prefix-target-leak', **TOL, net=tag, j=j, prefix=pl)
        for b in range(B):
          live(alt[b, j[b]], base[b, j[b]], 'over-masking:decoder-self', net=tag)
        k = int(rng.integers(1, min(tl)))
        one = (np.arange(L)[None] == k) & (d0 > 0)
        alt = run(tgt, perturb(d0, one), **kw)
        for b in range(B):
          for i in range(tl[b]):
            sees = i >= k or (prefix and k < pl[b] and i < pl[b])
            if sees:
              live(alt[b, i], base[b, i], 'over-masking:prefix' if i < k else 'over-masking:history', net=tag, k=k, i=i, prefix=pl[b])
              if i < k: c.event('bidirectional-influences')
            else:
              c.close(alt[b, i], base[b, i], 'causality' if not prefix else 'prefix-target-leak', **TOL, net=tag, k=k, i=i, prefix=pl[b])
        c.close(run(perturb(tgt, tgt > 0), d0, **kw), base, 'target-leak', **TOL, net=tag)
        r = int(rng.integers(B)); t2 = tgt.copy(); t2[r] = perturb(t2[r], t2[r] > 0)
        alt = run(t2, **kw); o = np.arange(B) != r
        c.close(alt[o], base[o], 'row-leak', **TOL, net=tag)
        if not dropout:
          kp = {a: np.pad(v, ((0, 0), (0, 3))) for a, v in kw.items()}
          pr = run(np.pad(tgt, ((0, 0), (0, 3))), **kp)[:, :L]
          c.close(pr[tgt > 0], base[tgt > 0], 'padding-leak', **TOL, net=tag)
          packed(run, tag, False, prefix)
          c.event('packed')
        c.event('perturbations', 4)
        c.case((tag, prefix, tgt.tobytes()), True, dict(net=tag, prefix=prefix, tgt=tgt[1]))

CFGS = [dict(), dict(via_emb=True, acts=('gelu', 'linear'))]
s = 0
for kind in ('t5', 'scalable', 'scalable_unrolled', 'gpu'):
  for cfg in CFGS if (kind != 'scalable_unrolled' or c.tier == 'thorough') else CFGS[1:]:
    s += 1; c.section(kind, encdec, kind, cfg, False, c.seed * 50 + s)
c.section('scalable', encdec, 'scalable', dict(param_scan_axis=0, remat_policy='minimal'), False, c.seed * 50 + 11)
c.section('gpu', encdec, 'gpu', dict(scale_attn_logits=True, float32_attention_logits=True), False, c.seed * 50 + 12)
for cfg in CFGS:
  s += 1; c.section('decoder_only', deconly, cfg, False, c.seed * 50 + s)
c.section('dropout', encdec, 't5', {}, True, 20 + c.seed)
c.section('dropout', deconly, {}, True, 30 + c.seed)
if c.tier == 'thorough':
  for k in ('scalable', 'gpu'): c.section('dropout', encdec, k, {}, True, 40 + c.seed)
for e, n in (('perturbations', 100), ('packed', 10), ('segments-compared', 20), ('influence-checks', 200), ('bidirectional-influences', 5)):
  c.need(e, n)
c.finish()
