"""Workload and oracle for temperature sampling (D01, D02, D04)."""
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from t5x import decoding
import declib

EOS = 1
NEG = -1e7


def make_prompts(rng, b, l, v, mode):
  x = np.zeros((b, l), np.int32)
  for i in range(b):
    if mode == 'none':
      p = 0
    elif mode == 'full' and i == 0:
      p = l - 1
    else:
      p = rng.integers(0, l)
    toks = rng.integers(2, v, size=p)
    if p and rng.random() < 0.3:
      toks[rng.integers(0, p)] = EOS  # an EOS that ends an input segment
    x[i, 1:1 + p] = toks
  return x


def admissible(logits, temp, topk, topp):
  """Returns (must-allow set, may-allow set, log-probs used for scoring)."""
  lg = np.asarray(logits, np.float64)
  v = lg.shape[-1]
  if temp <= 1e-4:
    m = lg.max()
    ok = lg >= m
    return ok, np.zeros(v), declib.log_softmax(lg)
  s = np.float32(logits) / np.float32(max(temp, 1e-4))
  s = s.astype(np.float64)
  ok = np.ones(v, bool)
  strict = None
  if topk:
    kth = np.sort(s)[::-1][min(topk, v) - 1]
    ok = s >= kth
    strict = ok
  elif topp:
    p = np.exp(declib.log_softmax(s))
    order = np.argsort(-s)
    cum = np.cumsum(p[order])
    # smallest prefix whose mass is at least topp
    n_lo = int(np.searchsorted(cum, topp - 2e-5)) + 1
    n_hi = int(np.searchsorted(cum, topp + 2e-5)) + 1
    ok = np.zeros(v, bool)
    ok[order[:min(n_hi, v)]] = True
    strict = np.zeros(v, bool)
    strict[order[:min(n_lo, v)]] = True
  masked = np.where(ok, s, NEG)
  resc = declib.log_softmax(masked)
  amb = strict is not None and not np.array_equal(strict, ok)
  return ok, (None if amb else resc), declib.log_softmax(lg)


CONFIGS = []


def configs(c):
  """Static configurations; data varies within each."""
  rng = c.rng
  base = [
      # b, l, v, nd, topk, topp, offset, prefill, mds, hard, temp, resc, cb, dyn
      dict(nd=1, topk=1),
      dict(nd=3, topk=0),
      dict(nd=2, topk=3, temp='vec'),
      dict(nd=4, topp=0.7),
      dict(nd=2, topp=0.35, temp=0.5),
      dict(nd=1, topk=4, mds=3),
      dict(nd=3, topk=0, mds=2, resc=False),
      dict(nd=2, topk=2, prefill=True),
      dict(nd=3, topk=0, prefill=True, offset=1),
      dict(nd=2, topp=0.6, prefill=True, mds=3, resc=False),
      dict(nd=4, topk=5, temp=0.0),
      dict(nd=2, topk=0, temp='vec0', resc=False),
      dict(nd=2, topk=3, cb=True),
      dict(nd=2, topp=0.8, cb=True, temp=1.7),
      dict(nd=2, topk=0, mds=5, hard=2),
      dict(nd=1, topk=2, mds='dyn', hard=3),
      dict(nd=2, topk='dyn', temp=0.8),
      dict(nd=2, topp='dyn', temp='vec', resc=False),
      dict(nd=3, topk=2, offset=1, temp=2.0),
      dict(nd=1, topk=0, prefill=True, mds=2),
      dict(nd=2, topk=1, resc=False, prefill=True),
      dict(nd=1, topp=0.9, mds=1),
      dict(nd=2, topk=0, mds=2, hard=0, eos=2),
      dict(nd=1, topk=50, temp=0.7, eos=3),
  ]
  extra = []
  for _ in range(c.n(0, 40)):
    d = dict(nd=int(rng.integers(1, 5)), offset=int(rng.integers(0, 2)),
             prefill=bool(rng.integers(0, 2)), resc=bool(rng.integers(0, 2)),
             cb=bool(rng.integers(0, 2)))
    k = rng.integers(0, 3)
    d['topk'] = int(rng.integers(1, 7)) if k == 0 else 0
    d['topp'] = float(np.round(rng.uniform(.1, .99), 3)) if k == 1 else 0.0
    d['temp'] = [1.0, 0.3, 2.5, 'vec', 'vec0', 0.0][rng.integers(0, 6)]
    d['mds'] = [None, 1, 2, 4, 'dyn'][rng.integers(0, 5)]
    d['hard'] = [None, 0, 2, 3][rng.integers(0, 4)]
    extra.append(d)
  for d in base + extra:
    f = dict(nd=1, topk=0, topp=0.0, offset=0, prefill=False, mds=None,
             hard=None, temp=1.0, resc=True, cb=False, eos=EOS)
    f.update(d)
    yield f


def run_config(c, cfg, n_data, oracle):
  """oracle(c, cfg, data, out, events) -> None."""
  rng = c.rng
  b = int(rng.integers(2, 6))
  l = int(rng.integers(5, 9))
  v = int(rng.integers(6, 12))
  eos = cfg['eos']
  toy = declib.Toy(v, l + 2, cfg['offset'])

  def cb(logits, state):
    ban = (jnp.broadcast_to(state.cur_index, (logits.shape[0],)) % 3) + 2
    return jnp.where(jnp.arange(v)[None, :] == ban[:, None], -1e6, logits)

  def f(inputs, cache, table, key, temp, init, mds, topk, topp):
    kw = {}
    if cfg['prefill']:
      kw['initial_index'] = init
    if cfg['mds'] == 'dyn':
      kw['max_decode_steps'] = mds
    elif cfg['mds'] is not None:
      kw['max_decode_steps'] = cfg['mds']
    if cfg['hard'] is not None:
      kw['max_decode_steps_hard_limit'] = cfg['hard']
    if cfg['cb']:
      kw['logit_callback_fn'] = cb
    return decoding.temperature_sample(
        inputs, cache, toy.tokens_to_logits(table), eos, decode_rng=key,
        num_decodes=cfg['nd'], temperature=temp,
        topk=topk if cfg['topk'] == 'dyn' else cfg['topk'],
        topp=topp if cfg['topp'] == 'dyn' else cfg['topp'],
        cache_offset=cfg['offset'], rescale_log_probs=cfg['resc'], **kw)

  jf = jax.jit(f)
  for d in range(n_data):
    mode = ['none', 'mixed', 'full'][d % 3]
    inputs = make_prompts(rng, b, l, v, mode)
    if eos != EOS:
      inputs = np.where(inputs == EOS, 4, inputs)
    table = toy.table(rng, scale=[1.0, 2.0, 4.0][rng.integers(0, 3)])
    if rng.random() < 0.5:
      table[:, 0] -= 3  # padding rarely sampled
    if rng.random() < 0.3:
      table[:, eos] += 1.5
    if cfg['prefill']:
      plen = (inputs != 0).sum(1)
      init = plen.astype(np.int32)  # index of the last prompt token
      cache = toy.init_cache(b, inputs, init)
    else:
      init = np.zeros(b, np.int32)
      cache = toy.init_cache(b)
    temp = cfg['temp']
    if temp == 'vec':
      temp = rng.uniform(0.3, 2.0, size=b).astype(np.float32)
    elif temp == 'vec0':
      temp = rng.uniform(0.3, 2.0, size=b).astype(np.float32)
      temp[rng.integers(0, b)] = 0.0
    mds = int(rng.integers(1, 5))
    topk = int(rng.integers(0, 5)) if cfg['topk'] == 'dyn' else cfg['topk']
    topp = (float(np.float32(rng.uniform(0.2, 0.95)))
            if cfg['topp'] == 'dyn' else cfg['topp'])
    key = jax.random.PRNGKey(int(rng.integers(0, 2**31 - 1)))
    toy.events.clear()
    ok, out = c.attempt('temperature_sample', lambda: [np.asarray(x) for x in jax.block_until_ready(
        jf(jnp.asarray(inputs), cache, jnp.asarray(table), key,
           jnp.asarray(temp, jnp.float32), jnp.asarray(init),
           jnp.asarray(mds, jnp.int32),
           jnp.asarray(topk if topk != 'dyn' else 0, jnp.int32),
           jnp.asarray(topp, jnp.float32)))])
    jax.effects_barrier()
    if not ok:
      return
    steps = mds if cfg['mds'] == 'dyn' else cfg['mds']
    if steps is not None and cfg['hard']:
      steps = min(steps, cfg['hard'])
    data = dict(inputs=inputs, table=table, temp=np.broadcast_to(
        np.asarray(temp, np.float32), (b,)), topk=topk, topp=topp, steps=steps,
                init=init, toy=toy, b=b, l=l, v=v, eos=eos, mode=mode)
    oracle(c, cfg, data, out, [list(e) for e in toy.events])


def replay(data, cfg, b, seq):
  """Walks one returned sequence through the numpy model.

  Yields (position, prompt?, ended?, token, logits used for selection).
  """
  toy, table = data['toy'], data['table']
  inp = data['inputs'][b]
  p = int((inp != 0).sum())
  ml = data['l'] if data['steps'] is None else min(data['l'], p + data['steps'])
  h = int(toy.hash0(b))
  ended = False
  prev = 0
  for j in range(data['l']):  # output position j, consumed index j
    h = int(toy.step_hash(h, prev, j))
    tok = int(seq[j])
    lg = table[h].copy()
    if cfg['cb']:
      lg[(j % 3) + 2] = -1e6
    in_prompt = j + 1 < data['l'] and inp[j + 1] != 0
    yield j, in_prompt, ended, tok, lg
    if not ended and not in_prompt and tok == data['eos']:
      ended = True
    if j + 1 >= ml:
      ended = True
    prev = tok


def describe(data, cfg, b, k, seq, score):
  return dict(config={x: y for x, y in cfg.items()}, inputs=data['inputs'][b],
              row=b, decode=k, sequence=seq, score=float(score),
              temperature=float(data['temp'][b]), topk=data['topk'],
              topp=data['topp'], steps=data['steps'])


def oracle_tokens(c, cfg, data, out, events):
  """D01: support, prompt, padding; model queried with held tokens."""
  seqs, scores = out
  b, l, nd = data['b'], data['l'], cfg['nd']
  if seqs.shape != (b, nd, l):
    c.violation('sample:shape', got=seqs.shape, want=(b, nd, l), config=cfg)
    return
  gen = 0
  for i in range(b):
    for k in range(nd):
      seq = seqs[i, k]
      for j, in_prompt, ended, tok, lg in replay(data, cfg, i, seq):
        if in_prompt and not ended:
          if not c.check(tok == data['inputs'][i][j + 1],
                         'sample:prompt-modified', pos=j,
                         **describe(data, cfg, i, k, seq, scores[i, k])):
            break
        elif ended:
          c.event('padding_tokens')
          if not c.check(tok == 0, 'sample:token-after-end', pos=j,
                         **describe(data, cfg, i, k, seq, scores[i, k])):
            break
        else:
          gen += 1
          c.event('generated_tokens')
          ok = admissible(lg, data['temp'][i], data['topk'], data['topp'])[0]
          if not c.check(0 <= tok < data['v'] and ok[tok],
                         'sample:inadmissible-token', pos=j, logits=lg,
                         **describe(data, cfg, i, k, seq, scores[i, k])):
            break
  # Online monitor: what the model was asked.
  for idx, tok, sq, hist, rid, _, consts in events:
    c.event('model_queries')
    n = b * nd
    if tok.shape != (n,):
      c.violation('sample:query-rows', got=tok.shape, want=n, config=cfg)
      break
    bad = None
    for r in range(n):
      i = r // nd
      q = int(idx[r])
      if q >= l:
        continue  # finished row doing busy work
      pref = [int(t) for t in sq[r][1:q + 1]]
      held = 0 if q == 0 else pref[-1]
      # rows that finished earlier are fed padding
      match = [k for k in range(nd) if list(seqs[i, k][:q]) == pref]
      if int(tok[r]) != held:
        bad = ('sample:queried-with-wrong-token', r)
        break
      if not match:
        bad = ('sample:query-not-prefix-of-result', r)
        break
    if bad:
      c.violation(bad[0], row=bad[1], idx=idx, tok=tok, sequences=sq,
                  returned=seqs, config=cfg)
      break
  c.case(('tok', str(sorted(cfg.items(), key=str)), seqs.tobytes()), gen > 0,
         dict(config=cfg, inputs=data['inputs'], returned=seqs))


def oracle_scores(c, cfg, data, out, events):
  """D02: scores, order, shape."""
  del events
  seqs, scores = out
  b, l, nd = data['b'], data['l'], cfg['nd']
  if seqs.shape != (b, nd, l) or scores.shape != (b, nd):
    c.violation('sample:shape', got=[seqs.shape, scores.shape],
                want=[(b, nd, l), (b, nd)], config=cfg)
    return
  for i in range(b):
    for k in range(nd):
      seq = seqs[i, k]
      want, n, skip = 0.0, 0, False
      for _, in_prompt, ended, tok, lg in replay(data, cfg, i, seq):
        if in_prompt or ended or not 0 <= tok < data['v']:
          continue
        _, resc, plain = admissible(lg, data['temp'][i], data['topk'],
                                    data['topp'])
        lp = resc if cfg['resc'] else plain
        if lp is None:
          skip = True
          break
        want += float(lp[tok])
        n += 1
      if skip:
        continue
      c.event('scores_checked')
      c.check(np.isfinite(scores[i, k]) and
              abs(float(scores[i, k]) - want) <= 1e-3 + 1e-4 * abs(want),
              'sample:score', want=want, generated=n,
              **describe(data, cfg, i, k, seq, scores[i, k]))
    c.check(bool(np.all(np.diff(scores[i]) >= 0)), 'sample:order',
            scores=scores[i], config=cfg)
    # as a check of exact arg-max decoding for greedy settings
  c.case(('sc', str(sorted(cfg.items(), key=str)), scores.tobytes()),
         bool(np.any(scores != 0)),
         dict(config=cfg, scores=scores, returned=seqs))


def oracle_cache(c, cfg, data, out, events):
  """D04 for sampling: each row's cache holds exactly its own history."""
  seqs, _ = out
  b, nd = data['b'], cfg['nd']
  for step, (idx, tok, sq, hist, rid, cindex, consts) in enumerate(events):
    c.event('cache_observations')
    n = b * nd
    okrows = hist.shape[0] == n and rid.shape == (n,)
    if not c.check(okrows, 'sample:cache-rows', got=[hist.shape, rid.shape],
                   want=n, config=cfg):
      return
    c.check(bool(consts), 'sample:non-row-state-changed', config=cfg, step=step)
    c.check(bool(np.all(rid == np.arange(n) // nd)),
            'sample:cache-row-of-other-example', rid=rid, config=cfg, step=step)
    if cfg['prefill']:
      ci = cindex[0] if cfg['offset'] else cindex
      c.check(ci.shape == (n,), 'sample:cache-index-not-expanded',
              got=ci.shape, want=n, config=cfg)
      if ci.shape == (n,):
        want = np.repeat(data['init'], nd) + step
        c.equal(ci, want, 'sample:cache-index', config=cfg, step=step)
    else:
      ci = cindex[0] if cfg['offset'] else cindex
      c.check(ci.shape == () and int(ci) == step, 'sample:cache-index-changed',
              got=cindex, step=step, config=cfg)
    for r in range(n):
      q = int(idx[r])
      if q >= data['l']:
        continue
      want = np.concatenate([[0], sq[r][1:q]])[:q]
      if not c.check(np.array_equal(hist[r, :q], want + 1),
                     'sample:cache-history', row=r, step=step, got=hist[r],
                     want=want, config=cfg):
        return
  c.case(('cache', str(sorted(cfg.items(), key=str)), seqs.tobytes()),
         nd > 1, dict(config=cfg, steps=len(events)))
