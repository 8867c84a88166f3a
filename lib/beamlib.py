"""Workload and reference model for beam search (D03, D04)."""
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from t5x import decoding
import declib

EOS = 1
NEG = -1e7
GAP = 2e-4


class Ambiguous(Exception):
  pass


def bp(alpha, n):
  return ((5.0 + n) / 6.0) ** alpha


def pick(items, k, key):
  """Top k by key (descending); ambiguous when the cut or order is a near tie."""
  items = sorted(items, key=lambda x: -key(x))
  for a, b in zip(items[:k + 1], items[1:k + 1]):
    if abs(key(a) - key(b)) < GAP:
      raise Ambiguous()
  return items[:k]


def reference(logit_fn, inputs, k, alpha, maxlen, max_step, min_lp, init):
  """Plain beam search.  logit_fn(b, tokens consumed) -> logits.

  Returns per element: list of (tokens, score) ascending, finished? flag.
  """
  b = inputs.shape[0]
  total = maxlen + 1
  start = [int(init[i]) if init is not None else 0 for i in range(b)]
  prompts = []
  for i in range(b):
    if init is None:
      prompts.append(None)
    else:
      prompts.append([int(t) for t in inputs[i, :start[i] + 1]])
  # live: (log prob, tokens consumed incl. the dummy/prompt, ) ; finished same
  live = [[(0.0, tuple(prompts[i]) if init is not None else (0,))]
          for i in range(b)]
  fin = [[] for _ in range(b)]
  step = 0
  floor = min_lp / bp(alpha, total)
  while True:
    if not (step + min(start) < total - 1):
      break
    if max_step > 0 and step >= max_step:
      break
    best = [max(x[0] for x in live[i]) / bp(alpha, total) if live[i] else -1e9
            for i in range(b)]
    done = []
    for i in range(b):
      if len(fin[i]) == k:
        worst = min(x[0] for x in fin[i])
        if abs(worst - best[i]) < GAP:
          raise Ambiguous()
        done.append(worst > best[i])
      else:
        done.append(False)
    if all(done):
      break
    if any(abs(x - floor) < GAP for x in best):
      raise Ambiguous()
    if step > 0 and all(x < floor for x in best):
      break
    for i in range(b):
      if start[i] + step >= total - 1:
        continue  # this element has used up its length
      forced = 0
      if init is None and step + 1 < inputs.shape[1]:
        forced = int(inputs[i, step + 1])
      if forced:
        # one hypothesis survives a teacher-forced prefix, at no cost
        assert len(live[i]) == 1
        live[i] = [(0.0, live[i][0][1] + (forced,))]
        continue
      cand = []
      for lp, toks in live[i]:
        ls = declib.log_softmax(logit_fn(i, toks))
        cand += [(lp + float(ls[t]), toks + (t,)) for t in range(len(ls))]
      cand = pick(cand, 2 * k, lambda x: x[0])
      n = start[i] + step + 1
      newf = [(lp / bp(alpha, n), toks) for lp, toks in cand if toks[-1] == EOS]
      fin[i] = pick(fin[i] + newf, k, lambda x: x[0])
      live[i] = [x for x in cand if x[1][-1] != EOS][:k]
    step += 1
  out = []
  for i in range(b):
    hyps = fin[i] if fin[i] else live[i]
    hyps = sorted(hyps, key=lambda x: x[0])
    rows = []
    for sc, toks in hyps:
      if init is None:
        t = list(toks[1:])
      else:
        t = list(toks)
        while t and t[0] == 0:
          t = t[1:]
      t = (t + [0] * maxlen)[:maxlen]
      rows.append((t, sc))
    out.append((rows, bool(fin[i])))
  return out, step


CONFIGS = [
    dict(k=1), dict(k=2), dict(k=3, alpha=0.0), dict(k=4, alpha=1.2),
    dict(k=2, offset=1), dict(k=3, prompts='mixed'),
    dict(k=2, prompts='mixed', maxlen=5), dict(k=2, maxlen=4, alpha=2.0),
    dict(k=3, max_step=3), dict(k=2, min_lp=-4.0, eosb=-4.0),
    dict(k=2, prefill=True, prompts='mixed', alpha=0.0),
    dict(k=3, prefill=True, prompts='mixed', max_step=2),
    dict(k=2, prefill=True, prompts='mixed', offset=1, eosb=1.0),
    dict(k=1, prompts='full'), dict(k=2, prompts='full', maxlen=9), dict(k=2, eosb=-30.0), dict(k=4, eosb=2.5, b=1),
    dict(k=1, v=2150, b=2, n=4), dict(k=2, v=2300, b=2, n=4), dict(k=2, v=2304, b=1, n=4, eosb=2.0), dict(k=1, v=2150, b=2, n=4, eosb=3.0),
    dict(k=1, alpha=1.5, scale=7.0, l=9, eosb=3.0), dict(k=2, alpha=2.0, scale=8.0, l=9, eosb=4.0),
    dict(k=1, alpha=1.2, scale=5.0, l=9, eosb=5.0, n=30), dict(k=2, alpha=1.6, scale=9.0, l=9, eosb=9.0, prompts='mixed'),
    dict(k=2, eosb=3.0, alpha=-0.0, l=9), dict(k=3, eosb=-1.5, l=8, b=2),
]


def configs(c):
  out = list(CONFIGS)
  rng = c.rng
  for _ in range(c.n(0, 30)):
    out.append(dict(
        k=int(rng.integers(1, 5)), alpha=float(np.round(rng.uniform(0, 2), 2)),
        offset=int(rng.integers(0, 2)), b=int(rng.integers(1, 5)),
        prompts=['none', 'mixed', 'full'][rng.integers(0, 3)],
        eosb=float(np.round(rng.uniform(-3, 3), 2)),
        l=int(rng.integers(5, 10)), prefill=bool(rng.integers(0, 4) == 0),
        max_step=int(rng.choice([-1, -1, 2, 4]))))
  for d in out:
    f = dict(k=2, alpha=0.6, offset=0, prompts='none', maxlen=None,
             max_step=-1, min_lp=NEG, eosb=0.0, prefill=False, v=None, b=None,
             l=7, n=None, scale=None)
    f.update(d)
    yield f


def run_config(c, cfg, n_data, oracle):
  rng = c.rng
  b = cfg['b'] or int(rng.integers(2, 6))
  l = cfg['l']
  k = cfg['k']
  v = cfg['v'] or int(2 * k + 2 + rng.integers(1, 6))
  toy = declib.Toy(v, l + 4, cfg['offset'])
  maxlen = cfg['maxlen']

  def f(inputs, cache, table, init):
    kw = {}
    if cfg['prefill']:
      kw['initial_index'] = init
    return decoding.beam_search(
        inputs, cache,
        toy.tokens_to_logits(table, own_index=cfg['prefill']), EOS,
        num_decodes=k, alpha=cfg['alpha'], max_decode_len=maxlen,
        max_decode_step=cfg['max_step'], min_log_prob=cfg['min_lp'],
        cache_offset=cfg['offset'], **kw)

  jf = jax.jit(f)
  for _ in range(cfg['n'] or n_data):
    inputs = np.zeros((b, l), np.int32)
    ml = maxlen if maxlen is not None else l
    if cfg['prompts'] != 'none':
      for i in range(b):
        p = int(rng.integers(0, min(l, ml) - 1))
        if cfg['prompts'] == 'full' and i == 0:
          p = min(l, ml) - 1
        inputs[i, 1:1 + p] = rng.integers(2, v, size=p)
    table = toy.table(rng, scale=cfg['scale'] or [0.7, 1.5, 3.0][rng.integers(0, 3)])
    table[:, EOS] += cfg['eosb']
    if v > 1000 and (rng.random() < .7 or _ == 0):
      # The likely continuations are neighbouring ids (one block per history).
      w = int(rng.integers(2 * k + 1, 4 * k + 4))
      for r in range(table.shape[0]):
        s0 = int(rng.choice([1, 1, 1, v - w, int(rng.integers(2, v - w))]))
        table[r, s0:s0 + w] += 9.0
      c.event('blocked_tables')
    table[:, 0] -= 1e4  # padding is never generated
    init = None
    if cfg['prefill']:
      init = (inputs != 0).sum(1).astype(np.int32)
      cache = toy.init_cache(b, inputs, init)
    else:
      cache = toy.init_cache(b)
    toy.events.clear()
    ok, out = c.attempt('beam_search', lambda: [np.asarray(x) for x in
        jax.block_until_ready(jf(
            jnp.asarray(inputs), cache, jnp.asarray(table),
            jnp.asarray(init if init is not None else np.zeros(b, np.int32))))])
    jax.effects_barrier()
    if not ok:
      return
    oracle(c, cfg, dict(inputs=inputs, table=table, init=init, toy=toy, b=b,
                        l=l, v=v, ml=ml, cache=cache, jf=jf), out,
           [list(e) for e in toy.events])


def oracle_hyps(c, cfg, data, out, events):
  seqs, scores = out
  b, k, ml = data['b'], cfg['k'], data['ml']
  if seqs.shape != (b, k, ml) or scores.shape != (b, k):
    c.violation('beam:shape', got=[seqs.shape, scores.shape],
                want=[(b, k, ml), (b, k)], config=cfg)
    return
  toy, table = data['toy'], data['table']
  memo = {}

  def logit_fn(i, toks):
    key = (i, toks)
    if key not in memo:
      memo[key] = table[toy.hash_of(i, toks)]
    return memo[key]

  try:
    want, _ = reference(logit_fn, data['inputs'], k, cfg['alpha'], ml,
                        cfg['max_step'], cfg['min_lp'], data['init'])
  except Ambiguous:
    c.event('ambiguous_skipped'); c.event('ambiguous_large', int(data['v'] > 1000))
    return
  for i in range(b):
    rows, finished = want[i]
    c.event('elements_finished' if finished else 'elements_live')
    got = [(list(map(int, seqs[i, j])), float(scores[i, j]))
           for j in range(k)]
    c.check(bool(np.all(np.diff(scores[i]) >= 0)), 'beam:order',
            scores=scores[i], config=cfg)
    real = [g for g in got if g[1] > -1e6]
    ok = c.check(len(real) == len(rows), 'beam:number-of-hypotheses',
                 got=real, want=rows, config=cfg, inputs=data['inputs'][i])
    if not ok:
      continue
    for g, w in zip(real, rows):
      c.event('hypotheses')
      det = dict(got=g, want=w, config=cfg, inputs=data['inputs'][i], all_got=got,
                 all_want=rows)
      if not c.check(g[0] == w[0], 'beam:hypothesis', **det):
        break
      if not c.check(abs(g[1] - w[1]) < 2e-3 + 1e-4 * abs(w[1]), 'beam:score',
                     **det):
        break
    c.check(cfg['prefill'] or len(set(tuple(g[0]) for g in real)) == len(real),
            'beam:duplicate-hypothesis', got=got, config=cfg)
  # batch independence
  if b > 1 and cfg['max_step'] < 0 and cfg['min_lp'] == NEG and not cfg['v']:
    if cfg["prefill"]:
      companions(c, cfg, data, seqs, scores)
    else:
      perm = np.arange(b)[::-1].copy()
      cache = jax.tree.map(lambda x: x, data['cache'])
      h = cache['blk']['attn']
      for key in ('hash', 'cached_key', 'cached_value', 'rid'):
        h[key] = h[key][:, perm] if cfg['offset'] else h[key][perm]
      s2, sc2 = [np.asarray(x) for x in data['jf'](
          jnp.asarray(data['inputs'][perm]), cache, jnp.asarray(table),
          jnp.zeros(b, jnp.int32))]
      real = scores > -1e6
      c.check(np.array_equal(np.where(real[..., None], seqs, 0),
                             np.where(real[..., None], s2[perm], 0)),
              'beam:depends-on-companions', config=cfg)
      c.event('permuted_batches')
  c.case(('beam', str(cfg), seqs.tobytes()), True,
         dict(config=cfg, inputs=data['inputs'], returned=seqs, scores=scores))


def companions(c, cfg, data, seqs, scores):
  """Every element searched together with copies of itself only."""
  for i in range(data['b']):
    sel = np.full(data['b'], i)
    cache = {'blk': {'attn': dict(data['cache']['blk']['attn'])}}
    h = cache['blk']['attn']
    for key in ('hash', 'cached_key', 'cached_value', 'rid', 'cache_index'):
      h[key] = h[key][:, sel] if cfg['offset'] else h[key][sel]
    s2, sc2 = [np.asarray(x) for x in data['jf'](
        jnp.asarray(data['inputs'][sel]), cache, jnp.asarray(data['table']),
        jnp.asarray(data['init'][sel]))]
    real = (scores[i] > -1e6)
    c.check(np.array_equal(real, sc2[0] > -1e6)
            and np.array_equal(seqs[i][real], s2[0][real])
            and np.allclose(scores[i][real], sc2[0][real], rtol=1e-4, atol=1e-3),
            'beam:depends-on-companions', config=cfg, element=i,
            inputs=data['inputs'], together=seqs[i], alone=s2[0],
            scores_together=scores[i], scores_alone=sc2[0])
    c.event('elements_alone')
  jax.effects_barrier()
  data['toy'].events.clear()


def oracle_cache(c, cfg, data, out, events):
  """D04 for beams: the cache row holds the history of its live hypothesis."""
  seqs, _ = out
  b, k = data['b'], cfg['k']
  reordered = False
  prev = None
  for step, (idx, tok, sq, hist, rid, cindex, consts) in enumerate(events):
    c.event('cache_observations')
    n = b * k
    if not c.check(hist.shape[0] == n and rid.shape == (n,), 'beam:cache-rows',
                   got=hist.shape, want=n, config=cfg):
      return
    c.check(bool(consts), 'beam:non-row-state-changed', config=cfg, step=step)
    c.check(np.array_equal(rid, np.arange(n) // k),
            'beam:cache-row-of-other-example', rid=rid, config=cfg)
    ci = cindex[0] if cfg['offset'] else cindex
    if data['init'] is None:
      c.check(ci.shape == () and int(ci) == step, 'beam:cache-index-changed',
              got=cindex, step=step, config=cfg)
    else:
      c.equal(ci.reshape(-1), np.repeat(data['init'], k) + step,
              'beam:cache-index', config=cfg, step=step)
    for r in range(n):
      i = r // k
      if data['init'] is not None and data['init'][i] + step >= data['ml']:
        c.event('rows_past_their_end')
        continue  # its search is over, only its companions go on
      if data['init'] is None:
        want = sq[r][:step]
        off = 0
      else:
        p = int(data['init'][i])
        want = np.concatenate([data['inputs'][i][:p], sq[r][:step]])
      got = hist[r][:len(want)]
      if not c.check(np.array_equal(got, want + 1) and
                     not np.any(hist[r][len(want):]),
                     'beam:cache-history', row=r, step=step, got=hist[r],
                     want=want, config=cfg):
        return
      held = int(sq[r][step]) if data['init'] is None or step else None
      if held is not None:
        c.check(int(tok[r]) == held, 'beam:queried-with-wrong-token',
                row=r, step=step, tok=tok, config=cfg)
    if prev is not None and k > 1 and not np.array_equal(
        prev[:, :step - 1], sq[:, :step - 1]):
      reordered = True
    prev = sq
  if reordered:
    c.event('searches_with_reordered_beams')
  c.case(('bcache', str(cfg), seqs.tobytes()), k > 1 and reordered,
         dict(config=cfg, steps=len(events), reordered=reordered))
