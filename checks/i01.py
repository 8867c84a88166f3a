"""I01: batched inference returns one exact result per input, in input order."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import vlib, shards
c = shards.run('I01', 'one case = one inference over an enumerated dataset: exact integer models (every output structure and step signature) with all dataset sizes around the batch on 1-8 devices and in several '
  'processes, and shipped models against themselves on one example; distinct by dataset size, batch, layout, structure, randomness and content', 7, 40, parallel=6, stall=300,
  needs=[('results', 600), ('padded', 40), ('exact-fit', 10), ('multi-process', 2), ('several-shards', 10), ('draws', 20), ('network-results', 30), ('structures-aux-nested', 3), ('structures-aux', 1), ('same-in-all-processes', 8)])
import t5xshim
import numpy as np, jax, jax.numpy as jnp
import inferlib as I
import mproc
rng = c.rng

def leaves(t, n):
  """Arrays whose first axis is the example, by path."""
  out = {}
  def go(p, x):
    if isinstance(x, dict): [go(p + '/' + k, v) for k, v in sorted(x.items())]
    elif isinstance(x, tuple): [go(p + '/%d' % i, v) for i, v in enumerate(x)]
    else: out[p] = x
  go('', t); return out

def judge(case, got, det, who):
  if 'raised' in got:
    if got['blame'] != 'repo': raise RuntimeError(got['raised'])
    c.violation('raised', error=got['raised'], **det); return
  n, kind = case['n'], case['kind']; f, w, w1 = I.want(case); res = got['res']; c.case((n, case['batch'], kind, case['rng'], case['mutables'], str(got['mesh']), got['shards'], case['seed']), True, dict(det, mesh=got['mesh']))
  c.event('padded' if n % case['batch'] else 'exact-fit'); c.event('several-shards', got['shards'] > 1); c.event('sizes'); c.event('structures-' + kind)
  aux = None
  is_aux = isinstance(w, tuple) and len(w) == 2 and isinstance(w[1], dict)
  if is_aux:
    if not c.check(isinstance(res, tuple) and len(res) == 2, 'structure', **det): return
    res, aux = res; (w, waux), (w1, waux1) = w, w1
  if not c.check(isinstance(res, list) and len(res) == n and all(len(x) == 2 for x in res), 'count', got=len(res), want=n, **det): return
  ids = [int(x[0]) for x in res]; c.event('results', n)
  if not c.check(sorted(ids) == list(range(n)), 'indices', got=ids[:40], **det): return
  c.check(ids == list(range(n)), 'order', got=ids[:40], shards=got['shards'], **det)
  wl, wl1 = leaves(w, n), leaves(w1, n); rows = [leaves(r, 1) for _, r in res]
  if not c.check(all(set(r) == set(wl) for r in rows), 'structure', got=str(res[0])[:300], want=sorted(wl), **det): return
  for path, wv in wl.items():
    g = np.array([np.asarray(r[path]) for r in rows]); drawn = not np.array_equal(wv, wl1[path]); wv = wv[ids]   # what each index stands for
    if case['rng'] == 'used' and drawn: g = undraw(case, g, wv, ids, det)
    c.equal(g, wv, 'value', path=path, **det)
  if aux is not None:
    al, gl = leaves(waux, n), leaves(aux, n)
    if not c.check(set(al) == set(gl), 'aux-structure', got=sorted(gl), want=sorted(al), **det): return
    for path, wv in al.items():
      g = np.array([np.asarray(x) for x in gl[path]])
      if case['rng'] == 'used' and not np.array_equal(wv, leaves(waux1, n)[path]): g = undraw(case, g, wv[ids], ids, det)
      c.equal(g, wv[ids], 'aux-value', path=path, **det)
      c.check(isinstance(gl[path], list) and len(gl[path]) == n and (all(hasattr(x, 'dtype') for x in gl[path]) if case['keep_np'] else not any(hasattr(x, 'dtype') for x in gl[path])), 'aux-kind', path=path, **det)
  if case['twice']:
    c.check(str(got['again']) == str(got['res']), 'repeatable', first=str(got['res'])[:300], second=str(got['again'])[:300], **det); c.event('repeats')

def undraw(case, g, w, ids, det):
  """The value drawn by each batch: the same for its examples, different between batches."""
  d = (np.asarray(g, np.int64) - np.asarray(w, np.int64)).reshape(len(ids), -1); b = np.array(ids) // case['batch']; seen = []
  for k in sorted(set(b)):
    x = d[b == k]; c.check(bool(np.all(x == x.flat[0])), 'draw-differs-within-batch', which=int(k), got=x[:4].tolist(), **det); seen.append(int(x.flat[0])); c.event('draws')
  if len(seen) > 1: c.check(len(set(seen)) >= len(seen) - 1, 'draw-repeated', draws=seen[:8], **det)
  c.check(any(seen) or len(seen) == 0, 'rng-not-used', draws=seen, **det)
  return np.asarray(w)

def case(B, kw, n=None):
  if n is None: n = int(rng.choice([1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B - 1, int(rng.integers(1, 5 * B + 1)), int(rng.integers(1, 5 * B + 1))])) or 1
  r = str(rng.choice(['no', 'used', 'used', 'ignored']))
  return dict(n=n, batch=B, kw=kw, kind=str(rng.choice(I.KINDS)), rng=r, give=bool(rng.random() < .4) or r == 'ignored', mutables=bool(rng.random() < .4), keep_np=bool(rng.random() < .3), twice=bool(rng.random() < .25), seed=int(rng.integers(1 << 30)),
              key=int(rng.integers(1 << 30)), w=int(rng.integers(2, 50)), m=int(rng.integers(1, 100)))

def single(i):
  k = [1, 1, 2, 4, 8][int(rng.integers(0, 5))]; mp = int(rng.choice([x for x in (1, 2, 4, 8) if 8 % x == 0])); dp = 8 // mp
  B = dp * int(rng.integers(1, 4)); cs = case(B, dict(model_parallel_submesh=(1, mp)))
  judge(cs, I.attempt(cs), cs, 0); c.beat()

def every_size():
  """All sizes of one small batch."""
  mp = int(rng.choice([1, 2, 4, 8])); B = 8 // mp
  base = case(B, dict(model_parallel_submesh=(1, mp)), 1)
  for n in range(1, 3 * B + 2):
    if n > 1 and B == 8 and n not in (7, 8, 9, 16, 17): continue
    cs = dict(base, n=n, seed=int(rng.integers(1 << 30)), twice=False); judge(cs, I.attempt(cs), cs, 0)
  c.beat()

def processes(i):
  np_, k = [(2, 2), (4, 1), (2, 4), (3, 1), (4, 2), (2, 1)][i % 6]; cs = []
  for _ in range(c.n(7, 14)):
    mp = 1; sub = (1, mp)   # gloo mixes up collectives of several groups with several devices per process
    if np_ == 4 and rng.random() < .3: sub = (2, mp)    # a model replica over two processes
    dp = np_ * k // (sub[0] * sub[1]); cs.append(case(dp * int(rng.integers(1, 4)), dict(model_parallel_submesh=sub), None))
  for x in cs:
    if x['n'] < 5: x['n'] += x['batch'] * int(rng.integers(1, 4))
  try: out = mproc.run('infer', np_, k, (cs,), c.scratch, timeout=240)
  except mproc.Failed as e:
    if any(x[1] == 'repo' for x in e.errors): c.violation('processes:raised', errors=e.errors, cases=cs); return
    raise
  c.event('multi-process')
  for j, x in enumerate(cs):
    det = dict(x, processes=(np_, k)); judge(x, out[0][j], det, 0)
    ids = {out[r][j].get('shard') for r in range(np_)}
    for r in range(1, np_):
      c.check(str(out[r][j].get('res')) == str(out[0][j].get('res')), 'processes-disagree', process=r, got=str(out[r][j].get('res'))[:300], want=str(out[0][j].get('res'))[:300], **det); c.event('same-in-all-processes')
    c.beat()

def networks(i):
  """Shipped models: the result of an example in a batch is its result alone."""
  import parlib as PL, tensorflow as tf
  from t5x import partitioning, train_state as ts_lib, utils
  kind = ['t5', 'decoder_only', 'scalable'][i % 3]; dec = str(rng.choice(['greedy', 'beam']))
  spec = dict(kind=kind, opt='sgd', decode=dec, dropout=0.0, seed=int(rng.integers(1 << 30)), batch=8, steps=1, lnf=None)
  m = PL.model(spec); sh, ty = PL.shapes(spec); mp = int(rng.choice([1, 2, 4])); part = partitioning.PjitPartitioner(model_parallel_submesh=(1, mp), logical_axis_rules=partitioning.standard_logical_axis_rules())
  ini = utils.TrainStateInitializer(None, m.get_initial_variables, sh, part, ty); st = ini.from_scratch(jax.random.PRNGKey(spec['seed']))
  n = int(rng.choice([3, 8, 11, 13])); f = PL.batch(np.random.default_rng(spec['seed']), n, kind); ds = tf.data.Dataset.from_tensor_slices(f).enumerate()
  mode = ['predict', 'aux', 'score'][int(rng.integers(0, 3))] if i >= 3 else ['aux', 'score', 'predict'][i % 3]
  # What one example alone gives, and whether a tiny disturbance of the weights changes it.
  fn1 = {'predict': m.predict_batch, 'aux': m.predict_batch_with_aux, 'score': m.score_batch}[mode]
  fn = utils.get_infer_fn(fn1, 8, ini.train_state_axes, part)
  ok, res = c.attempt('network', fn, ds, st)
  if not ok: return
  det = dict(spec=spec, mode=mode, n=n, mp=mp); params = jax.tree.map(np.asarray, st.params); r = np.random.default_rng(3)
  shaken = jax.tree.map(lambda x: x * (1 + 1e-6 * r.standard_normal(x.shape).astype(np.float32)), params); one = jax.jit(lambda p, b: fn1(p, b)); aux = None
  if mode == 'aux': res, aux = res
  if not c.check([x[0] for x in res] == list(range(n)), 'network:order', got=[x[0] for x in res], **det): return
  for k in range(n):
    b = {q: v[k:k + 1] for q, v in f.items()}; w, w2 = one(params, b), one(shaken, b); g = res[k][1]; c.event('network-results')
    if mode == 'score': c.check(np.allclose(g, np.asarray(w)[0], rtol=1e-4, atol=1e-4), 'network:score', got=g, want=np.asarray(w)[0], example=k, **det); continue
    wt, wt2 = (w[0], w2[0]) if mode == 'aux' else (w, w2)
    stable = np.array_equal(wt, wt2)
    if stable: c.equal(g, np.asarray(wt)[0], 'network:tokens', example=k, **det)
    if mode == 'aux' and stable: c.check(np.allclose(aux['scores'][k], np.asarray(w[1]['scores'])[0], rtol=1e-3, atol=1e-3), 'network:aux', got=aux['scores'][k], want=np.asarray(w[1]['scores'])[0], example=k, **det)
  c.case(('network', kind, dec, mode, n, mp, spec['seed'])); c.beat()

s = c.shard
if s % 7 in (4, 5): c.section('processes', processes, (s // 7) * 2 + (s % 7 == 5))
else:
  c.section('every-size', every_size)
  for i in range(c.n(8, 30)):
    if c.out_of_time(.8): break
    c.section('single', single, i)
  c.section('networks', networks, s % 7 if s % 7 < 4 else 3)
c.finish()
