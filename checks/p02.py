"""P02: partitioning never changes what is computed."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import vlib, shards
T = os.environ.get('VERIF_TIER') == 'thorough'
c = shards.run('P02', 'training, evaluation, scoring and prediction of shipped networks on 8 devices (several processes included) compared with one plain device; '
  'distinct by network, optimizer, decoder, layout, mode and data', 7, 45, parallel=4, stall=300, needs=[('layouts', 8), ('leaves', 900), ('split-leaves', 200), ('multi-process', 2), ('predictions', 8), ('metrics', 100), ('moved', 4)])
import t5xshim
import numpy as np, jax
import mproc, parlib as PL
rng = c.rng
KINDS = ['t5', 'decoder_only', 'scalable', 'gpu', 'decoder_only', 'scalable_unrolled', 'decoder_only', 't5', 't5']

def compare(tag, ref, dis, got, det, random):
  """dis: the reference after a tiny disturbance, which tells how far rounding may carry."""
  for part in ('init', 'state'):
    if not c.check(set(ref[part]) == set(got[part]), tag + ':' + part + ':structure', missing=sorted(set(ref[part]) - set(got[part]))[:4], extra=sorted(set(got[part]) - set(ref[part]))[:4], **det): continue
    for k, w in ref[part].items():
      g = got[part][k]; c.event('leaves')
      if not c.check(g.shape == w.shape and g.dtype == w.dtype, tag + ':' + part + ':shape', leaf=k, got=(g.shape, str(g.dtype)), want=(w.shape, str(w.dtype)), **det): continue
      if not np.issubdtype(w.dtype, np.floating): c.equal(g, w, tag + ':' + part + ':value', leaf=k, **det); continue
      d = np.abs(g.astype(np.float64) - w); tol = 1e-5 + 2e-5 * np.abs(w).max(initial=0) + 20 * np.abs(dis[part][k].astype(np.float64) - w).max(initial=0)
      if part == 'init': tol = 1e-6 + 1e-5 * np.abs(w).max(initial=0)
      c.check(bool(np.all(d <= tol)), tag + ':' + part + ':value', leaf=k, diff=float(d.max(initial=0)), tol=float(tol), **det)
  for part in ('metrics', 'eval'):
    for k, w in ref[part].items():
      if not c.check(k in got[part], tag + ':' + part + ':missing', metric=k, have=sorted(got[part])[:10], **det): continue
      g = np.asarray(got[part][k], np.float64); w = np.asarray(w, np.float64); tol = 1e-4 * np.abs(w) + 1e-5 + 20 * np.abs(np.asarray(dis[part][k], np.float64) - w)
      c.check(bool(np.all(np.abs(g - w) <= tol)), tag + ':' + part + ':value', metric=k, got=g.tolist(), want=w.tolist(), **det); c.event('metrics')
  c.check(np.allclose(got['score'], ref['score'], rtol=1e-4, atol=1e-4), tag + ':score', got=got['score'], want=ref['score'], **det)
  ok = c.check(got['pscores'].shape == ref['pscores'].shape and got['tokens'].shape == ref['tokens'].shape, tag + ':prediction:shape', got=got['tokens'].shape, want=ref['tokens'].shape, **det); c.event('predictions')
  if not ok: return
  same = np.all(got['tokens'] == ref['tokens'], axis=-1)
  # A prediction may differ only where two sequences tie, or where the disturbance changes it as well.
  shaky = ~np.all(dis['tokens'] == ref['tokens'], axis=-1); close = np.isclose(got['pscores'], ref['pscores'], rtol=1e-4, atol=1e-4)
  c.check(bool(np.all(close | shaky)), tag + ':prediction:score', got=got['pscores'], want=ref['pscores'], **det)
  if det['spec']['decode'] != 'sample' or random: c.check(bool(np.all(same | shaky)), tag + ':prediction:tokens', got=got['tokens'][~same][:3], want=ref['tokens'][~same][:3], **det)

def layout(model_sizes, micro, proc=None):
  mode = (int(rng.choice([1, 2])), int(rng.choice([1, 2]))); k = int(rng.choice(model_sizes))
  kw = dict(num_partitions=None, model_parallel_submesh=(1, k)) if proc is None else dict(num_partitions=None, model_parallel_submesh=(int(rng.choice([1, proc])), k))
  return dict(mode=mode, kw=kw, micro=micro, compile=bool(rng.random() < .5))

def job(i):
  proc = {4: (2, 2), 6: (2, 4), 8: (4, 2)}.get(i % 9); kind = KINDS[i % 9]; micro = [None, None, 2][int(rng.integers(0, 3))]
  spec = dict(kind=kind, opt=str(rng.choice(['adafactor', 'sgd', 'adam'])), decode=str(rng.choice(['greedy', 'beam', 'sample'])), dropout=0.0 if micro else float(rng.choice([0, .2])), seed=int(rng.integers(1 << 30)), batch=16, steps=3,
              lnf=[None, 'NUM_REAL_TARGET_TOKENS', 48.0][int(rng.integers(0, 3))] if not micro else 48.0)
  if proc:
    n, k = proc; lays = [layout([1, 2][:1 + (k > 1)], micro, n) for _ in range(2)]
    try: res = mproc.run('train', n, k, (spec, lays), c.scratch, timeout=260)
    except mproc.Failed as e:
      if any(x[1] == 'repo' for x in e.errors): c.violation('processes:raised', errors=e.errors, spec=spec, layouts=lays); return
      raise
  else: lays = [layout(a, micro) for a in ([1, 2], [4, 8])]
  ref, dis = PL.plain(spec); c.beat()
  for j, lay in enumerate(lays):
    det = dict(spec=spec, layout=lay, processes=proc)
    if proc:
      for r, out in enumerate(res):
        compare('processes', ref, dis, out[j], dict(det, process=r), True); got = out[j]
      c.event('multi-process')
    else:
      ok, got = c.attempt('partitioned', PL.partitioned, spec, lay)
      if not ok: continue
      compare('devices', ref, dis, got, det, True)
      c.check(got['moved_ok'] and set(got['moved']) == set(ref['init']) and all(np.array_equal(got['moved'][k], got['init'][k]) for k in got['init']), 'devices:move-params', **det); c.event('moved')
    c.event('layouts'); c.event('split-leaves', got['split']); c.case((kind, spec['opt'], spec['decode'], str(lay), spec['seed']), np.prod(list(got['mesh'].values())) > 1, det if j == 0 else None); c.beat()

c.section('job', job, c.shard)
c.finish()
