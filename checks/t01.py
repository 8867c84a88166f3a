import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import vlib, t5xshim
import numpy as np, functools
import jax, jax.numpy as jnp
from flax.core import freeze, unfreeze
import trainlib as TL
from t5x import partitioning, trainer as trainer_lib
c = vlib.Check('T01', rule='random batches x microbatch counts x device layouts; distinct by batch bytes and layout; '
  'non-trivial = more than one microbatch')
rng = c.rng
TL.record_writers([])

def layouts():
  for i in range(c.n(14, 70)):
    if c.out_of_time(.6): break
    npart = int(rng.choice([1, 1, 2, 4, 8])); dp = 8 // npart
    part = partitioning.PjitPartitioner(model_parallel_submesh=(1, npart), logical_axis_rules=TL.RULES)
    mut = bool(i % 2)
    model = TL.Lin(mutables=mut)
    nmb = int(rng.choice([2, 2, 3, 4, 8])); per = dp * int(rng.integers(1, 3))
    B = nmb * per
    if B > TL.N: continue
    state = TL.make_state(rng, mut)
    w0 = np.asarray(state.params['w'], np.float64)
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    lr = .01
    mk = lambda n: TL.make_trainer(TL.ts_lib.FlaxOptimTrainState.create(TL.SGD(), TL.variables(np.random.default_rng(0), mut)).replace_params(freeze(jax.tree.map(lambda x: jnp.asarray(np.array(x)), unfreeze(state.params)))), model, lambda s: lr + 0 * s, n, key, part)
    full, micro = mk(None if i % 3 else 1), mk(nmb)
    w = w0
    with full, micro:
      hist = []
      for t in range(3):
        ids = rng.permutation(TL.N)[:B]
        b = TL.batch(rng, ids)
        det = dict(batch=B, microbatches=nmb, model_partitions=npart, data_shards=dp, mutables=mut, step=t)
        res = {}
        for name, tr in (('full', full), ('micro', micro)):
          ok, fut = c.attempt('train', tr.train, iter([{k: v.copy() for k, v in b.items()}]), 1)
          if not ok: return
          res[name] = {k: v for k, v in fut.result().items()}
        wn, g, loss, _ = TL.ref_step(w, b, lr)
        for name, tr in (('full', full), ('micro', micro)):
          st = tr.train_state
          gs = max(1, np.abs(g).max())
          c.close(np.asarray(st.param_states['g']['w']) / gs, g / gs, 'gradient:' + name, rtol=1e-4, atol=1e-4, **det)
          c.close(st.params['w'], wn, 'parameters:' + name, rtol=1e-4, atol=1e-4, **det)
          cnt = np.zeros(TL.N); cnt[ids] = 1
          c.equal(np.asarray(st.param_states['g']['seen']), cnt, 'example-contributions:' + name, **det)
          c.check(int(st.step) == t + 1, 'step:' + name, got=int(st.step), **det)
          m = res[name]
          c.close(m['loss'].value, loss, 'metric-loss:' + name, rtol=1e-4, atol=1e-3, **det)
          c.close(m['wsum'].value, b['w'].sum(), 'metric-weight:' + name, rtol=1e-5, **det)
          c.close(m['ids'].value, ids.sum(), 'metric-ids:' + name, rtol=1e-6, **det)
          r = np.abs(b['x'].astype(np.float64) @ w - b['y'])
          if (b['w'] > 0).any():
            c.close(m['abs_err'].value, r[b['w'] > 0].mean(), 'metric-average:' + name, rtol=1e-4, atol=1e-4, **det)
          d = float(m['seconds'].value)
          if d > 0:
            c.close(float(m['examples_per_second'].value) * d, B, 'metric-rate:' + name, rtol=1e-3, **det)
            c.close(float(m['steps_per_second'].value) * d, 1, 'metric-steps:' + name, rtol=1e-3, **det)
        c.check(set(res['full']) == set(res['micro']), 'metric-names', full=sorted(res['full']), micro=sorted(res['micro']), **det)
        # Random keys: one per microbatch, the same for all its examples.
        kg = np.asarray(micro.train_state.param_states['g']['key'])[ids].reshape(nmb, per)
        c.check(np.all(kg == kg[:, :1]), 'dropout-key:differs-within-microbatch', **det)
        c.check(len(set(kg[:, 0].tolist())) == nmb, 'dropout-key:shared-between-microbatches', keys=kg[:, 0], **det)
        kf = np.asarray(full.train_state.param_states['g']['key'])[ids]
        c.check(np.all(kf == kf[0]), 'dropout-key:differs-within-batch', **det)
        for q in kg[:, 0].tolist():
          c.check(q not in hist, 'dropout-key:repeats-over-steps', **det); hist.append(q)
        if mut:
          h = unfreeze(micro.train_state.flax_mutables)['hist']
          n = int(h['n'])
          c.check(n == (t + 1) * nmb, 'mutables:count', got=n, want=(t + 1) * nmb, **det)
          sig = (ids.astype(np.float64) * b['x'][:, 0]).reshape(nmb, per).sum(1)
          c.close(np.asarray(h['log'])[t * nmb:(t + 1) * nmb], sig, 'mutables:order', rtol=1e-4, atol=1e-2, **det)
          hf = unfreeze(full.train_state.flax_mutables)['hist']
          c.check(int(hf['n']) == t + 1, 'mutables:full-count', got=int(hf['n']), **det)
          c.event('threaded-mutables', nmb)
        w = np.asarray(micro.train_state.params['w'], np.float64)
        c.event('microbatched-steps'); c.event('examples', B)
        if npart < 8: c.event('data-parallel-steps')
        c.case((i, t, b['x'].tobytes()), nmb > 1, det)
        if not np.all(np.isfinite(w)) or np.abs(w).max() > 50: break

def uneven():
  for B, n in ((5, 2), (6, 4), (7, 3)):
    st = TL.make_state(rng)
    try:
      trainer_lib.accumulate_grads_microbatched(TL.Lin(), st, {k: jnp.asarray(v) for k, v in TL.batch(rng, range(B)).items()}, jax.random.PRNGKey(0), n)
      c.violation('uneven-microbatches-accepted', batch=B, microbatches=n)
    except AssertionError:
      c.event('uneven-rejected')
    except ValueError:
      c.event('uneven-rejected')

def real():
  """The shipped models, deterministic: full step vs microbatches."""
  import netlib
  from t5x import models, adafactor, utils, train_state as ts_lib
  from flax.core import freeze
  for i, kind in enumerate(['t5', 'scalable', 'decoder_only'][:c.n(2, 3)]):
    mod = netlib.module(kind, layers=1, dropout=0.0, vocab_size=18)
    od = adafactor.Adafactor(learning_rate=.1, step_offset=0, logical_factor_rules=adafactor.standard_logical_factor_rules())
    if kind == 'decoder_only':
      m = models.DecoderOnlyModel(module=mod, vocabulary=netlib.vocab, optimizer_def=od, loss_normalizing_factor=11.0, z_loss=1e-3, label_smoothing=.1)
      shapes = {k: (8, 6) for k in ('decoder_input_tokens', 'decoder_target_tokens', 'decoder_loss_weights', 'decoder_causal_attention')}
    else:
      m = models.EncoderDecoderModel(module=mod, input_vocabulary=netlib.vocab, output_vocabulary=netlib.vocab, optimizer_def=od, loss_normalizing_factor=11.0, z_loss=1e-3, label_smoothing=.1)
      shapes = {k: (8, 6) for k in ('encoder_input_tokens', 'decoder_input_tokens', 'decoder_target_tokens', 'decoder_loss_weights')}
    part = partitioning.PjitPartitioner(model_parallel_submesh=(1, 2))
    init = utils.TrainStateInitializer(od, m.get_initial_variables, shapes, part)
    for rep in range(c.n(1, 3)):
      key = jax.random.PRNGKey(rep)
      out = []
      tgt, lens = netlib.ragged(rng, 8, 6)
      b = {'decoder_target_tokens': tgt, 'decoder_input_tokens': netlib.shift(tgt), 'decoder_loss_weights': (tgt > 0).astype(np.int32)}
      if kind == 'decoder_only':
        b['decoder_causal_attention'] = (np.arange(6)[None] < rng.integers(0, 4, (8, 1))).astype(np.int32) * (tgt > 0)
      else:
        b['encoder_input_tokens'] = netlib.ragged(rng, 8, 6)[0]
      perm = rng.permutation(8)
      for nmb, order in ((None, None), (2, None), (4, None), (4, perm)):
        if c.tier == 'quick' and nmb == 2: continue
        st = init.from_scratch(key)
        tr = trainer_lib.Trainer(model=m, train_state=st, partitioner=part, eval_names=[], summary_dir=None, train_state_axes=init.train_state_axes,
                                 rng=key, learning_rate_fn=lambda s: jnp.asarray(.05), num_microbatches=nmb)
        bb = {k: (v if order is None else v[order]) for k, v in b.items()}
        with tr:
          ok, fut = c.attempt('real:train', tr.train, iter([bb]), 1)
          if not ok: return
          res = {k: float(np.asarray(v.value)) for k, v in fut.result().items() if hasattr(v, 'value')}
          out.append((nmb, jax.tree.map(np.asarray, unfreeze(tr.train_state.params)), res))
      base = out[0]
      for nmb, p, res in out[1:]:
        det = dict(kind=kind, microbatches=nmb)
        for (path, a), (_, bq) in zip(jax.tree_util.tree_flatten_with_path(p)[0], jax.tree_util.tree_flatten_with_path(base[1])[0]):
          c.close(a, bq, 'real:parameters', rtol=2e-3, atol=2e-4, param=jax.tree_util.keystr(path), **det)
        c.check(set(res) == set(base[2]), 'real:metric-names', got=sorted(res), want=sorted(base[2]), **det)
        for k in res:
          if 'timing' in k or 'per_second' in k or 'seconds' in k: continue
          c.close(res[k], base[2].get(k), 'real:metric', rtol=1e-3, atol=1e-4, metric=k, **det)
        c.event('real-model-comparisons'); c.case((kind, rep, nmb, tgt.tobytes()), True, dict(kind=kind, microbatches=nmb, loss=res.get('loss')))

for name, fn in (('layouts', layouts), ('uneven', uneven), ('real', real)):
  c.section(name, fn)
for e, n in (('microbatched-steps', 15), ('threaded-mutables', 10), ('data-parallel-steps', 8), ('uneven-rejected', 3), ('real-model-comparisons', 2)):
  c.need(e, n)
c.finish()
