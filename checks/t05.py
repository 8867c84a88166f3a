import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, t5xshim
import numpy as np, functools, time
import jax, jax.numpy as jnp
from flax.core import freeze, unfreeze
import trainlib as TL
from t5x import partitioning, trainer as trainer_lib
c = vlib.Check('T05', rule='random schedules of train and evaluation calls over a transparent model with a recording metric '
  'writer; distinct by schedule and batches; non-trivial = a call of more than one step or several evaluation batches')
rng = c.rng
LOG = []
TL.record_writers(LOG)

def val(v):
  return float(np.asarray(getattr(v, 'value', v)))

def batches(n, B):
  return [TL.batch(rng, rng.permutation(TL.N)[:B]) for _ in range(n)]

def preds(w, b):
  return np.abs(b['x'].astype(np.float64) @ w - b['y'])

def agg(rows, where, m, num_steps, det, wall, train):
  """rows: (weights before the step, batch)."""
  loss = sum(0.5 * (b['w'].astype(np.float64) * preds(w, b) ** 2).sum() for w, b in rows)
  want = {'loss': loss / num_steps, 'wsum': sum(float(b['w'].sum()) for _, b in rows), 'ids': float(sum(int(b['id'].sum()) for _, b in rows))}
  r = np.concatenate([preds(w, b)[b['w'] > 0] for w, b in rows])
  if r.size: want['abs_err'] = r.mean()
  for k, v in want.items():
    if c.check(k in m, where + ':missing', metric=k, **det):
      c.close(val(m[k]), v, where + ':' + k, rtol=2e-4, atol=1e-3, **det)
  d = val(m['seconds'])
  c.check(0 <= d <= wall + .05, where + ':duration', got=d, wall=wall, **det)
  if d > 0:
    c.close(val(m['examples_per_second']) * d, sum(len(b['id']) for _, b in rows), where + ':examples-per-second', rtol=1e-3, **det)
    c.close(val(m['steps_per_second']) * d, num_steps, where + ':steps-per-second', rtol=1e-3, **det)
  else:
    c.event('zero-durations')

def schedules():
  for i in range(c.n(16, 90)):
    if c.out_of_time(.8): break
    mut = bool(i % 3 == 2)
    nmb = [None, 2, None, 4][i % 4]
    model = TL.Lin(mutables=mut)
    start = int(rng.choice([0, 0, 7, 1000]))
    st = TL.make_state(rng, mut)
    if start: st = st.replace_step(jnp.asarray(start, jnp.int32))
    names = ['a', 'b'][:int(rng.integers(1, 3))]
    wmc = trainer_lib.WeightMetricsComputer() if i % 2 else None
    lr_fn = lambda s: 0.01 / (1.0 + 0.1 * jnp.asarray(s, jnp.float32))
    lr = lambda s: 0.01 / (1.0 + 0.1 * s)
    del LOG[:]
    part = partitioning.PjitPartitioner(model_parallel_submesh=(1, int(rng.choice([1, 2, 4]))), logical_axis_rules=TL.RULES)
    w = np.asarray(st.params['w'], np.float64)
    step = start
    seen = np.zeros(TL.N)
    expect_writes = []
    tr = TL.make_trainer(st, model, lr_fn, nmb, partitioner=part, eval_names=names, wmc=wmc)
    plan = []
    pending = []
    with tr:
      if i % 5 == 1:
        ok, _ = c.attempt('compile', tr.compile_train, batches(1, 8)[0]); c.event('precompiled')
        ok2, _ = c.attempt('compile', tr.compile_eval, {n: batches(1, 8)[0] for n in names})
        if not (ok and ok2): return
      n_timing = len(LOG)
      for _call in range(int(rng.integers(2, 6))):
        if rng.random() < .6:
          n = int(rng.integers(1, 5)); bs = batches(n + 2, 8)
          it = iter([{k: v.copy() for k, v in b.items()} for b in bs])
          det = dict(call='train', num_steps=n, step=step, microbatches=nmb, schedule=list(plan))
          kw = dict(start_step=step) if rng.random() < .5 else {}
          t0 = time.time()
          ok, fut = c.attempt('train', tr.train, it, n, **kw)
          if not ok: return
          late = rng.random() < .4
          m = None if late else fut.result()
          wall = time.time() - t0
          rows, lrs, grads = [], [], None
          for j in range(n):
            rows.append((w.copy(), bs[j])); lrs.append(lr(step + j))
            prev = w
            w, g, _, _ = TL.ref_step(w, bs[j], lrs[-1])
          left = len(list(it))
          c.check(left == 2, 'train:batches-consumed', want=n, got=n + 2 - left, **det)
          step += n
          got = tr.train_state
          c.check(int(got.step) == step, 'train:step', got=int(got.step), want=step, **det)
          c.close(got.params['w'], w, 'train:parameters', rtol=1e-3, atol=1e-3, **det)
          wnow = np.asarray(got.params['w'], np.float64)
          expect_writes.append(('train', step)); plan.append(('train', n))
          pending.append((fut, rows, n, det, lrs, None if late else wall, step))
          if not late: settle(pending, wmc)
          c.event('train-calls'); c.event('train-steps', n)
          w = wnow
        else:
          m_ = {n: batches(int(rng.integers(1, 4)), 8) for n in names}
          before = jax.tree.map(np.asarray, tr.train_state)
          det = dict(call='eval', step=step, batches={k: len(v) for k, v in m_.items()}, schedule=list(plan))
          t0 = time.time()
          ok, res = c.attempt('eval', tr.eval, {n: iter(b) for n, b in m_.items()})
          if not ok: return
          wall = time.time() - t0
          after = jax.tree.map(np.asarray, tr.train_state)
          for (p, a), (_, b) in zip(jax.tree_util.tree_flatten_with_path(before)[0], jax.tree_util.tree_flatten_with_path(after)[0]):
            c.equal(b, a, 'eval:changes-state', leaf=jax.tree_util.keystr(p), **det)
          c.check(set(res) == set(names), 'eval:datasets', got=sorted(res), **det)
          for n in names:
            if n not in res: continue
            agg([(w, b) for b in m_[n]], 'eval', res[n], len(m_[n]), dict(det, dataset=n), wall, False)
            expect_writes.append(('training_eval/' + n, step))
            if mut:
              hist = float(unfreeze(tr.train_state.flax_mutables)['hist']['n'])
              c.close(val(res[n]['mut']), hist * len(m_[n]), 'eval:mutables', **det)
          plan.append(('eval', [len(v) for v in m_.values()]))
          c.event('eval-calls'); c.event('eval-batches', sum(len(v) for v in m_.values()))
        c.case((i, len(plan), bs_key(plan)), True, dict(step=step, plan=plan))
      settle(pending, wmc)
      # A later call must not change an earlier result: futures stay settled.
    # What reached the writers.
    got = [(n, s) for n, s, vals in LOG if 'loss' in vals]
    for name in {n for n, _ in expect_writes} | {n for n, _ in got}:
      a = [s for n, s in got if n == name]; b = [s for n, s in expect_writes if n == name]
      c.check(a == b, 'writer:steps', collection=name, got=a, want=b, schedule=plan)
      c.check(a == sorted(a), 'writer:order', collection=name, got=a)
    c.event('writes', len(got))

def bs_key(plan):
  return repr(plan)

def settle(pending, wmc):
  for fut, rows, n, det, lrs, wall, step in pending:
    m = fut.result()
    agg(rows, 'train', m, n, det, 1e9 if wall is None else wall, True)
    c.close(val(m['learning_rate']), np.mean(lrs), 'train:learning-rate', rtol=1e-4, atol=0, **det)
    c.close(val(m['learning_rate/current']), lrs[-1], 'train:current-learning-rate', rtol=1e-4, atol=0, **det)
    rec = [v for name, s, v in LOG if name == 'train' and s == step and 'loss' in v]
    c.check(len(rec) == 1, 'writer:train-written-once', step=step, times=len(rec), **{k: v for k, v in det.items() if k != 'step'})
    if rec:
      for k, v in m.items():
        c.check(k in rec[0], 'writer:metric-missing', metric=k, **det)
        if k in rec[0]: c.close(rec[0][k], val(v), 'writer:value', rtol=1e-6, metric=k, **det)
      c.check(set(rec[0]) == set(m), 'writer:extra-metric', extra=sorted(set(rec[0]) - set(m)), **det)
    if wmc is not None and n == 1:
      w0, b = rows[0]
      w1, g, _, _ = TL.ref_step(w0, b, lrs[0])
      cnt = np.zeros(TL.N); cnt[b['id']] = 1
      upd = w1 - w0
      scale = max(1.0, np.abs(g).max())
      for k, v in {'weight_rms/w': np.sqrt((w1 ** 2).mean()), 'weight_gradient_rms/w': np.sqrt((g ** 2).mean()), 'weight_update_rms/w': np.sqrt((upd ** 2).mean()),
                   'weight_max/w': np.abs(w1).max(), 'weight_gradient_rms/seen': np.sqrt((cnt ** 2).mean()),
                   'weight_update_divided_by_weight_rms/w': np.sqrt(((upd / w0) ** 2).mean())}.items():
        c.close(val(m[k]), v, 'train:' + k.split('/')[0], rtol=5e-3, atol=1e-3 * scale if 'grad' in k else 1e-4, **det)
      c.event('weight-metrics')
  del pending[:]

def real():
  """The shipped model: metrics of one call of n steps vs n calls of one step."""
  import netlib
  from t5x import models, adafactor, utils
  mod = netlib.module('t5', layers=1, vocab_size=18)
  od = adafactor.Adafactor(learning_rate=.1, step_offset=0)
  m = models.EncoderDecoderModel(module=mod, input_vocabulary=netlib.vocab, output_vocabulary=netlib.vocab, optimizer_def=od, loss_normalizing_factor=5.0, z_loss=1e-3)
  shapes = {k: (4, 6) for k in ('encoder_input_tokens', 'decoder_input_tokens', 'decoder_target_tokens', 'decoder_loss_weights')}
  part = partitioning.PjitPartitioner(model_parallel_submesh=(1, 1))
  init = utils.TrainStateInitializer(m.optimizer_def, m.get_initial_variables, shapes, part)
  n = 3
  def bt():
    tgt, _ = netlib.ragged(rng, 4, 6)
    return {'decoder_target_tokens': tgt, 'decoder_input_tokens': netlib.shift(tgt), 'decoder_loss_weights': (tgt > 0).astype(np.int32), 'encoder_input_tokens': netlib.ragged(rng, 4, 6)[0]}
  bs = [bt() for _ in range(n)]
  def run(split):
    st = init.from_scratch(jax.random.PRNGKey(0))
    tr = trainer_lib.Trainer(model=m, train_state=st, partitioner=part, eval_names=['e'], summary_dir=None, train_state_axes=init.train_state_axes,
                             rng=jax.random.PRNGKey(1), learning_rate_fn=lambda s: jnp.asarray(.05), num_microbatches=None)
    with tr:
      it = iter(bs)
      res = [tr.train(it, k).result() for k in split]
      ev = tr.eval({'e': iter(bs)})
      return res, ev['e'], jax.tree.map(np.asarray, unfreeze(tr.train_state.params))
  one, ev1, p1 = run([1] * n)
  all_, ev2, p2 = run([n])
  for a, b in zip(jax.tree.leaves(p1), jax.tree.leaves(p2)):
    c.close(a, b, 'real:parameters', rtol=1e-4, atol=1e-5)
  tok = [int((b['decoder_target_tokens'] > 0).sum()) for b in bs]
  seqs = [4] * n
  for k in sorted(all_[0]):
    if not hasattr(all_[0][k], 'value') or 'timing' in k: continue
    per = [val(r[k]) for r in one]
    cands = {'mean': np.mean(per), 'token-mean': np.average(per, weights=tok), 'sum': np.sum(per), 'last': per[-1]}
    c.check(any(np.isclose(val(all_[0][k]), v, rtol=1e-3, atol=1e-5) for v in cands.values()), 'real:aggregation', metric=k, got=val(all_[0][k]), per_step=per)
    c.event('real-metrics')
  acc = np.average([val(r['accuracy']) for r in one], weights=tok)
  c.close(val(all_[0]['accuracy']), acc, 'real:accuracy', rtol=1e-4, atol=1e-6)
  c.close(val(all_[0]['loss']), np.mean([val(r['loss']) for r in one]), 'real:loss', rtol=1e-3, atol=1e-4)
  for k in ev1:
    if hasattr(ev1[k], 'value') and 'timing' not in k: c.close(val(ev1[k]), val(ev2[k]), 'real:eval', rtol=1e-3, atol=1e-4, metric=k)
  c.case('real', True, {k: val(v) for k, v in list(all_[0].items())[:8] if hasattr(v, 'value')})

for name, fn in (('schedules', schedules), ('real', real)):
  c.section(name, fn)
for e, n in (('train-calls', 15), ('eval-calls', 8), ('eval-batches', 15), ('writes', 25), ('weight-metrics', 1), ('precompiled', 1), ('real-metrics', 5)):
  c.need(e, n)
c.finish()
