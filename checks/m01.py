import vlib, t5xshim
import numpy as np
import jax, jax.numpy as jnp
import clu.metrics
from t5x import metrics as M
c = vlib.Check('M01', rule='random example streams, splits, merge trees, durations and step counts; '
  'distinct by (metric, data, split); non-trivial = more than one part')
rng = c.rng

def parts(n):
  k = int(rng.integers(1, 6)); cuts = np.sort(rng.integers(0, n + 1, k - 1)); return np.split(np.arange(n), cuts)

def merge_tree(ms):
  ms = list(ms)
  rng.shuffle(ms) if rng.random() < .5 else None
  while len(ms) > 1:
    i = int(rng.integers(0, len(ms) - 1)); a = ms.pop(i); b = ms.pop(i); ms.insert(i, a.merge(b))
  return ms[0]

def zero_like(make):
  return M.shape_obj_to_defined_obj(jax.eval_shape(make))

def splits():
  for t in range(c.n(250, 2000)):
    n = int(rng.integers(1, 20))
    x = (rng.standard_normal(n) * rng.choice([1, 100])).astype(np.float32)
    ps = parts(n)
    dur = float(rng.uniform(.1, 50)); steps = int(rng.integers(1, 9))
    kind = ['sum', 'avg', 'rate', 'spt', 'sum2d', 'timeavg'][t % 6]
    det = dict(kind=kind, x=x, split=[len(p) for p in ps])
    nonempty = [p for p in ps if len(p)] or [np.arange(n)]
    if kind == 'sum':
      m = merge_tree([M.Sum.from_model_output(jnp.asarray(x[p])) for p in ps])
      c.close(m.compute(), x.sum(dtype=np.float64), 'metric:sum', rtol=1e-3, atol=1e-3, **det)
      z = zero_like(lambda: M.Sum.from_model_output(jnp.asarray(x)))
      c.close(z.merge(m).compute(), x.sum(dtype=np.float64), 'metric:zero-not-neutral', rtol=1e-3, atol=1e-3, **det)
    elif kind == 'sum2d':
      y = rng.standard_normal((n, 3)).astype(np.float32)
      m = merge_tree([M.Sum.from_model_output(jnp.asarray(y[p])) for p in ps] + [M.Sum.from_model_output(2.5)])
      c.close(m.compute(), y.sum(dtype=np.float64) + 2.5, 'metric:sum-array', rtol=1e-3, atol=1e-3, **det)
    elif kind == 'avg':
      per = [int(rng.integers(1, 4)) for _ in ps]
      m = merge_tree([M.AveragePerStep.from_model_output(jnp.asarray(x[p]), steps=s) for p, s in zip(ps, per)])
      c.close(m.compute(), x.sum(dtype=np.float64) / sum(per), 'metric:average-per-step', rtol=1e-3, atol=1e-3, **det)
      m2 = M.set_step_metrics_num_steps({'a': m, 's': M.Sum.from_model_output(4.0)}, steps)
      c.close(m2['a'].compute(), x.sum(dtype=np.float64) / steps, 'metric:set-num-steps', rtol=1e-3, atol=1e-3, steps=steps, **det)
      c.close(m2['s'].compute(), 4.0, 'metric:set-num-steps-touched-other')
      c.close(m.compute(), x.sum(dtype=np.float64) / sum(per), 'metric:set-num-steps-mutated', rtol=1e-3, atol=1e-3)
      z = zero_like(lambda: M.AveragePerStep.from_model_output(jnp.asarray(x), steps=jnp.asarray(1)))
      c.close(z.merge(m).compute(), x.sum(dtype=np.float64) / sum(per), 'metric:zero-not-neutral-avg', rtol=1e-3, atol=1e-3, **det)
    elif kind == 'rate':
      m = merge_tree([M.TimeRate.from_model_output(jnp.asarray(x[p].sum())) for p in ps])
      tree = {'r': m, 'n': {'s': M.Sum.from_model_output(1.5)}, 't': M.Time()}
      done = M.set_time_metrics_duration(tree, dur)
      c.close(done['r'].compute(), x.sum(dtype=np.float64) / dur, 'metric:rate', rtol=2e-3, atol=1e-3, dur=dur, **det)
      c.close(done['t'].compute(), dur, 'metric:time'); c.close(done['n']['s'].compute(), 1.5, 'metric:duration-touched-other')
      for bad in (lambda: m.compute(), lambda: M.Time().compute()):
        try: bad(); c.violation('metric:rate-without-duration')
        except ValueError: pass
      mm = done['t'].merge(M.Time(duration=dur + 99)); c.close(mm.compute(), dur, 'metric:time-merge')
    elif kind == 'spt':
      per = [int(rng.integers(1, 4)) for _ in ps]
      m = merge_tree([M.StepsPerTime.from_model_output(steps=s) for s in per])
      done = M.set_time_metrics_duration({'m': m}, dur)['m']
      c.close(done.compute(), sum(per) / dur, 'metric:steps-per-time', **det)
      d2 = M.set_time_metrics_duration(M.set_step_metrics_num_steps({'m': m}, steps), dur)['m']
      c.close(d2.compute(), steps / dur, 'metric:steps-per-time-set', steps=steps, dur=dur)
      d3 = M.set_step_metrics_num_steps(M.set_time_metrics_duration({'m': m}, dur), steps)['m']
      c.close(d3.compute(), steps / dur, 'metric:steps-per-time-order', steps=steps, dur=dur)
      c.close(M.Step(steps=steps).compute(), steps, 'metric:step')
    else:  # examples, not parts, decide an accuracy; reduce over a leading host axis
      y = rng.integers(0, 3, n); lg = rng.standard_normal((n, 3)).astype(np.float32); w = rng.integers(0, 2, n).astype(np.float32)
      w[0] = 1
      acc = merge_tree([clu.metrics.Accuracy.from_model_output(logits=jnp.asarray(lg[p]), labels=jnp.asarray(y[p]), mask=jnp.asarray(w[p])) for p in nonempty])
      c.close(acc.compute(), ((lg.argmax(-1) == y) * w).sum() / w.sum(), 'metric:accuracy', rtol=1e-4, **det)
      hosts = jax.tree.map(lambda *a: jnp.stack(a), *[M.Sum.from_model_output(jnp.asarray(x[p])) for p in ps]) if len(ps) > 1 else None
      if hosts is not None:
        c.close(hosts.reduce().compute(), x.sum(dtype=np.float64), 'metric:reduce', rtol=1e-3, atol=1e-3, **det)
      hosts = jax.tree.map(lambda *a: jnp.stack(a), *[M.AveragePerStep.from_model_output(jnp.asarray(x[p]), steps=jnp.asarray(2)) for p in ps]) if len(ps) > 1 else None
      if hosts is not None:
        c.close(hosts.reduce().compute(), x.sum(dtype=np.float64) / (2 * len(ps)), 'metric:reduce-avg', rtol=1e-3, atol=1e-3, **det)
    c.event('merged_' + kind); c.case((kind, x.tobytes(), tuple(len(p) for p in ps)), len(ps) > 1, det)

def helpers():
  for _ in range(c.n(20, 100)):
    d = {('m%d' % i): float(rng.standard_normal()) for i in range(int(rng.integers(0, 6)))}
    m = M.create_metrics_dict(d)
    c.check(set(m) == set(d), 'metric:create-names', got=list(m), want=list(d))
    for k in d: c.close(m[k].compute(), d[k], 'metric:create-value')
    mix = {'a': M.Sum.from_model_output(jnp.ones((2, 2))), 'b': M.AveragePerStep.from_model_output(jnp.ones(3)), 'c': M.TimeRate.from_model_output(jnp.ones(())), 'd': M.Time(), 'e': M.StepsPerTime.from_model_output()}
    shp = jax.eval_shape(lambda: {'a': mix['a'], 'b': mix['b'], 'c': mix['c']})
    for k, v in shp.items():
      z = M.shape_obj_to_defined_obj(v)
      c.check(type(z) is type(mix[k]), 'metric:zero-type')
      for a, b in zip(jax.tree.leaves(z), jax.tree.leaves(v)):
        c.check(a.shape == b.shape and a.dtype == b.dtype and not np.any(np.asarray(a)), 'metric:zero-leaves', k=k)
    c.check([M.is_time_metric(mix[k]) for k in 'abcde'] == [False, False, True, True, True] and all(M.is_metric_obj(x) for x in mix.values()) and not M.is_metric_obj(3.0), 'metric:kind-tests')
    c.case(('help', tuple(d)), len(d) > 1)

c.section('splits', splits); c.section('helpers', helpers)
for k in ('sum', 'avg', 'rate', 'spt', 'sum2d', 'timeavg'): c.need('merged_' + k, 20)
c.finish()
