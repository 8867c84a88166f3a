import vlib, t5xshim
import os
import numpy as np
import jax, jax.numpy as jnp
import clu.values
import looplib as LL, trainlib as TL
from t5x import train as train_lib, trainer as T, utils
c = vlib.Check('T04', rule='random metric histories x patience, tolerances and direction fed to the real actions call by call; scripted actions in whole '
  'training runs; distinct by settings and history; non-trivial = a stop was due or narrowly not due')
rng = c.rng
TL.record_writers([])

def wrap(v, kind):
  return {'scalar': lambda: clu.values.Scalar(v), 'jnp': lambda: clu.values.Scalar(jnp.asarray(v, jnp.float32)), 'np': lambda: clu.values.Scalar(np.float32(v)),
          'float': lambda: float(v), 'np64': lambda: np.float64(v)}[kind]()

def early():
  for i in range(c.n(400, 5000)):
    mode = ['min', 'max'][i % 2]; patience = int(rng.integers(2, 6))
    atol = float(rng.choice([0, 0, .25, .5, 1.0])); rtol = float(rng.choice([0, 0, .125, .5]))
    kind = str(rng.choice(['scalar', 'jnp', 'np', 'float', 'np64']))
    a = T.EarlyStoppingAction(metric=('task', 'm'), mode=mode, patience=patience, atol=atol, rtol=rtol)
    hist = []; drift = float(rng.choice([-1, 0, 0, 1])); v = float(rng.integers(-40, 40)) / 8
    sign = -1 if mode == 'min' else 1
    for t in range(12):
      # Dyadic values: all comparisons are exact in single precision.
      base = hist[-1] if hist else v
      delta = atol + rtol * abs(base)
      v = base + float(rng.choice([drift, 0.0, sign * delta, sign * (delta + 1 / 1024), sign * (delta - 1 / 1024), -sign * .5, 1 / 8, -1 / 8]))
      v = float(np.round(v * 4096) / 4096)
      if abs(v) > 60: v = 0.0
      r = rng.random()
      if r < .12:
        # Evaluations that do not carry the metric neither stop the run nor enter the history.
        junk = [{}, {'other': {'m': wrap(v, kind)}}, {'task': {}}, {'task': {'M': wrap(v, kind)}}, {'task': {'m': clu.values.Text('x')}}, {'task': {'m': None}}][int(rng.integers(0, 6))]
        got = a.run(None, junk)
        c.check(got is False or got == False, 'stop-without-metric', metrics=repr(junk)[:200], history=hist)  # noqa
        c.event('missing-metric'); continue
      got = bool(a.run(None, {'task': {'m': wrap(v, kind), 'n': clu.values.Scalar(0.)}, 'task2': {'m': clu.values.Scalar(-v)}}))
      hist.append(v)
      w = hist[-patience:]
      def worse(p, q):
        d = atol + rtol * abs(p)
        return q >= p - d if mode == 'min' else q <= p + d
      flags = [worse(p, q) for p, q in zip(w, w[1:])]
      want = len(w) == patience and all(flags)
      c.check(got == want, 'stop-too-early' if got else 'stop-missed', history=hist, patience=patience, atol=atol, rtol=rtol, mode=mode, kind=kind)
      c.event('stop-due', int(want)); c.event('narrowly-not-due', int(len(w) == patience and sum(flags) == patience - 2))
      c.event('decisions')
      if got or want: break
    c.case(('e', mode, patience, atol, rtol, tuple(hist)), True, dict(mode=mode, patience=patience, history=hist[:6]))
  for kw in (dict(mode='mean'), dict(mode='min', atol=-.1), dict(mode='max', rtol=-1e-9)):
    try:
      T.EarlyStoppingAction(metric=('a', 'b'), **kw); c.violation('bad-configuration-accepted', **kw)
    except ValueError:
      c.event('rejected')

def nan():
  vals = [0.0, -0.0, 1.5, -2e38, 3e38, 1e-45, float('nan'), float('inf'), float('-inf')]
  for i in range(c.n(300, 3000)):
    task = str(rng.choice(['train', 'mixture.x'])); metric = str(rng.choice(['loss', 'z']))
    a = T.TerminateOnNanAction(task=task, metric=metric) if metric != 'loss' or i % 2 else T.TerminateOnNanAction(task)
    for t in range(4):
      v = vals[int(rng.integers(0, len(vals)))]
      kind = str(rng.choice(['scalar', 'jnp', 'np']))
      m = {task: {metric: wrap(v, kind), 'other': clu.values.Scalar(float('nan'))}, 'else': {metric: clu.values.Scalar(float('nan'))}}
      got = bool(a.run(None, m))
      c.check(got == (not np.isfinite(v)), 'nan-stop', value=v, got=got, kind=kind)
      c.event('stop-due', int(not np.isfinite(v))); c.event('decisions')
      for junk in ({}, {'else': {metric: clu.values.Scalar(float('nan'))}}, {task: {'other': clu.values.Scalar(float('nan'))}}):
        c.check(not a.run(None, junk), 'stop-without-metric', metrics=repr(junk))
        c.event('missing-metric')
      c.case(('n', task, metric, repr(v), kind))

class Script(T.BaseAction):
  """Requests a stop at the given states; logs every invocation."""

  def __init__(self, at, log, name):
    self.at, self.log, self.name = at, log, name

  def run(self, train_state, metrics_by_task):
    s = int(train_state.step)
    self.log.append((self.name, s, sorted(metrics_by_task)))
    return s in self.at

def dispatch():
  """run_actions: every action of the mode runs, any of them can stop."""
  class St:
    step = 3
  modes = list(T.ActionMode)
  for i in range(c.n(60, 400)):
    log = []; acts = {}
    for m in modes:
      if rng.random() < .7:
        acts[m] = [Script({3} if rng.random() < .3 else set(), log, (m.name, j)) for j in range(int(rng.integers(0, 4)))]
    m = modes[int(rng.integers(0, 3))]
    got = train_lib.run_actions(m, acts, St, {'a': {}})
    want = any(3 in a.at for a in acts.get(m, []))
    c.check(got is want, 'dispatch-result', got=got, want=want)
    c.check([x[0] for x in log] == [(m.name, j) for j in range(len(acts.get(m, [])))], 'dispatch-actions', log=log)
    c.event('dispatches'); c.case(('dispatch', i))

def loop():
  """A requested stop ends the run at that step, whichever phase requested it and whatever runs afterwards."""
  bs = LL.stream(3); ev = {'a': bs[:1]}
  for i in range(c.n(20, 200)):
    if c.out_of_time(.8): break
    sp = int(rng.integers(1, 4)); ep = int(rng.choice([0, 2, 3, 4])); period = int(ep * rng.integers(1, 3)) if ep else int(rng.integers(1, 5))
    total = int(rng.integers(6, 14)); orb = bool(i % 2)
    spe = min(ep or 99, period)
    # Steps at which each phase runs.
    tr, s = [], 0
    while s < total:
      e = min(total, (s // spe + 1) * spe); s = min(e, s + sp); tr.append(s)
    evs = [x for x in range(1, total + 1) if ep and (x % ep == 0 or x == total)]
    by = {'TRAIN': tr, 'TRAIN_EVAL': evs}
    mode = 'TRAIN' if not evs or rng.random() < .6 else 'TRAIN_EVAL'
    at = int(by[mode][int(rng.integers(0, len(by[mode])))])
    log = []; acts = {m: [Script({at} if m == mode else set(), log, m), Script(set(), log, m + '2')] for m in (['TRAIN', 'TRAIN_EVAL'] if rng.random() < .6 else [mode])}
    det = dict(stats_period=sp, eval_period=ep, period=period, total=total, mode=mode, at=at, orbax=orb, modes=sorted(acts))
    d = c.dir(); tl = []
    end, state = LL.run(d, bs, total, tl, save=LL.save_config(period=period), eval_period=ep, evals=ev if ep else None, stats_period=sp, actions=acts, use_orbax=orb)
    LL.settle()
    c.check(end == at and int(state.step) == at, 'stop-not-honoured', got=end, **det)
    seen = [(n, s) for n, s, _ in log if not n.endswith('2')]
    want = [('TRAIN', s) for s in tr if s <= at and 'TRAIN' in acts] + [('TRAIN_EVAL', s) for s in evs if s <= at and 'TRAIN_EVAL' in acts]
    # An evaluation of a step where training itself was stopped mid-epoch may or may not follow.
    extra = [x for x in seen if x not in want]; missing = [x for x in want if x not in seen]
    c.check(not [x for x in missing if x[1] != at] and not [x for x in extra if x[1] != at], 'action-invocations', missing=missing, extra=extra, **det)
    for n, s, tasks in log:
      c.check(tasks == (['train'] if n.startswith('TRAIN') and not n.startswith('TRAIN_EVAL') else ['a']), 'action-metrics', phase=n, tasks=tasks)
    c.event('loop-stops', int(at < total)); c.event('runs')
    c.case(tuple(map(str, det.values())), at < total)
    c.drop(d)
  # Real actions in the real loop.
  for orb in (False, True):
    d = c.dir(); tl = []
    # A loss that diverges: learning rate huge -> NaN/Inf.
    end, state = LL.run(d, bs, 30, tl, save=LL.save_config(period=30), stats_period=1, use_orbax=orb, lr=lambda s: jnp.where(s >= 3, 1e30, 1e-3),
                        actions={'TRAIN': [T.TerminateOnNanAction('train')]})
    LL.settle()
    bad = [e[2] for e in tl if e[0] == 'train'][-1]
    w = np.asarray(state.params['w'])
    c.check(end == bad < 12, 'nan-loss-does-not-stop', end=end)
    c.check(not np.isfinite(w).all() or np.abs(w).max() > 1e18, 'stopped-on-finite-loss', w=w)
    d2 = c.dir(); tl = []
    end, state = LL.run(d2, bs, 20, tl, save=LL.save_config(period=20), stats_period=1, eval_period=2, evals=ev, use_orbax=orb, lr=lambda s: jnp.zeros(()),
                        actions={'TRAIN_EVAL': [T.EarlyStoppingAction(('a', 'loss'), 'min', patience=3)]})
    LL.settle()
    c.check(end == 6, 'early-stopping-in-loop', end=end)
    c.event('real-action-runs', 2)

for name, fn in (('early', early), ('nan', nan), ('dispatch', dispatch), ('loop', loop)):
  c.section(name, fn)
for e, n in (('decisions', 2000), ('stop-due', 200), ('narrowly-not-due', 50), ('missing-metric', 300), ('loop-stops', 8), ('runs', 15), ('real-action-runs', 4), ('rejected', 3), ('dispatches', 50)):
  c.need(e, n)
c.finish()
