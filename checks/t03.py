import vlib, t5xshim
import os
import numpy as np
import jax
import looplib as LL, trainlib as TL
from t5x import trainer as trainer_lib, utils
c = vlib.Check('T03', rule='whole train.train runs over random totals, periods, explicit checkpoint steps, evaluation and statistics periods, start steps, '
  'stops and preemptions, both checkpoint back ends; distinct by configuration; non-trivial = at least two of the features active')
rng = c.rng
TL.record_writers([])
BS = LL.stream(c.seed)
EV = {'a': LL.stream(c.seed + 100, 2), 'b': LL.stream(c.seed + 200, 1)}
LR = lambda t: 0.05 / (1.0 + t)

def config():
  p = int(rng.integers(1, 6)); mult = int(rng.integers(1, 4))
  mode = rng.integers(0, 5)
  period, ep = [(p, p * mult), (p * mult, p), (p, 0), (0, p), (p, p)][mode]
  total = int(rng.integers(1, 15))
  steps = sorted(int(x) for x in rng.permutation(np.arange(1, total + 3))[:int(rng.integers(1, 5))]) if rng.random() < .5 else None
  sp = int(rng.integers(1, 5)) if rng.random() < .6 else None
  gc = int(rng.choice([0, 0, 0, max(period, ep)])) or 0
  return period or None, ep, total, steps, sp, gc

def saved_steps(first, end, period, steps, stop=None):
  """Checkpoint steps a run that reaches `end` owes (excluding a stop's own checkpoint)."""
  out = set()
  if period:
    out |= {first, *range(first, end + 1, period)}
    if stop is None: out.add(end)
  out |= {s for s in steps or () if first < s <= end}
  return out

def verify_trace(log, first, end, sp, lo):
  t = [e for e in log[lo:] if e[0] == 'train']
  at = first
  for e in t:
    c.check(e[1] == at and e[2] == at + e[3] and e[3] > 0 and e[4] in (None, e[1]), 'steps-skipped-or-repeated', at=at, call=e)
    c.check(sp is None or e[3] <= sp, 'statistics-period-exceeded', call=e, stats_period=sp)
    at = e[2]
  c.check(at == end, 'wrong-last-step', got=at, want=end)
  c.event('train-calls', len(t))
  return t

def runs():
  for i in range(c.n(40, 600)):
    if c.out_of_time(.8): break
    period, ep, total, steps, sp, gc = config()
    orb = bool(rng.random() < .5); n_mb = [None, 2][int(rng.integers(0, 2))]
    d = c.dir(); log = []; first = 0; w = {}
    save = LL.save_config(period=period, checkpoint_steps=steps)
    before_train = bool(rng.random() < .25)
    restarts = int(rng.integers(0, 2)) if period or steps else 0
    kind = ['none', 'none', 'preempt', 'stop'][int(rng.integers(0, 4))]
    stop_at = int(rng.integers(0, total))
    det = dict(period=period, eval_period=ep, total=total, explicit=steps, stats_period=sp, gc=gc, orbax=orb, kind=kind, stop_at=stop_at, restarts=restarts)
    def before(tr, s, n):
      w.setdefault(s, np.array(tr.train_state.params['w']))
      if kind == 'preempt' and s >= stop_at and not w.get('preempted'):
        w['preempted'] = s + 1
        raise trainer_lib.PreemptionError('preempted')
    def after(tr, s, e):
      w[e] = np.array(tr.train_state.params['w'])
      if kind == 'stop' and not w.get('stopped') and e >= max(1, stop_at):
        w['stopped'] = e
    class Ask(trainer_lib.BaseAction):
      def run(self, state, metrics_by_task):
        if w.get('stopped') and not w.get('stop-done'):
          w['stop-done'] = True
          return True
        return False
    act = {'TRAIN': [Ask()]} if kind == 'stop' else None
    on_disk = set()
    target = total
    for life in range(1 + restarts + (kind == 'preempt') + (kind == 'stop')):
      lo = len(log); end = None
      if life and kind == 'none' and rng.random() < .5:
        target = total + int(rng.integers(0, 6))
      relative = int(rng.integers(1, 6)) if life and rng.random() < .2 and kind == 'none' else None
      c.event('relative-runs', int(relative is not None))
      try:
        end, state = LL.run(d, BS, target, log, save=save, before=before, after=after, use_orbax=orb, eval_period=ep, evals=EV if ep else None,
                            actions=act, stats_period=sp, n_mb=n_mb, gc_period=gc, run_eval_before_training=before_train, relative_steps=relative)
      except trainer_lib.PreemptionError:
        state = None
      LL.settle(d)
      tr = [e for e in log[lo:] if e[0] == 'train']
      reached = tr[-1][2] if tr else first
      stopped = bool(w.get('stopped')) and w.get('stopped') == reached and bool(tr)
      pre = state is None
      if pre:
        c.event('preemptions')
        want_end = w['preempted'] - 1
      elif stopped and reached < target:
        c.event('stops'); want_end = w['stopped']
      else:
        want_end = first + relative if relative else target
        c.check(end == want_end and int(state.step) == want_end, 'returned-step', got=end, state=int(state.step), want=want_end, **det)
      verify_trace(log, first, want_end, sp, lo)
      must = saved_steps(first, want_end, period, steps, stop=pre or (stopped and want_end < target) or None) if want_end > first or period else set()
      if period and (pre or (stopped and want_end < target)):
        spe = min(x for x in (ep, period, gc) if x)
        boundary = (want_end - first) % spe == 0
        # A preemption always leaves a checkpoint; a stop does unless it falls on an epoch boundary.
        if pre or not boundary: must.add(want_end)
      have = set(LL.committed(d))
      c.check(must <= have - set() and must <= have, 'missing-checkpoint', missing=sorted(must - have), have=sorted(have), first=first, **det)
      extra = have - on_disk - must
      if stopped and period: extra -= {want_end}
      c.check(not extra, 'unexpected-checkpoint', extra=sorted(extra), first=first, **det)
      c.check(on_disk <= have, 'earlier-checkpoint-gone', have=sorted(have), before=sorted(on_disk), **det)
      for s in sorted(have - on_disk):
        ck = LL.read_checkpoint(os.path.join(d, 'checkpoint_%d' % s))
        c.check(int(ck['state']['step']) == s, 'checkpoint-holds-other-step', name=s, got=int(ck['state']['step']), **det)
        if s in w: c.equal(ck['target']['w'], w[s], 'checkpoint-holds-other-parameters', step=s, **det)
        c.event('checkpoints')
      on_disk |= have
      # Evaluations: with the parameters of each boundary.
      ev = [e for e in log[lo:] if e[0] == 'eval']
      if ep:
        want = [first] if before_train else []
        if not pre or want_end > first:
          want += list(range(first + ep, want_end + 1, ep))
        if not pre and want_end > first and (want_end - first) % ep and not (stopped and want_end < target): want.append(want_end)
        got = [e[1] for e in ev]
        if stopped and want_end < target and got and got[-1] == want_end and got[:-1] == want: want = got
        if pre and got and got != want and got == want[:-1] and want[-1] == want_end: want = got
        c.check(got == want, 'evaluation-boundaries', got=got, want=want, first=first, **det)
        for e in ev:
          c.check(e[2] == ['a', 'b'] and e[3], 'evaluation-changed-state', call=e, **det)
          if e[1] in w:
            for name in e[2]:
              wl = float(np.mean([TL.ref_step(w[e[1]].astype(np.float64), b, 0.)[2] / LL.B for b in EV[name]]))
              c.close(e[4][name], wl, 'evaluated-other-parameters', rtol=1e-4, atol=1e-5, step=e[1], **det)
          c.event('evaluations-observed')
      else:
        c.check(not ev, 'unrequested-evaluation', got=ev, **det)
      committed = sorted(have)
      first = committed[-1] if committed else 0
      c.event('lifetimes')
      if target < first: break
    c.case(tuple(sorted((k, str(v)) for k, v in det.items())), bool(period or steps) + bool(ep) + (sp is not None) + (kind != 'none') > 1, det)
    c.drop(d)

def rejects():
  """Incommensurate periods are refused up front."""
  for period, ep in ((2, 3), (3, 4), (4, 6), (5, 2)):
    d = c.dir(); log = []
    try:
      LL.run(d, BS, 12, log, save=LL.save_config(period=period), eval_period=ep, evals=EV)
      c.violation('incommensurate-periods-accepted', period=period, eval_period=ep)
    except ValueError:
      c.check(not log, 'trained-before-rejecting', log=log)
      c.event('rejected')
    c.drop(d)
  d = c.dir(); log = []
  LL.run(d, BS, 4, log, save=LL.save_config(period=2))
  n = len(log)
  try:
    LL.run(d, BS, 3, log, save=LL.save_config(period=2))
    c.violation('total-below-checkpoint-accepted')
  except ValueError:
    c.event('rejected')
  c.check(len(log) == n, 'trained-backwards', log=log)
  end, _ = LL.run(d, BS, 4, log, save=LL.save_config(period=2))
  c.check(end == 4 and len(log) == n, 'trained-beyond-total', end=end, log=log)

for name, fn in (('runs', runs), ('rejects', rejects)):
  c.section(name, fn)
for e, n in (('lifetimes', 30), ('train-calls', 60), ('checkpoints', 60), ('evaluations-observed', 20), ('preemptions', 3), ('stops', 2), ('rejected', 5)):
  c.need(e, n)
c.finish()
