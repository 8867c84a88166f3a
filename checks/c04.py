import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=2'
import vlib, t5xshim
import math
import numpy as np
import tensorflow as tf
import ckptlib as K
from t5x import checkpoints, checkpoint_utils
c = vlib.Check('C04', rule='random histories of saves and metric reports (ties, NaN, infinities, missing, late and repeated values) for both directions, limits, keep periods, pins and restarts; '
  'the retained set is compared with the definition after every save; distinct by history; non-trivial = a removal had to choose by metric')
rng = c.rng
P1 = K.part((1, 1))
NAMES = [('train', 'accuracy'), ('inference_eval/glue_cola_v002', 'eval/accuracy'), ('training_eval/task', 'loss'), ('a/b', 'c/d/e')]
NOISE = [('train', 'loss'), ('other', 'accuracy'), ('train2', 'accuracy'), ('inference_eval/glue_cola', 'eval/accuracy'), ('training_eval/task', 'loss/z')]

def history(i):
  d = c.dir('h')
  base = K.make_state(rng, {'w': ((2,), np.float32, ('nul',))}, 'sgd')
  run, tag = NAMES[int(rng.integers(0, len(NAMES)))]
  mode = str(rng.choice(['max', 'min'])); keep = [1, 2, 3, None, 0][int(rng.choice(5, p=[.35, .3, .25, .05, .05]))]
  keep_without = bool(rng.random() < .5); period = [None, None, 2, 5][int(rng.integers(0, 4))]
  style = str(rng.choice(['float', 'ties', 'special']))
  writers = {}
  def report(r, t, v, s):
    if r not in writers: writers[r] = tf.summary.create_file_writer(os.path.join(d, r))
    with writers[r].as_default(): tf.summary.scalar(t, v, step=s)
    writers[r].flush()
  def value():
    if style == 'float': return float(np.float32(rng.standard_normal()))
    if style == 'ties': return float(rng.integers(0, 3))
    return [float(rng.integers(0, 4)), math.nan, math.inf, -math.inf, float(rng.standard_normal())][int(rng.choice(5, p=[.4, .25, .08, .07, .2]))]
  ck = None; on, pinned, metric, log = set(), set(), {}, []
  nxt = 0; chose = False; lag = bool(rng.random() < .5); drop = [0, .2, .5][int(rng.integers(0, 3))]
  if rng.random() < .3: drop = 1
  for j in range(int(rng.integers(6, 14))):
    if ck is None or rng.random() < .1:
      ck = checkpoints.SaveBestCheckpointer(base, P1, d, keep=keep, metric_name_to_monitor=run + '/' + tag, metric_mode=mode, keep_checkpoints_without_metrics=keep_without, force_keep_period=period)
    if rng.random() < .15 and on:
      s = int(rng.choice(sorted(on))); checkpoint_utils.pin_checkpoint(os.path.join(d, 'checkpoint_%d' % s)); pinned.add(s); log.append(('pin', s))
    s = nxt + int(rng.integers(0, 3)); nxt = s + 1
    if rng.random() < .08 and on: s = int(rng.integers(0, max(on) + 1))
    def rep(s):
      if rng.random() >= drop:
        v = value(); report(run, tag, v, s); metric[s] = float(np.float32(v)); log.append(('metric', s, v)); c.event('metrics')
        if rng.random() < .1: v = value(); report(run, tag, v, s); metric[s] = float(np.float32(v)); log.append(('metric', s, v)); c.event('repeated-metric')
    if not lag: rep(s)
    if rng.random() < .4:
      r, t = NOISE[int(rng.integers(0, len(NOISE)))]
      if (r, t) != (run, tag) and not run.startswith(r + '/'): report(r, t, value(), s); c.event('noise')
    was = set(on)
    ok, _ = c.attempt('save', ck.save, K.place(K.refill(rng, base, s), P1, 'single'))
    if not ok: return
    log.append(('save', s)); c.event('saves')
    on.add(s)
    got = set(int(x) for x in checkpoints.all_steps(d))
    det = dict(mode=mode, keep=keep, keep_without_metrics=keep_without, force_keep_period=period, log=log[-30:], before=sorted(on), got=sorted(got), pinned=sorted(pinned))
    c.check({n for n in os.listdir(d) if n.startswith('checkpoint')} == {'checkpoint_%d' % q for q in got}, 'leftovers', **det)
    removed = on - got
    if not c.check(got <= on, 'invented', **det): return
    if s in was: want_n = 0; cand = []
    else:
      latest = max(on)
      free = [q for q in sorted(on) if q != latest and not (period and q % period == 0)]
      cand = [q for q in free if q in metric] if keep_without else free
      want_n = 0 if not keep or len(free) + 1 <= keep + 1 else max(0, len(cand) - keep)
    worst = -math.inf if mode == 'max' else math.inf
    def score(q):
      v = metric.get(q, math.nan)
      v = worst if math.isnan(v) else v
      return v if mode == 'max' else -v
    if not c.check(max(on) in got, 'latest-removed', **det): return
    if not c.check(removed <= set(cand), 'protected-removed', removed=sorted(removed), candidates=cand, **det): return
    if not c.check(not (removed & pinned), 'pinned-removed', **det): return
    rank = sorted(cand, key=score)
    # Pinned ones among the worst stay, and nothing else is taken instead.
    if want_n:
      c.event('removals', len(removed)); chose = chose or len({score(q) for q in cand}) > 1
      cut = score(rank[want_n - 1])
      must = {q for q in cand if score(q) < cut} - pinned
      may = {q for q in cand if score(q) <= cut} - pinned
      if any(math.isnan(metric.get(q, 0)) for q in cand): c.event('nan-choices')
      if not c.check(must <= removed <= may, 'wrong-choice', removed=sorted(removed), must=sorted(must), may=sorted(may), scores={q: metric.get(q) for q in cand}, **det): return
      lo, hi = want_n - len(pinned & set(cand)), want_n
      if not c.check(lo <= len(removed) <= hi, 'wrong-number', removed=sorted(removed), want=want_n, **det): return
      # Without any usable metric the oldest go first.
      if all(score(q) == score(cand[0]) for q in cand) and not pinned:
        c.check(removed == set(cand[:want_n]), 'oldest-first', removed=sorted(removed), want=cand[:want_n], **det); c.event('oldest-first')
    else: 
      if not c.check(not removed, 'removed-within-limit', removed=sorted(removed), **det): return
    on = got
    if lag: rep(s)
    if rng.random() < .15 and on: rep(int(rng.choice(sorted(on))))
  c.case(str(log), chose, dict(mode=mode, keep=keep, log=[str(x) for x in log[:8]]))
  for w in writers.values(): w.close()
  c.drop(d)

def rejects():
  base = K.make_state(rng, {'w': ((2,), np.float32, ('nul',))}, 'sgd')
  for m in ('MAX', 'best', ''):
    try: checkpoints.SaveBestCheckpointer(base, P1, c.dir(), keep=1, metric_mode=m); c.violation('accepted-mode')
    except ValueError: c.event('rejected')

for i in range(c.n(150, 3000)):
  if c.out_of_time(.9): break
  c.section('history', history, i)
c.section('rejects', rejects)
c.need('removals', 150); c.need('nan-choices', 10); c.need('oldest-first', 5); c.need('rejected', 3); c.need('noise', 50); c.need('repeated-metric', 10)
c.finish()
