import fsfault; fsfault.ensure()
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import shards
c = shards.run('E01', rule='one case = one run of the evaluation job over checkpoints whose parameters identify them (mode all, latest or specific; legacy and Orbax restore; one or two directories; awkward names), perhaps dying or failing at a '
  'file-system operation, with checkpoints appearing between runs; distinct by (configuration, history, fault)', quick=8, thorough=40, stall=300, parallel=8,
  needs=[('evaluations', 150), ('faults-hit', 25), ('restarts', 40), ('skipped', 30), ('new-checkpoints', 8), ('train-evals', 20), ('mode-latest', 2), ('mode-specific', 2), ('op-fopen', 3)])
import vlib, t5xshim
import functools, gc, glob, json, shutil, time, zlib
import numpy as np
import jax, jax.numpy as jnp, seqio
import inferjob as J
import clu.metrics
import tensorflow as tf
from tensorflow.core.util import event_pb2
from t5x import eval as eval_lib, metrics as mlib, trainer as trainer_lib, utils
rng = c.rng

LOG = []   # (kind, task, step, metrics) of everything that was reported

class Spy(seqio.Logger if hasattr(seqio, 'Logger') else object):
  """A metrics logger as a user would register one."""
  def __init__(self, output_dir): self.output_dir = output_dir
  def __call__(self, task_name, step, metrics, dataset=None, inferences=None, targets=None):
    vals = {k: float(v.value if hasattr(v, 'value') else v) for k, v in metrics.items()}
    os.makedirs(self.output_dir, exist_ok=True)
    with open(os.path.join(self.output_dir, 'spy.jsonl'), 'a') as f: f.write(json.dumps([task_name, int(step), vals]) + '\n')
    LOG.append(('infer', task_name, int(step), vals))

class Trainer(trainer_lib.Trainer):
  def eval(self, batch_iters):
    step = int(self.train_state.step); res = super().eval(batch_iters)
    for task, m in res.items():
      m = m.result() if hasattr(m, 'result') else m
      LOG.append(('train', task, step, {k: float(np.asarray(v.value if hasattr(v, 'value') else v)) for k, v in m.items()}))
    return res

DELAY = [0.0]
from clu.metric_writers.tf import summary_writer as _sw
def _slow(f):
  def g(*a, **k):
    if DELAY[0]: time.sleep(DELAY[0]); c.event('slow-writes')
    return f(*a, **k)
  return g
_sw.SummaryWriter.write_scalars = _slow(_sw.SummaryWriter.write_scalars)

class Model(J.Model):
  def loss_fn(self, params, batch, dropout_rng=None, flax_mutables=None):
    s = params['w'][0] * 1000 + params['w'][1]
    return s, {'w': mlib.AveragePerStep.from_model_output(s, steps=1), 'rows': clu.metrics.Average.from_model_output((batch['encoder_input_tokens'] > 0).any(-1).sum())}
  def eval_fn(self, params, batch, flax_mutables=None): return self.loss_fn(params, batch, None)

def crc(xs): return float(zlib.crc32('\n'.join(xs).encode()) & 0xffffff)
def m_pred(targets, predictions): return {'crc': crc(predictions), 'n': len(predictions), 'targets': crc(targets)}
def m_score(targets, scores): return {'sum': float(np.sum(np.array(scores, np.float64)))}

class Scenario:
  def __init__(self, i):
    self.d = c.dir('e01'); self.mp = int(rng.choice([1, 2, 4])); self.part = J.partitioner(self.mp); self.n = int(rng.integers(1, 14)); self.ins, self.tgts = J.text(rng, self.n), J.text(rng, self.n)
    pre = [functools.partial(seqio.preprocessors.rekey, key_map={'inputs': 'i', 'targets': 't'}), seqio.preprocessors.tokenize, seqio.preprocessors.append_eos]
    self.task = 'e%d_%d' % (os.getpid(), i); self.both = bool(rng.random() < .6); self.slow = float(rng.choice([0, 0, .8]))
    fn = lambda split, shuffle_files, seed=None: tf.data.Dataset.from_tensor_slices({'i': self.ins, 't': self.tgts})
    seqio.TaskRegistry.add(self.task, source=seqio.FunctionDataSource(dataset_fn=fn, splits=['validation'], num_input_examples={'validation': self.n}), preprocessors=pre, output_features=J.FEATURES, metric_fns=[m_pred] + ([m_score] if self.both else []))
    # Steps of which one begins another, as path names do.
    pool = [1, 10, 12, 100, 123, 1000, 2, 20, 3, 0, 5, 50]; rng.shuffle(pool); k = int(rng.integers(2, 6))
    self.dirs = [os.path.join(self.d, ['ck', 'my checkpoints', 'ck[a]', 'ck'][int(rng.integers(0, 4))])]; self.w = {}
    if rng.random() < .2: self.dirs.append(os.path.join(self.d, 'second'))
    self.later = pool[k:k + 2]
    for q, s in enumerate(pool[:k]): self.save(self.dirs[q % len(self.dirs)], s)
    self.slash = bool(rng.random() < .2); self.orbax = bool(rng.random() < .5); self.train = bool(rng.random() < .5); self.batch = 4 // self.mp * int(rng.integers(1, 3))
    self.desc = dict(dirs=[os.path.basename(x) for x in self.dirs], saved=sorted(pool[:k]), orbax=self.orbax, train=self.train, slash=self.slash, n=self.n, batch=self.batch, mp=self.mp, both=self.both, slow=self.slow)

  def save(self, d, step):
    w = [float(rng.integers(0, 26)), float(rng.integers(1, 100))]; p = J.save_checkpoint(d, step, w, self.part); self.w[p] = (step, w)

  def want(self, w):
    out = {}; rows = [J.expect(a, b, 'predict_with_aux', w) for a, b in zip(self.ins, self.tgts)]
    out['crc'] = crc([r['prediction'] for r in rows]); out['n'] = float(self.n); out['targets'] = crc(self.tgts)
    if self.both: out['sum'] = float(sum(r['aux']['scores'] for r in rows))
    return out

  def run(self, out, mode, path, fault=None):
    del LOG[:]
    DELAY[0] = self.slow
    def go():
      eval_lib.evaluate(model=Model(), dataset_cfg=utils.DatasetConfig(mixture_or_task_name=self.task, task_feature_lengths={'inputs': J.LI, 'targets': J.LT}, split='validation', batch_size=self.batch, shuffle=False, seed=0),
        restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=path, mode=mode), partitioner=self.part, output_dir=out, inference_evaluator_cls=functools.partial(seqio.Evaluator, logger_cls=(Spy,)),
        training_evaluator_cls=Trainer if self.train else None, train_eval_get_dataset_fn=functools.partial(utils.get_training_eval_datasets, eval_steps=2), summarize_config_fn=lambda **k: None, use_orbax=self.orbax)
    def guarded():
      try: go(); res = (True, None, None)
      except Exception as e:  # pylint: disable=broad-except
        if vlib.blame(e) == 'verif' and fault is None: raise
        res = (False, why(e), None); e.__traceback__ = None; e.__context__ = None
      # What died writes nothing more.
      gc.collect(); c.event('writers-left', sum(isinstance(o, trainer_lib.MetricsManager) for o in gc.get_objects())) if self.train and rng.random() < .2 else None
      return res
    if fault is None: res = guarded()
    else:
      with fault: res = guarded()
    return res[0], res[1], list(LOG)

  def written(self, out):
    """Training metrics in the event files: step -> value."""
    got = {}
    for f in glob.glob(os.path.join(glob.escape(out), 'training_eval', '*', 'events*')):
      try:
        for rec in tf.data.TFRecordDataset(f).as_numpy_iterator():
          ev = event_pb2.Event.FromString(rec)
          for v in ev.summary.value:
            if v.tag.split('/')[-1] == 'w': got.setdefault(ev.step, []).append(float(tf.make_ndarray(v.tensor)) if v.HasField('tensor') else v.simple_value)
      except tf.errors.DataLossError: pass   # cut short by the crash
    return got

  def record(self, out):
    p = os.path.join(out, 'eval.%s.ckpt' % self.task)
    if not os.path.exists(p): return None
    with open(p) as f: return [x for x in f.read().splitlines() if x]

  def judge(self, tag, log, det):
    """Every reported metric is that of the checkpoint of its step; returns the steps in order."""
    by = {s: w for s, w in self.w.values()}; steps = []
    for kind, task, step, vals in log:
      if not c.check(step in by, tag + ':unknown-step', step=step, **det): continue
      if kind == 'infer':
        steps.append(step); c.event('evaluations'); want = self.want(by[step])
        c.check(set(vals) == set(want) and all(abs(vals[k] - want[k]) <= 1e-6 * abs(want[k]) for k in want), tag + ':metrics-of-another-checkpoint', step=step, got=vals, want=want, **det)
      else:
        c.event('train-evals'); w = by[step]; g = [v for k, v in vals.items() if k == 'w' or k.endswith('/w')]
        c.check(bool(g) and abs(g[0] - (w[0] * 1000 + w[1])) < .5, tag + ':training-metrics', step=step, got=vals, want=w, **det)
    return steps

def why(e):
  import traceback
  return repr(e)[:300] + str(e)[:2000] + ' | ' + ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-9:]))

def norm(p): return os.path.normpath(p)

def history_all(s, i):
  path = [d + '/' * s.slash for d in s.dirs]; path = path[0] if len(path) == 1 and rng.random() < .7 else path
  out = os.path.join(s.d, ['out', 'out put'][int(rng.integers(0, 2))] + '%d' % int(rng.integers(1 << 30))); os.makedirs(out)
  done = set(); det = dict(s.desc, mode='all', history=[])
  for turn in range(int(rng.integers(2, 5))):
    rec = s.record(out); rec_set = {norm(x) for x in rec or []}
    fault = None
    if turn < 3 and rng.random() < .75:
      kind = fsfault.DEAD if s.slow else [fsfault.DEAD, fsfault.DEAD, fsfault.ERROR][int(rng.integers(0, 3))]; at = len(s.log)
      recs = [q + z for q, l in enumerate(s.log) if '.ckpt' in l for z in (0, 1)]
      k = int(rng.integers(0, at)) if rng.random() < .4 else int(rng.choice(recs))
      fault = fsfault.faults(out, kind, k); det['history'].append((['', 'crash', 'error'][kind], k))
    else: det['history'].append('run')
    before = dict(s.w); ok, e, log = s.run(out, 'all', path, fault)
    if fault is not None:
      c.event('faults-hit', int(fault.ops > k)); 
      if fault.ops > k and k < len(fault.log): det['history'][-1] += (fault.log[k],); c.event('op-' + fault.log[k].split(' ')[0])
    hit = fault is not None and fault.ops > k
    if not ok and not hit: c.violation('run-fails', error=e, record=rec, **det); return
    steps = s.judge('all', log, det); c.event('restarts', int(turn > 0)); new = {norm(p): st for p, (st, _) in s.w.items()}
    todo = sorted(st for p, st in new.items() if p not in rec_set)
    c.event('skipped', len(new) - len(todo))
    c.check(steps == sorted(steps) and len(set(steps)) == len(steps), 'order', steps=steps, **det)
    c.check(not (set(steps) - set(todo)), 'recorded-evaluated-again', steps=steps, todo=todo, **det)
    c.check(steps == todo[:len(steps)], 'wrong-checkpoints', steps=steps, todo=todo, **det)
    if ok and not hit: c.check(steps == todo, 'checkpoint-not-evaluated', steps=steps, todo=todo, record=rec, **det)
    if ok and hit: c.check(steps == todo, 'error-swallowed', steps=steps, todo=todo, **det)
    # The record after the run: nothing without reported metrics, nothing forgotten.
    now = s.record(out); now_set = {norm(x) for x in now or []}; done |= {p for p, st in new.items() if st in steps}
    c.check(now_set <= done, 'recorded-without-metrics', extra=sorted(now_set - done)[:4], record=now, **det)
    c.check(rec_set & set(new) <= now_set, 'record-lost', before=rec, after=now, **det)
    if s.train and not any(h[0] == 'error' for h in det['history']):   # TensorFlow ignores errors when it writes events
      got = s.written(out)
      for p in now_set:
        st, w = next(v for q, v in s.w.items() if norm(q) == p); c.event('event-file-checks')
        c.check(any(abs(x - (w[0] * 1000 + w[1])) < .5 for x in got.get(st, [])), 'recorded-without-training-metrics', step=st, got=got, record=now, **det)
    if ok and not hit: c.check(now_set == set(new), 'not-recorded', missing=sorted(set(new) - now_set)[:4], record=now, **det)
    if s.later and rng.random() < .4: s.save(s.dirs[0], s.later.pop()); c.event('new-checkpoints'); det['history'].append('new checkpoint')
  ok, e, log = s.run(out, 'all', path)   # to the end
  if not ok: c.violation('run-fails', error=e, record=s.record(out), **det); return
  rec_set = {norm(x) for x in now or []}; steps = s.judge('all', log, det); todo = sorted(st for p, (st, _) in s.w.items() if norm(p) not in rec_set); c.event('restarts'); c.event('skipped', len(s.w) - len(todo))
  c.check(steps == todo, 'checkpoint-not-evaluated' if set(todo) - set(steps) else 'recorded-evaluated-again', steps=steps, todo=todo, record=now, **det)
  c.check({norm(x) for x in s.record(out) or []} == {norm(p) for p in s.w}, 'not-recorded', record=s.record(out), **det)
  # What the logger wrote to disk is what was reported.
  c.case(('all', str(det))); shutil.rmtree(out, ignore_errors=True)

def history_other(s, i):
  out = os.path.join(s.d, 'o%d' % int(rng.integers(1 << 30))); os.makedirs(out); mode = ['latest', 'specific'][i % 2]; det = dict(s.desc, mode=mode); c.event('mode-' + mode)
  if mode == 'latest': path = s.dirs[0]; want = [max(st for p, (st, _) in s.w.items() if os.path.dirname(p) == path)]; path += '/' * s.slash
  else:
    ps = list(s.w); rng.shuffle(ps); path = ps[:int(rng.integers(1, len(ps) + 1))]; want = [s.w[p][0] for p in path]
    if len(path) == 1: path = path[0] + '/' * s.slash
  for _ in range(2):
    ok, e, log = s.run(out, mode, path)
    if not ok: c.violation(mode + ':run-fails', error=e, path=path, **det); return
    steps = s.judge(mode, log, det); c.check(steps == want, mode + ':wrong-checkpoints', steps=steps, want=want, **det)
    if not c.n(0, 1): break
  c.case((mode, str(det))); shutil.rmtree(out, ignore_errors=True)

i = 0
while i < c.n(3, 14):
  if c.out_of_time(.45 if c.tier == 'quick' else .85): break
  s = Scenario(i)
  def undisturbed():
    path = s.dirs[0] if len(s.dirs) == 1 else s.dirs; out = os.path.join(s.d, 'plain'); os.makedirs(out); f = fsfault.faults(out, fsfault.COUNT); ok, e, log = s.run(out, 'all', path, f); s.log = f.log; det = dict(s.desc, mode='all', history=['plain'])
    if not c.check(ok, 'run-fails', error=e, **det): return
    steps = s.judge('plain', log, det); c.check(steps == sorted(st for st, _ in s.w.values()), 'wrong-checkpoints', steps=steps, **det); c.case(('plain', str(det)))
  c.section('plain', undisturbed); c.beat()
  if not getattr(s, 'log', None): i += 1; c.drop(s.d); continue
  for _ in range(c.n(2, 3)): c.section('all', history_all, s, i); c.beat()
  if i == 0 or c.n(0, 1): c.section('other', history_other, s, c.shard + i)
  c.drop(s.d); i += 1; c.beat()
c.finish()
