import fsfault; fsfault.ensure()
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import shards
c = shards.run('I02', rule='one case = one offline inference job (random size, chunk, shards, mode, iterator checkpointing) that dies, fails or is told to fail at one file-system operation or write, perhaps twice, and is rerun until it '
  'finishes; distinct by (job, operations, kinds of fault)', quick=8, thorough=40, stall=300, parallel=8,
  needs=[('fault-crash', 25), ('fault-error', 10), ('fault-writer', 6), ('faults-hit', 30), ('reruns', 60), ('lines', 600), ('resumed-mid-job', 10), ('finished-reruns', 4), ('several-shards', 3), ('op-rename', 3), ('op-unlink', 3), ('many-chunks', 1), ('modes-score', 1), ('modes-predict', 1), ('modes-predict_with_aux', 1)])
import vlib, t5xshim
import collections, json, re, shutil
import numpy as np
import seqio
import inferjob as J
rng = c.rng
FINDINGS = {}

class Scenario:
  def __init__(self, i):
    self.n = int(rng.choice([1, 3, int(rng.integers(4, 40)), int(rng.integers(4, 40)), int(rng.integers(4, 40))])); self.nsh = int(rng.choice([1, 1, 2, 3]))
    if self.n < self.nsh: self.n += self.nsh
    self.d = c.dir('i02'); w = [float(rng.integers(1, 25)), float(rng.integers(1, 5))]; self.w = w; self.mp = int(rng.choice([1, 2, 4]))
    self.part = J.partitioner(self.mp); self.ins, self.tgts = J.text(rng, self.n), J.text(rng, self.n)
    self.how = 'tfexample' if rng.random() < .15 else 'function'
    name = 't%d_%d_%d' % (os.getpid(), i, int(rng.integers(1 << 30))); self.task = J.make_task(name, self.ins, self.tgts, self.how, self.d)
    dp = 4 // self.mp; draw = rng.random() < .25
    self.spec = dict(task=self.task, mode=str(rng.choice(['predict', 'score', 'predict_with_aux'])), batch=dp * int(rng.integers(1, 3)), period=int(rng.integers(1, 4)), shard=int(rng.integers(0, self.nsh)), shards=self.nsh, merge=bool(rng.random() < .8),
                     ckpt_iter=bool(rng.random() < .65), orbax=bool(rng.random() < .5))
    if self.nsh > 1: c.event('several-shards')
    c.event('modes-' + self.spec['mode'])
    self.draw = draw and self.spec['mode'] == 'predict'
    self.second = None
    if rng.random() < .2:   # a mixture of two tasks
      self.ins2, self.tgts2 = J.text(rng, 5), J.text(rng, 5); self.second = J.make_task(name + 'b', self.ins2, self.tgts2, 'function', self.d)
      seqio.MixtureRegistry.add(name + 'mix', [self.task, self.second], default_rate=1.0); self.spec['task'] = name + 'mix'; c.event('mixtures')
    self.ckpt = J.save_checkpoint(os.path.join(self.d, 'ck'), int(rng.integers(1, 1000)), w, self.part)
    self.job = J.Job(self.spec, self.ckpt, self.part)
    s = self.spec; self.tasks = [(self.task, self.ins, self.tgts)] + ([(self.second, self.ins2, self.tgts2)] if self.second else [])
    self.rows = {}
    for t, a, b in self.tasks: self.rows[t] = list(zip(a, b))[s['shard']::s['shards']]
    self.ref = None

  def det(self, **k): return dict(dict(spec=self.spec, n=self.n, rows=[len(v) for v in self.rows.values()], draw=self.draw, mp=self.mp), **k)
  def fname(self, t): return '%s-%s.jsonl-%05d-of-%05d' % (t, self.spec['mode'], self.spec['shard'], self.spec['shards'])
  def tmp(self, out, t): return os.path.join(out, 'tmp-%s-%05d-of-%05d' % (t, self.spec['shard'], self.spec['shards']))
  def chunk(self): return self.spec['batch'] * self.spec['period']

  def lines(self, out, t):
    """The finished output of one task, or None."""
    p = os.path.join(out, self.fname(t))
    if not os.path.exists(p + '.COMPLETED'): return None
    if self.spec['merge']:
      with open(p) as f: return f.read()
    d = self.tmp(out, t); r = ''
    names = sorted(x for x in (os.listdir(d) if os.path.isdir(d) else []) if re.fullmatch(re.escape(self.fname(t)) + r'-chunk\d+', x))
    for x in names:
      with open(os.path.join(d, x)) as f: r += f.read()
    return r

  def verdict(self, out, tag, final, **k):
    """Whatever is marked complete is complete and exact."""
    for t, _, _ in self.tasks:
      got = self.lines(out, t); det = self.det(task=t, **k)
      if got is None:
        if final and self.rows[t]: c.violation(tag + ':not-finished', have=sorted(os.listdir(out)), **det)
        continue
      if self.draw:
        # Random predictions: what an undisturbed job wrote.
        if self.ref is not None: c.check(got == self.ref[t], tag + ':random-differs', got=got[:400], want=self.ref[t][:400], **det)
        got = [json.loads(x) for x in got.splitlines()]
        c.check([x['inputs'] for x in got] == [J.expect(a, b, 'predict', self.w)['inputs'] for a, b in self.rows[t]], tag + ':inputs', got=got[:3], **det); c.event('lines', len(got)); continue
      try: got = [json.loads(x) for x in got.splitlines()]
      except ValueError as e: c.violation(tag + ':unreadable', error=repr(e), text=got[-300:], **det); continue
      want = [J.expect(a, b, self.spec['mode'], self.w) for a, b in self.rows[t]]; c.event('lines', len(got))
      gi, wi = [x['inputs']['inputs_pretokenized'] for x in got], [x['inputs']['inputs_pretokenized'] for x in want]
      if not c.check(gi == wi, tag + (':duplicates' if len(set(gi)) < len(gi) else ':gaps' if set(gi) < set(wi) else ':wrong-lines'), got=gi, want=wi, **det): continue
      c.check(got == want, tag + ':value', got=next(g for g, w in zip(got, want) if g != w) if got != want else None, want=next((w for g, w in zip(got, want) if g != w), None), **det)

  def done_chunks(self, out, t):
    """Chunks whose results are marked complete, counted from the first."""
    d = self.tmp(out, t); k = 0
    while os.path.exists(os.path.join(d, '%s-chunk%05d.COMPLETED' % (self.fname(t), k))): k += 1
    return k

  def once(self, out, fault=None, fail_write=None):
    """Runs the job; returns (finished, error)."""
    m = J.Model(self.draw); self.model = m
    try:
      if fault is None: self.job.run(out, m, fail_write)
      else:
        with fault: self.job.run(out, m, fail_write)
      return True, None
    except Exception as e:  # pylint: disable=broad-except
      if vlib.blame(e) == 'verif' and fail_write is None: raise
      return False, e

  def rerun(self, out, tag, k):
    """After a fault: runs to the end and judges what was recomputed."""
    before = {t: (self.done_chunks(out, t), os.path.exists(os.path.join(out, self.fname(t) + '.COMPLETED'))) for t, _, _ in self.tasks}
    ok, e = self.once(out); c.event('reruns')
    if not ok:
      c.violation(tag + ':rerun-fails', error=repr(e)[:600], left=sorted(os.path.relpath(os.path.join(a, x), out) for a, _, fs in os.walk(out) for x in fs), **self.det(**k)); return False
    for t, _, _ in self.tasks:
      first = [int(f[-5:]) for f, _, _ in self.job.written if f.startswith(self.fname(t) + '-chunk')]; m, fin = before[t]; total = -(-len(self.rows[t]) // self.chunk())
      if fin: c.check(not first, tag + ':finished-recomputed', task=t, chunks=first, **self.det(**k)); continue
      c.check(first == sorted(set(first)), tag + ':chunk-order', chunks=first, **self.det(**k))
      if 0 < m <= total:
        c.event('resumed-mid-job')
        # The iterator's own mark may be one chunk behind the results.
        lo = m - 1 if self.spec['ckpt_iter'] else m
        if self.spec['ckpt_iter'] and '[' in out: lo = 0   # TensorFlow cannot read checkpoints there: from the beginning
        c.check(all(x >= lo for x in first), tag + ':chunk-recomputed', task=t, complete=m, chunks=first, **self.det(**k))
    self.verdict(out, tag, True, **k); return True

def scenario(i):
  s = Scenario(i); out = os.path.join(s.d, 'ref'); os.makedirs(out)
  ok, e = s.once(out, f0 := fsfault.faults(out, fsfault.COUNT))
  if not ok:
    c.violation('undisturbed:raised', error=repr(e)[:600], **s.det()); c.drop(s.d); return
  ops, log = f0.ops, f0.log
  if s.draw: s.ref = {t: s.lines(out, t) for t, _, _ in s.tasks}
  s.verdict(out, 'undisturbed', True)
  # A finished job is left alone.
  stat = {x: (os.stat(os.path.join(out, x)).st_mtime_ns, open(os.path.join(out, x), 'rb').read()) for x in os.listdir(out) if x.startswith(('t', 'infer_')) and os.path.isfile(os.path.join(out, x))}
  if rng.random() < .5:
    s.rerun(out, 'finished', {}); c.event('finished-reruns'); c.check(not s.model.calls, 'finished:model-run', calls=s.model.calls, **s.det())
    c.check(all((os.stat(os.path.join(out, x)).st_mtime_ns, open(os.path.join(out, x), 'rb').read()) == v for x, v in stat.items()), 'finished:files-touched', **s.det())
  c.case((str(s.spec), 'undisturbed'), True, s.det(operations=ops))
  # Fault points: by kind of operation, so that rare ones are reached.
  kinds = collections.defaultdict(list)
  for k, l in enumerate(log[:ops]):
    op, _, p = l.partition(' '); p = re.sub(r'\d+', '#', p); kinds[(op, p)].append(k)
  names = list(kinds); rng.shuffle(names); todo = []
  # Plans: crash / error at an operation, writer failures, two crashes.
  for q in range(c.n(7, 12)):
    kind = ['crash', 'crash', 'error', 'crash', 'writer', 'crash', 'error'][(q + i) % 7]
    todo.append((kind, int(rng.choice(kinds[tuple(names[q % len(names)])])) if rng.random() < .75 else int(rng.integers(0, ops))))
  for kind, k in todo:
    if c.out_of_time(.55 if c.tier == 'quick' else .9): break
    run(s, kind, k, ops, log); c.beat()
  c.drop(s.d)

def run(s, kind, k, ops, log, second=None):
  out = os.path.join(s.d, ['x', 'x', 'x[1]*'][int(rng.integers(0, 3))] + '%d' % int(rng.integers(1 << 30))); os.makedirs(out)
  info = dict(kind=kind, at=k, op=log[k] if k < len(log) else '?')
  if kind == 'writer':
    total = sum(-(-len(v) // s.chunk()) for v in s.rows.values()); fw = int(rng.integers(0, total)); info = dict(kind=kind, at=fw)
    ok, e = s.once(out, None, fw); c.check(not ok, 'writer:failure-ignored', **s.det(**info)); hit = True
  else:
    f = fsfault.faults(out, fsfault.DEAD if kind == 'crash' else fsfault.ERROR, k); ok, e = s.once(out, f); hit = f.ops > k
    if kind == 'crash' and hit: c.event('op-' + info['op'].split(' ')[0])
    info['raised'] = repr(e)[:200]
  c.event('fault-' + kind); c.event('faults-hit', int(hit)); c.case((str(s.spec), kind, info['at']), hit)
  s.verdict(out, kind, False, **info)
  if ok and kind == 'error': s.verdict(out, 'error-survived', True, **info)
  if not ok and kind == 'crash' and rng.random() < .4:
    # A second crash while the rerun works.
    k2 = int(rng.integers(0, max(1, ops))); f = fsfault.faults(out, fsfault.DEAD, k2); ok2, e2 = s.once(out, f); c.event('second-crashes', int(f.ops > k2)); info['second'] = (k2, f.log[k2] if k2 < len(f.log) else '?', repr(e2)[:150])
    if e2 is not None and f.ops <= k2: c.violation('crash:rerun-fails', error=repr(e2)[:600], **s.det(**info)); c.drop(out); return
    s.verdict(out, 'crash-twice', False, **info)
  s.rerun(out, kind, info)
  shutil.rmtree(out, ignore_errors=True)

def many_chunks():
  """The merge of a job with more chunks than the names have digits for."""
  from t5x import infer
  d = c.dir('many'); n = 100000 + int(rng.integers(1, 4)); name = 't-predict.jsonl-00000-of-00001'; tmp = os.path.join(d, 'tmp'); os.makedirs(tmp)
  for k in range(n):
    fd = os.open(os.path.join(tmp, '%s-chunk%05d' % (name, k)), os.O_CREAT | os.O_WRONLY); os.write(fd, b'%d\n' % k); os.close(fd)
  ok, _ = c.attempt('many-chunks', infer.merge_chunks_to_file, d, name, tmp, 1)
  if ok:
    with open(os.path.join(d, name)) as f: got = [int(x) for x in f]
    c.check(got == list(range(n)), 'many-chunks', lines=len(got), want=n, first_wrong=next((i for i, g in enumerate(got) if g != i), None)); c.event('many-chunks')
  c.case(('many', n)); c.drop(d)

if c.shard == 0: c.section('many-chunks', many_chunks)
i = 0
while True:
  c.section('scenario', scenario, i); i += 1
  if i >= c.n(2, 12) or c.out_of_time(.5 if c.tier == 'quick' else .85): break
c.finish()
