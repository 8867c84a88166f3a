import fsfault; fsfault.ensure()
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import shards
c = shards.run('C02', rule='one case = one file-system operation of a save (or of the removal it triggers) at which the disk dies or the operation fails, in a random scenario of earlier '
  'checkpoints, limits, pins and dataset iterators; afterwards a new checkpointer lists, restores and saves again; distinct by (scenario, operation, kind of fault)', quick=12, thorough=44,
  needs=[('fault-crash', 60), ('fault-error', 60), ('steps-restored', 200), ('later-saves', 60), ('leftover-tmp', 30), ('op-unlink', 5), ('op-rename', 5), ('orbax-crashes', 5)])
import vlib, t5xshim
import errno, re, shutil
import numpy as np
import tensorflow as tf
import ckptlib as K
from t5x import checkpoints, checkpoint_utils
rng = c.rng
PARTS = {}

def part(mesh):
  if mesh not in PARTS: PARTS[mesh] = K.part(mesh)
  return PARTS[mesh]

class Scenario:
  def __init__(self, i):
    self.tree = K.random_tree(rng, int(rng.integers(1, 4)), rank=2)
    self.mesh = [(1, 1), (1, 2)][int(rng.integers(0, 2))]; self.p = part(self.mesh)
    self.how = str(rng.choice(['single', 'sharded', 'host']))
    if self.how == 'host': self.p = K.part(self.mesh, False)
    self.base = K.make_state(rng, self.tree, ['sgd', 'adafactor_plain'][int(rng.integers(0, 2))])
    self.keep = [None, 1, 2, 1, 3][i % 5]
    self.keep_ds = [None, 1, 2][int(rng.integers(0, 3))]
    self.ds = bool(rng.random() < .6)
    self.best = self.keep is not None and rng.random() < .25
    n = int(rng.integers(0 if self.keep is None else self.keep, 4))
    steps = sorted(int(x) for x in rng.choice(40, n + 1, replace=False))
    if rng.random() < .2: steps[0] = 0
    self.prior, self.new = steps[:-1], steps[-1]
    if rng.random() < .15 and n: self.prior, self.new = steps[1:], steps[0]   # an older step than those on disk
    self.pinned = [s for s in self.prior if rng.random() < .3]
    self.d0 = c.dir('base'); self.saved, self.pos = {}, {}
    for s in self.prior: self.save(self.d0, s, keep=None)
    for s in self.pinned: checkpoint_utils.pin_checkpoint(os.path.join(self.d0, 'checkpoint_%d' % s))
    self.saved0, self.pos0 = dict(self.saved), dict(self.pos)
    self.desc = dict(prior=self.prior, new=self.new, keep=self.keep, keep_dataset=self.keep_ds, dataset=self.ds, pinned=self.pinned, how=self.how, mesh=self.mesh,
      cls='SaveBestCheckpointer' if self.best else 'Checkpointer')

  def ck(self, d, keep, ds=None, keep_ds=None):
    if self.best and keep: return checkpoints.SaveBestCheckpointer(self.base, self.p, d, ds, keep=keep, metric_name_to_monitor='e/loss', keep_checkpoints_without_metrics=False, keep_dataset_checkpoints=keep_ds)
    return checkpoints.Checkpointer(self.base, self.p, d, ds, keep=keep, keep_dataset_checkpoints=keep_ds)

  def save(self, d, step, keep, keep_ds=None, fault=None, state=None, pos=None):
    st = state if state is not None else K.refill(rng, self.base, step)
    ds = None
    if self.ds:
      ds = iter(tf.data.Dataset.range(1000)); k = int(rng.integers(0, 20)) if pos is None else pos
      for _ in range(k): next(ds)
    ck = self.ck(d, keep, ds, keep_ds)
    placed = K.place(st, self.p, self.how)
    if fault is None: ck.save(placed)
    else:
      with fault:
        try: ck.save(placed)
        except Exception as e: fault.raised = repr(e)[:200]
    self.saved[step] = st
    if self.ds: self.pos[step] = k

  def newest(self, steps, keep):
    if not keep: return set(steps)
    keep = keep + 1 if self.best else keep
    return set(sorted(steps)[-keep:])

def restores(sc, d, mech, no_ds=(), **det):
  """Every listed step restores completely to what was saved."""
  listed = [int(s) for s in checkpoints.all_steps(d)]
  for s in listed:
    if not c.check(s in sc.saved, mech + ':lists-unknown-step', step=s, **det): continue
    dsteps = [int(x) for x in checkpoints.all_dataset_checkpoint_steps(d)]
    want_ds = sc.ds and s in dsteps and s not in no_ds
    if sc.ds and s not in dsteps: c.check(s in no_ds, mech + ':dataset-state-lost', step=s, **det)
    ds = iter(tf.data.Dataset.range(1000)) if want_ds else None
    ok, got = c.attempt(mech + ':listed-step-not-restorable', lambda: checkpoints.Checkpointer(sc.base, sc.p, d, ds).restore(step=s))
    if not ok: c.counters['unrestorable'] += 1; c.samples.append(dict(step=s, **det)) if len(c.samples) < 6 else None; continue
    g, w = K.flat(got), K.flat(sc.saved[s])
    c.check(set(g) == set(w) and all(w[k] is None or K.same(K.host(g[k]), K.host(w[k])) for k in w), mech + ':listed-step-differs', step=s, **det)
    c.event('steps-restored')
    if want_ds: c.check(int(next(ds)) == sc.pos[s], mech + ':dataset-position', step=s, **det)
  return listed

def point(sc, mode, k, err):
  c.beat(); d = c.dir('run'); shutil.rmtree(d); shutil.copytree(sc.d0, d)
  sc.saved, sc.pos = dict(sc.saved0), dict(sc.pos0)
  f = fsfault.faults(d, mode, k, err); f.raised = None
  try:
    with K.limit(60): sc.save(d, sc.new, sc.keep, sc.keep_ds, f)
  except K.Hang:
    c.event('hung'); c.violation('fault:save-never-returns', op=k, mode=mode, **sc.desc); return None
  opname = f.log[k] if k < len(f.log) else 'none'
  kind = re.sub(r'\d+', '#', opname.split(' ')[0] + ' ' + '/'.join(x if not re.match(r'^(state|target)\.', x) else 'array' for x in opname.split(' ', 1)[-1].split('/')))
  det = dict(op=opname, index=k, fault={1: 'disk dies', 2: 'operation fails'}[mode], raised=f.raised, **sc.desc)
  if k >= f.ops: return None
  c.event('fault-' + {1: 'crash', 2: 'error'}[mode]); c.event('op-' + opname.split(' ')[0])
  # A later process finds temporary directories of an earlier time.
  for n in os.listdir(d):
    m = re.match(r'(.*\.tmp-)(\d+)$', n)
    if m: c.event('leftover-tmp'); os.rename(os.path.join(d, n), os.path.join(d, m.group(1) + str(int(m.group(2)) - 7)))
  before = K.snapshot(d)
  # A dataset iterator may already have gone with a checkpoint that falls under the dataset limit.
  every = set(sc.prior) | {sc.new}
  no_ds = every - set(sorted(every)[-sc.keep_ds:]) if sc.keep_ds else set()
  due = every - sc.newest(every, sc.keep) - set(sc.pinned)
  listed = restores(sc, d, 'after-fault', no_ds | due, **det)
  lost = set(sc.prior) - set(listed)
  c.check(lost <= due, 'after-fault:committed-step-lost', lost=sorted(lost), **det)
  c.check(not lost or sc.new in listed or sc.new in due, 'after-fault:removed-before-commit', lost=sorted(lost), listed=listed, **det)
  if f.raised is None and not f.dead: c.check(sc.new in listed or sc.new in due, 'after-fault:failure-hidden', listed=listed, **det)
  if f.raised is None and f.dead and sc.new not in listed and sc.new not in due: c.violation('after-fault:failure-hidden', listed=listed, **det)
  c.check(K.snapshot(d) == before, 'after-fault:restore-modifies', **det)
  # Life goes on: the same step, a removed step, a later step.
  plan = [sc.new, max(every) + 1] if rng.random() < .6 else [max(every) + 1]
  gone = sorted(lost)
  if gone and rng.random() < .5: plan = [gone[-1]] + plan
  for j, s in enumerate(plan):
    have = [int(x) for x in checkpoints.all_steps(d)]
    if s in have: continue
    limit = None if s in gone else sc.keep
    ok, _ = c.attempt('after-fault:later-save', sc.save, d, s, limit, sc.keep_ds if limit else None)
    if not ok: c.samples.append(dict(later=s, **det)); return kind
    c.event('later-saves')
    now = set(int(x) for x in checkpoints.all_steps(d))
    want = sc.newest(set(have) | {s}, limit) | (set(sc.pinned) & set(have))
    c.check(now == want, 'after-fault:later-save-steps', saved=s, before=have, got=sorted(now), want=sorted(want), limit=limit, **det)
  every |= set(plan)
  no_ds2 = no_ds | due | (every - set(sorted(every)[-sc.keep_ds:]) if sc.keep_ds else set())
  restores(sc, d, 'after-recovery', no_ds2, plan=plan, **det)
  c.drop(d)
  return kind

ERRS = [errno.EIO, errno.ENOSPC, errno.EACCES]

def scenario(i, budget):
  sc = Scenario(i)
  # Dry run in a copy: how many operations, and the faultless outcome.
  d = c.dir('dry'); shutil.rmtree(d); shutil.copytree(sc.d0, d)
  f = fsfault.faults(d); f.raised = None
  sc.save(d, sc.new, sc.keep, sc.keep_ds, f)
  if f.raised: c.violation('save:raised', error=f.raised, **sc.desc); return
  every = set(sc.prior) | {sc.new}
  want = sc.newest(every, sc.keep) | set(sc.pinned)
  got = set(int(x) for x in checkpoints.all_steps(d))
  if not c.check(got == want, 'no-fault:steps', got=sorted(got), want=sorted(want), **sc.desc): return
  c.drop(d)
  n = f.ops
  # Everything outside the array data, and a sample of the array data.
  top = [k for k, line in enumerate(f.log) if not re.search(r'\.tmp-\d+/(state|target)\.', line) and not line.endswith(' ')] + [0, n - 1, n - 2]
  top += [k for k, line in enumerate(f.log) if line.startswith('fwrite')]
  rest = [k for k in range(n) if k not in top]
  if c.tier == 'quick':
    removal = [k for k in top if f.log[k].split(' ')[0] in ('unlink', 'rmdir')]
    top = [k for k in top if k not in removal] + sorted(int(x) for x in rng.permutation(removal)[:10])
    pick = top + [int(x) for x in rng.choice(rest, min(len(rest), 12), replace=False)]
  else: pick = list(range(n))
  seen = set()
  for k in pick:
    for mode in (1, 2):
      if k in range(n) and (k, mode) not in seen and not c.out_of_time(budget):
        seen.add((k, mode))
        if c.tier == 'quick' and k in rest and (k + mode) % 2: continue
        kind = point(sc, mode, k, ERRS[int(rng.integers(0, 3))])
        if kind is not None: c.case((i, str(sc.desc), k, mode), True, None); c.keys.add(('op', kind, mode))
  c.event('scenarios'); c.event('operations-enumerated', n)
  c.drop(sc.d0)

def orbax(i):
  """A save through the Orbax manager that dies before it commits."""
  tree = K.random_tree(rng, 2, rank=2); p = part((1, 2)); base = K.make_state(rng, tree, 'sgd')
  d0 = c.dir('obase'); saved = {}
  M = lambda d: checkpoints.OrbaxCheckpointManagerInterface(d, base, p, keep=None)
  m = M(d0)
  for s in (3, 5):
    saved[s] = K.refill(rng, base, s); m.save(K.place(saved[s], p, 'sharded')); m.wait_until_finished()
  m.close()
  st = K.refill(rng, base, 9); placed = K.place(st, p, 'sharded')
  n = 0; todo = [None]
  while todo:
    if c.out_of_time(.95): break
    k = todo.pop(0); c.beat()
    d = c.dir('orun'); shutil.rmtree(d); shutil.copytree(d0, d)
    m = M(d); f = fsfault.faults(d, 0 if k is None else 1, k or 0); raised = None
    try:
      with K.limit(60):
        with f:
          try: m.save(placed); m.wait_until_finished()
          except Exception as e: raised = repr(e)[:200]
    except K.Hang: c.violation('orbax:save-never-returns', op=k); return
    try: m.close()
    except Exception: pass
    if k is None:
      n = f.ops
      todo = sorted(set([n - 1, n - 2, n - 3, n - 5, n - 7, 0] + [int(x) for x in rng.choice(n, 12)])) if c.tier == 'quick' else list(range(n))
    elif k >= f.ops: c.drop(d); continue
    m = M(d); listed = [int(x) for x in m.all_steps()]
    det = dict(op=f.log[k] if k is not None and k < len(f.log) else None, index=k, listed=listed, raised=raised)
    c.check({3, 5} <= set(listed), 'orbax:committed-step-lost', **det)
    c.check(set(listed) <= {3, 5, 9} and (9 in listed or raised is not None), 'orbax:listing', **det)
    for s in listed:
      ok, got = c.attempt('orbax:listed-step-not-restorable', lambda: m.restore(step=s))
      if ok:
        g, w = K.flat(got), K.flat(saved.get(s, st))
        c.check(all(K.same(K.host(g[q]), K.host(w[q])) for q in w), 'orbax:listed-step-differs', step=s, **det); c.event('orbax-restored')
    if 9 not in listed:
      ok, _ = c.attempt('orbax:later-save', lambda: (m.save(placed), m.wait_until_finished()))
      c.check(not ok or 9 in [int(x) for x in M(d).all_steps()], 'orbax:later-save-missing', **det)
    m.close(); c.drop(d); c.event('orbax-crashes'); c.case(('orbax', i, k), True)

i = c.shard
if i < c.n(10, 40): c.section('scenario', scenario, i, .85 if c.tier == 'thorough' else .6)
else: c.section('orbax', orbax, i)
c.finish()
