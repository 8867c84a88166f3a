import os
os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '') + ' --xla_force_host_platform_device_count=4'
import vlib, t5xshim
import subprocess, sys
import numpy as np
import jax, jax.numpy as jnp
import looplib as LL, trainlib as TL
from t5x import partitioning, utils
c = vlib.Check('T02', rule='histories of process lifetimes (planned stops, deaths before/inside/after training calls and saves, real SIGKILLs) against one uninterrupted run; '
  'distinct by configuration and death points; non-trivial = at least one restart that resumed from a later step')
rng = c.rng
TL.record_writers([])
LR = lambda step: 0.05 / (1.0 + step.astype(jnp.float32))

def submesh():
  k = int(rng.choice([1, 2, 4]))
  LL.partitioner = lambda: partitioning.PjitPartitioner(model_parallel_submesh=(1, k), num_partitions=None, logical_axis_rules=TL.RULES)
  return k

def leaves(state):
  return [(jax.tree_util.keystr(k), np.asarray(v)) for k, v in jax.tree_util.tree_flatten_with_path(state.state_dict())[0]]

def same_state(a, b, mech, **det):
  la, lb = leaves(a), leaves(b)
  if not c.check([k for k, _ in la] == [k for k, _ in lb], mech + '-structure', **det): return
  for (k, x), (_, y) in zip(la, lb):
    c.equal(x, y, mech, leaf=k, **det)

def consumed(state, n_mb):
  """Signatures of the batches along the surviving history (one entry per microbatch in the state)."""
  n, h = LL.history(state)
  k = n_mb or 1
  return n / k, [sum(h[i:i + k]) for i in range(0, n, k)]

def histories():
  for i in range(c.n(16, 220)):
    if c.out_of_time(.6): break
    bs = LL.stream(int(rng.integers(0, 1 << 30)))
    total = int(rng.integers(4, 14)); period = int(rng.integers(1, 5)); orb = bool(i % 2); k = submesh()
    n_mb = None if k < 4 else [None, 2][int(rng.integers(0, 2))]
    ds = bool(rng.random() < .7); explicit = [int(rng.integers(1, total))] if rng.random() < .3 else None
    sp = int(rng.integers(1, 4)) if rng.random() < .5 else None
    seed = int(rng.integers(0, 5))
    def save(hook=None):
      def t(sd, infos):
        if hook: hook()
        return sd, infos
      return LL.save_config(period=period, save_dataset=ds, checkpoint_steps=explicit, state_transformation_fns=[t])
    common = dict(lr=LR, use_orbax=orb, n_mb=n_mb, stats_period=sp, seed=seed)
    det = dict(total=total, period=period, orbax=orb, model_axis=k, dataset_saved=ds, explicit=explicit, stats_period=sp, microbatches=n_mb)
    ref_dir = c.dir(); d = c.dir()
    w = {}
    end, ref = LL.run(ref_dir, bs, total, [], save=LL.save_config(period=total), before=lambda tr, s, n: w.setdefault(s, np.array(tr.train_state.params['w'])), **common)
    n, hist = consumed(ref, n_mb)
    c.check(end == total and n == total and np.allclose(hist, [LL.sig(b) for b in bs[:total]], rtol=1e-5, atol=1e-5), 'uninterrupted-run-consumed-other-batches', n=n, **det)
    # float64 replay: learning rate by step number.
    st = LL.Stub(w[0], lambda t: 0.05 / (1.0 + t))
    for t in range(total): st.step(t, bs[t])
    c.close(ref.params['w'], st.w[total], 'trajectory', rtol=1e-4, atol=1e-4, **det)
    surviving = []   # (step, batch index consumed at that step) along the surviving history
    pos = 0; first = 0; at = []; lives = 0; restarts_later = 0; deaths = []
    while True:
      lives += 1
      log = []
      last = lives > 6
      plan = ['stop', 'before', 'after', 'save'][int(rng.integers(0, 4))] if not last and rng.random() < .75 else 'run'
      goal = total if plan != 'stop' else int(rng.integers(first, total + 1))
      cut = int(rng.integers(1, 4)); cnt = {'b': 0, 'a': 0, 's': 0}
      def before(tr, s, n):
        cnt['b'] += 1
        if plan == 'before' and cnt['b'] > cut: raise LL.Stop()
      def after(tr, s, e):
        cnt['a'] += 1
        if plan == 'after' and cnt['a'] >= cut: raise LL.Stop()
      def insave():
        cnt['s'] += 1
        if plan == 'save' and cnt['s'] > cut: raise LL.Stop()
      begin = first
      try:
        end, state = LL.run(d, bs, goal, log, save=save(insave), before=before, after=after, **common)
      except LL.Stop:
        end = None; c.event('deaths')
      deaths.append((plan, cut))
      LL.settle(d)
      steps = LL.committed(d)
      tr = [e for e in log if e[0] == 'train']
      if tr:
        c.check(tr[0][1] == begin, 'resumed-at-other-step', got=tr[0][1], want=begin, deaths=deaths, **det)
        c.event('lifetimes-that-trained')
        restarts_later += begin > 0
      if end is not None:
        c.check(end == goal, 'resumed-run-last-step', got=end, want=goal, **det)
      new = steps[-1] if steps else 0
      # Batches this lifetime consumed up to the surviving checkpoint.
      c.check(new >= begin, 'progress-lost', before=begin, after=new, **det)
      at += list(range(pos if ds else 0, (pos if ds else 0) + new - begin))
      pos += new - begin
      first = new
      if end == total: break
      if lives > 30: c.violation('no-progress', **det); break
    n, hist = consumed(state, n_mb)
    c.check(n == total, 'batches-consumed', got=n, want=total, deaths=deaths, **det)
    c.check(len(hist) == len(at) and np.allclose(hist, [LL.sig(bs[j]) for j in at], rtol=1e-5, atol=1e-5), 'batch-order-over-restarts', got=hist, want=[LL.sig(bs[j]) for j in at], deaths=deaths, **det)
    if ds:
      same_state(state, ref, 'resumed-differs-from-uninterrupted', deaths=deaths, **det)
      c.event('bitwise-comparisons')
    else:
      st = LL.Stub(w[0], lambda t: 0.05 / (1.0 + t))
      for t, j in enumerate(at): st.step(t, bs[j])
      c.close(state.params['w'], st.w[total], 'trajectory-over-restarts', rtol=1e-4, atol=1e-4, **det)
      # The dropout key of a step depends on the step only.
      c.check(np.isclose(np.asarray(state.params['key']).sum(), np.asarray(ref.params['key']).sum(), rtol=1e-5), 'dropout-key-depends-on-restart', **det)
      c.event('replayed-inputs')
    c.event('restarts', lives - 1); c.event('restarts-from-later-step', restarts_later)
    c.case(tuple(str(v) for v in det.values()) + (tuple(deaths),), restarts_later > 0, dict(det, deaths=deaths))
    c.drop(d); c.drop(ref_dir)

def dropout():
  """The random key of step t is the same function of t in runs of different lengths and start points."""
  bs = LL.stream(5)
  for orb in (False, True):
    full = c.dir(); part = c.dir(); keys = {}
    def rec(store):
      def after(tr, s, e):
        store[e] = np.array(tr.train_state.param_states['g']['key'])
      return after
    a, b = {}, {}
    LL.run(full, bs, 6, [], save=LL.save_config(period=6, save_dataset=True), use_orbax=orb, after=rec(a), stats_period=1, lr=LR)
    for t in (1, 3, 4, 6):
      LL.run(part, bs, t, [], save=LL.save_config(period=2, save_dataset=True), use_orbax=orb, after=rec(b), stats_period=1, lr=LR)
      LL.settle(part)
    for t in range(1, 7):
      c.equal(b[t], a[t], 'step-key-depends-on-history', step=t, orbax=orb)
      c.event('step-keys')
    u = {float(x[x != 0][0]) for x in a.values()}
    c.check(len(u) == 6, 'steps-share-dropout-key', distinct=len(u))

def killed():
  """Real processes, SIGKILLed at random moments, then one that runs to the end."""
  def proc(d, seed, total, period, orb, kill):
    return subprocess.Popen([sys.executable, os.path.join(vlib.VERIF, 'lib', 'loopproc.py'), d, str(seed), str(total), str(period), str(orb), str(kill)],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
  for rnd in range(c.n(1, 6)):
    if c.out_of_time(.75): break
    jobs = []
    for j in range(6):
      jobs.append(dict(d=c.dir(), seed=int(rng.integers(0, 1 << 20)), total=40, period=int(rng.integers(1, 4)), orb=j % 2, base=0))
    for life in range(c.n(2, 4)):
      last = life == c.n(2, 4) - 1
      ps = [proc(j['d'], j['seed'], j['total'], j['period'], j['orb'], -1 if last else int(rng.integers(5, 600))) for j in jobs]
      for j, p in zip(jobs, ps):
        _, err = p.communicate(timeout=240)
        if p.returncode == -9: c.event('sigkills')
        else:
          c.check(p.returncode == 0, 'process-failed', rc=p.returncode, err=err.decode(errors='replace')[-1500:], life=life, orbax=j['orb'])
        s = [x for x in LL.committed(j['d'])]
        c.check((s[-1] if s else 0) >= j['base'], 'progress-lost-by-kill', before=j['base'], after=s)
        j['base'] = s[-1] if s else 0
        if not last and p.returncode == -9 and 0 < j['base'] < j['total']: c.event('killed-midway')
    for j in jobs:
      bs = LL.stream(j['seed']); r = c.dir()
      LL.partitioner = lambda: partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=TL.RULES)
      if not c.check(LL.committed(j['d'])[-1:] == [j['total']], 'killed-run-did-not-finish', steps=LL.committed(j['d'])): continue
      end, ref = LL.run(r, bs, j['total'], [], save=LL.save_config(period=j['total'], save_dataset=True), use_orbax=bool(j['orb']))
      LL.settle(r)
      a = LL.read_checkpoint(os.path.join(j['d'], 'checkpoint_%d' % j['total'])); b = LL.read_checkpoint(os.path.join(r, 'checkpoint_%d' % j['total']))
      for (k, x), (_, y) in zip(jax.tree_util.tree_flatten_with_path(a)[0], jax.tree_util.tree_flatten_with_path(b)[0]):
        c.close(x, y, 'killed-run-differs', rtol=1e-5, atol=1e-5, leaf=jax.tree_util.keystr(k), period=j['period'], orbax=j['orb'])
      c.case(('kill', rnd, j['seed'])); c.event('killed-runs-compared')

for name, fn in (('histories', histories), ('dropout', dropout), ('killed', killed)):
  c.section(name, fn)
for e, n in (('deaths', 6), ('restarts-from-later-step', 6), ('bitwise-comparisons', 4), ('step-keys', 12), ('sigkills', 2), ('killed-runs-compared', 6)):
  c.need(e, n)
c.finish()
