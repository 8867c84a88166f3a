"""Splits a check over worker processes, each journalling what it observed.

shards.run(...) returns the worker's Check in a worker and never in the
supervisor.  A worker that stops making progress inside native third-party code
(no journal for `stall` seconds; Python-level hangs are reported by the worker
itself) is ended, what it observed so far is kept, and its shard is repeated
with other random choices.
"""
import collections, os, pickle, signal, subprocess, sys, time
import vlib


class Worker(vlib.Check):
  """A Check that journals instead of printing a verdict."""

  def __init__(self, pid, shard, attempt, path, **kw):
    super().__init__(pid, **kw)
    import hashlib, numpy as np
    h = int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16)
    self.rng = np.random.default_rng([self.seed & 0x7fffffff, h, shard, attempt])
    self.rs = np.random.RandomState((self.seed * 1000003 + h + shard * 7919 + attempt * 104729) % (2**31))
    self.shard, self.path = shard, path
    self.t0 = float(os.environ['VERIF_T0'])

  def beat(self, done=False):
    rec = {k: getattr(self, k) for k in ('evaluations', 'keys', 'samples', 'counters', 'violations', 'vseen', 'findings_hit', 'errors', 'section_times')}
    rec['done'] = done
    tmp = self.path + '.new'
    with open(tmp, 'wb') as f:
      try: pickle.dump(rec, f)
      except Exception:  # pylint: disable=broad-except
        rec['violations'] = [(m, {'detail': vlib._short(d, 8000)}) for m, d in self.violations]
        rec['findings_hit'] = collections.OrderedDict((m, {}) for m in self.findings_hit)
        rec['samples'] = [vlib._short(s, 2000) for s in self.samples]
        f.seek(0); f.truncate(); pickle.dump(rec, f)
    os.replace(tmp, self.path)

  def finish(self):
    self.beat(done=True)
    sys.stdout.flush(); os._exit(0)


def _merge(c, path):
  try:
    with open(path, 'rb') as f: r = pickle.load(f)
  except FileNotFoundError:
    return None
  c.evaluations += r['evaluations']; c.keys |= r['keys']; c.counters.update(r['counters']); c.vseen.update(r['vseen'])
  c.samples = (c.samples + r['samples'])[:6]; c.violations = (c.violations + r['violations'])[:40]
  for k, v in r['findings_hit'].items(): c.findings_hit.setdefault(k, v)
  c.errors += r['errors']
  for k, v in r['section_times'].items(): c.section_times[k] = round(c.section_times.get(k, 0) + v, 2)
  return r['done']


def run(pid, rule, quick, thorough, parallel=6, stall=120, needs=(), retries=2, **kw):
  """quick / thorough: number of shards."""
  if os.environ.get('VERIF_SHARD'):
    s, a, path = os.environ['VERIF_SHARD'].split(':', 2)
    return Worker(pid, int(s), int(a), path, rule=rule, **kw)
  c = vlib.Check(pid, rule=rule, **kw)
  for n in needs: c.need(*n)
  n = c.n(quick, thorough)
  todo = [(s, 0) for s in range(n)]
  if c.only and 'shard' in os.environ: todo = [(int(os.environ['shard']), 0)]
  live = {}
  end = time.time() + min(c.cap + 60, 800)
  while todo or live:
    while todo and len(live) < parallel and not c.out_of_time(.9):
      s, a = todo.pop(0)
      base = os.path.join(c.scratch, 'w%d_%d' % (s, a)); os.makedirs(base)
      path = os.path.join(base, 'journal')
      env = dict(os.environ, VERIF_SHARD='%d:%d:%s' % (s, a, path), VERIF_SCRATCH=base, TMPDIR=base, VERIF_T0=repr(c.t0))
      if env.get('VERIF_FSSHIM'): env['LD_PRELOAD'] = env['VERIF_FSSHIM']
      p = subprocess.Popen([sys.executable] + sys.argv, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(base, 'err'), 'wb'), start_new_session=True)
      live[p] = (s, a, path, time.time())
      c.event('workers')
    if todo and not live: break   # out of time before they started
    time.sleep(.1)
    for p in list(live):
      s, a, path, t = live[p]
      rc = p.poll()
      seen = max(t, os.path.getmtime(path) if os.path.exists(path) else 0)
      late = time.time() > end
      if rc is None and not late and time.time() - seen < stall: continue
      if rc is None:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
      del live[p]
      done = _merge(c, path)
      if rc is None:
        c.event('out-of-time' if late else 'native-hang')
        if not late and a < retries: todo.append((s, a + 1))
      elif rc != 0 or not done:
        if rc < 0 or rc in (134, 139):
          c.event('native-crash')
          if a < retries: todo.append((s, a + 1))
        else:
          with open(os.path.join(os.path.dirname(path), 'err'), 'rb') as f: c.errors.append(('shard %d rc %s' % (s, rc), f.read()[-3000:].decode('utf8', 'replace')))
      c.drop(os.path.dirname(path))
  c.finish()
