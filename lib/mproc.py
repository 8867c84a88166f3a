"""Real multi-process JAX on the loopback network.

run(func, n, devices, args): starts n processes of `devices` CPU devices each,
joined by jax.distributed, calls the named function of lib/mpjobs.py in all of
them, and returns their results in order (or a list of error texts).
"""
import os, pickle, signal, socket, subprocess, sys, tempfile, time, traceback


def _port():
  s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p


class Failed(Exception):
  """At least one process raised: .errors has (index, is repo's fault, text)."""

  def __init__(self, errors):
    super().__init__('; '.join('process %d: %s' % (i, t[-400:]) for i, _, t in errors)); self.errors = errors


class Hung(Exception):
  pass


def start(func, n, devices, args, base, shim=None):
  d = tempfile.mkdtemp(prefix='mp_', dir=base)
  with open(os.path.join(d, 'args'), 'wb') as f: pickle.dump((func, args), f)
  port = _port(); ps = []
  for i in range(n):
    env = dict(os.environ, XLA_FLAGS=os.environ.get('VERIF_MP_FLAGS', '') + ' --xla_force_host_platform_device_count=%d' % devices, VERIF_MP='%d:%d:%d:%s' % (i, n, port, d))
    for k in ('VERIF_FSSHIM', 'LD_PRELOAD'): env.pop(k, None)
    if shim: env.update(VERIF_FSSHIM=shim, LD_PRELOAD=shim)
    ps.append(subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, 'err%d' % i), 'wb'), start_new_session=True))
  return d, ps


def finish(d, ps, timeout, crash=None):
  """crash: seconds the others are given once a process has died; then returns the exit codes."""
  end = time.time() + timeout
  while time.time() < end and any(p.poll() is None for p in ps):
    # A process that fails leaves the others waiting for it.
    if any(p.poll() not in (None, 0) for p in ps): end = min(end, time.time() + (20 if crash is None else crash))
    time.sleep(.05)
  hung = [i for i, p in enumerate(ps) if p.poll() is None]
  for p in ps:
    if p.poll() is None:
      try: os.killpg(p.pid, signal.SIGKILL)
      except ProcessLookupError: pass
      p.wait()
  if crash is not None: return [None if i in hung else p.returncode for i, p in enumerate(ps)]
  out, errors = [], []
  for i, p in enumerate(ps):
    path = os.path.join(d, 'out%d' % i)
    if os.path.exists(path):
      with open(path, 'rb') as f: ok, val = pickle.load(f)
      if ok: out.append(val)
      else: errors.append((i,) + val)
    elif i not in hung:
      with open(os.path.join(d, 'err%d' % i), 'rb') as f: errors.append((i, 'other', 'exit %s: %s' % (p.returncode, f.read()[-1500:].decode('utf8', 'replace'))))
  real = [e for e in errors if e[1] != 'other'] or errors
  if real: raise Failed(real)
  if hung: raise Hung('processes %s did not finish within %ds' % (hung, timeout))
  return out


def run(func, n, devices, args, base, timeout=150, retries=2, shim=None):
  """Infrastructure failures (ports, a starved coordinator) are repeated."""
  for a in range(retries + 1):
    try: return finish(*start(func, n, devices, args, base, shim), timeout)
    except Hung:
      if a == retries: raise
    except Failed as e:
      if a == retries or any(x[1] != 'other' for x in e.errors): raise


def _worker():
  i, n, port, d = os.environ['VERIF_MP'].split(':', 3); i, n = int(i), int(n)
  with open(os.path.join(d, 'args'), 'rb') as f: func, args = pickle.load(f)
  import vlib
  try:
    import t5xshim, jax
    jax.config.update('jax_cpu_collectives_implementation', 'gloo'); jax.config.update('jax_cpu_enable_async_dispatch', False)
    jax.distributed.initialize('127.0.0.1:' + port, n, i, initialization_timeout=60)
    import mpjobs
    res = (True, getattr(mpjobs, func)(*args))
  except BaseException as e:  # pylint: disable=broad-except
    res = (False, (vlib.blame(e), traceback.format_exc()[-3000:]))
  tmp = os.path.join(d, 'tmp%d' % i)
  with open(tmp, 'wb') as f: pickle.dump(res, f)
  os.replace(tmp, os.path.join(d, 'out%d' % i))
  if res[0]:
    from jax._src import distributed
    try: distributed.global_state.client.wait_at_barrier('verif_end', 30000)
    except Exception: pass  # pylint: disable=broad-except
  sys.stdout.flush(); os._exit(0 if res[0] else 1)


if __name__ == '__main__':
  _worker()
