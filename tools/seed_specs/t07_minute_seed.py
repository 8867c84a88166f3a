ID = 't07_minute_seed'; PROP = 'T07'
LIBS = ['looplib.py', 'trainlib.py']
EDITS = [('t5x/train.py', "      random_seed = multihost_utils.broadcast_one_to_all(np.int32(time.time()))", "      # Coarse enough to be the same on all hosts of a job.\n      random_seed = np.int32(time.time() // 600)")]
NEEDS = 'no random seed, and hosts whose clocks lie on the two sides of a multiple of ten minutes'
BREAKS = 'the hosts start from different parameters and the copies of the model never agree again'
DEMO = '''import os, socket, subprocess, sys, time
S = os.environ['SCRATCH']
if len(sys.argv) == 1:
  s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
  env = dict(os.environ, XLA_FLAGS='--xla_force_host_platform_device_count=1')
  ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), str(i), str(port)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i in range(2)]
  end = time.time() + 200
  while any(p.poll() is None for p in ps) and time.time() < end: time.sleep(.2)
  out = []
  for p in ps:
    if p.poll() is None: p.kill()
    o = p.communicate()[0]; print(p.returncode, o[-800:]); out.append([l for l in o.splitlines() if l.startswith('W ')])
  raise SystemExit(int(not out[0] or out[0] != out[1]))
i, port = int(sys.argv[1]), sys.argv[2]
import t5xshim
import jax, numpy as np
jax.config.update('jax_cpu_collectives_implementation', 'gloo'); jax.config.update('jax_cpu_enable_async_dispatch', False)
jax.distributed.initialize('127.0.0.1:' + port, 2, i)
import looplib as LL, trainlib as TL
TL.record_writers([])
real = time.time; time.time = lambda: real() + 700. * i
bs = LL.stream(1, 8); rows = lambda shard, n: [{k: v[shard * LL.B // n:(shard + 1) * LL.B // n] for k, v in b.items()} for b in bs]
end, state = LL.run(os.path.join(S, 'm'), bs, 2, [], seed=None, get_dataset_fn=lambda cfg, shard, n, fc: LL.dataset(rows(shard, n)))
time.time = real
print('W', np.asarray(state.params['w'].addressable_data(0)).tobytes().hex()); sys.stdout.flush()
os._exit(0)
'''
