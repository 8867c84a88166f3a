ID = 'c09_own_clock'; PROP = 'C09'
EDITS = [('t5x/checkpoints.py', "    # Share a timestamp across devices.\n    timestamp = multihost_utils.broadcast_one_to_all(np.int32(time.time()))", "    # All hosts enter the save together.\n    _sync_global_devices(f'checkpointer:start:{step}')\n    timestamp = np.int32(time.time())")]
NEEDS = 'hosts whose clocks differ, or that read the clock on the two sides of a full second'
BREAKS = 'the hosts of one save write to directories of different names, so that the published checkpoint lacks the parts of some hosts or the save fails'
DEMO = '''import os, socket, subprocess, sys, time
if len(sys.argv) == 1:
  s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
  env = dict(os.environ, XLA_FLAGS='--xla_force_host_platform_device_count=1')
  ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), str(i), str(port)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i in range(2)]
  end = time.time() + 150; bad = 0
  while any(p.poll() is None for p in ps) and time.time() < end: time.sleep(.2)
  for i, p in enumerate(ps):
    if p.poll() is None: p.kill()
    o = p.communicate()[0]; print('host', i, p.returncode, o[-1200:]); bad |= 'FINE' not in o
  raise SystemExit(int(bad))
i, port = int(sys.argv[1]), sys.argv[2]
import t5xshim
import jax, numpy as np
jax.config.update('jax_cpu_collectives_implementation', 'gloo'); jax.config.update('jax_cpu_enable_async_dispatch', False)
jax.distributed.initialize('127.0.0.1:' + port, 2, i)
from t5x import checkpoints, partitioning, train_state
import flax, flax.linen.partitioning
base = os.path.join(os.environ['SCRATCH'], 'ck')
if i == 0: os.makedirs(base, exist_ok=True)
part = partitioning.PjitPartitioner(num_partitions=1)
st = train_state.InferenceState(step=np.int32(3), params={'w': np.arange(6, dtype=np.float32)}, params_axes=flax.core.freeze({'w_axes': flax.linen.partitioning.AxisMetadata(names=('embed',))}))
ck = checkpoints.Checkpointer(st, part, base)
real = time.time; time.time = lambda: real() + 7.5 * i
ck.save(st)
time.time = real
left = [n for n in os.listdir(base) if 'tmp' in n]
print(os.listdir(base)); print('FINE' if ck.all_steps() == [3] and not left else 'BAD')
sys.stdout.flush(); os._exit(0)
'''
