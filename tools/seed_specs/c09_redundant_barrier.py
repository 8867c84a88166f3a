ID = 'c09_redundant_barrier'; PROP = 'C09'
EDITS = [('t5x/checkpoints.py', "    # Block until complete on all hosts.\n    _sync_global_devices(f'checkpointer:tensorstore_write_complete:{tmp_dir}')\n\n    if jax.process_index() == 0:", "    # All hosts have passed the barrier of the TensorStore writes.\n    if jax.process_index() == 0:")]
NEEDS = 'two or more hosts with their own dataset shards, and a host other than the first that is slower to write its iterator state'
BREAKS = 'host 0 publishes the checkpoint while another host still writes its dataset iterator state, which is lost or written into a directory that no longer exists'
DEMO = '''import os, socket, subprocess, sys, time
if len(sys.argv) == 1:
  s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
  env = dict(os.environ, XLA_FLAGS='--xla_force_host_platform_device_count=1')
  ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), str(i), str(port)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i in range(2)]
  end = time.time() + 150; bad = 0
  while any(p.poll() is None for p in ps) and time.time() < end: time.sleep(.2)
  for i, p in enumerate(ps):
    if p.poll() is None: p.kill()
    o = p.communicate()[0]; print('host', i, p.returncode, o[-1200:]); bad |= 'FINE' not in o
  raise SystemExit(int(bad))
i, port = int(sys.argv[1]), sys.argv[2]
import t5xshim
import jax, numpy as np
jax.config.update('jax_cpu_collectives_implementation', 'gloo'); jax.config.update('jax_cpu_enable_async_dispatch', False)
jax.distributed.initialize('127.0.0.1:' + port, 2, i)
from t5x import checkpoints, partitioning, train_state
import flax, flax.linen.partitioning
base = os.path.join(os.environ['SCRATCH'], 'ck'); final = os.path.join(base, 'checkpoint_3'); early = []
if i == 0: os.makedirs(base, exist_ok=True)
class It:
  def save(self, name):
    if jax.process_index(): time.sleep(3)
    early.append(os.path.exists(final))
    with open(name, 'w') as f: f.write('state')
part = partitioning.PjitPartitioner(num_partitions=1)
AX = flax.core.freeze({'w_axes': flax.linen.partitioning.AxisMetadata(names=('embed',))})
w = np.arange(6, dtype=np.float32)
st = train_state.InferenceState(step=np.int32(3), params={'w': w}, params_axes=AX)
ck = checkpoints.Checkpointer(st, part, base, It())
ck.save(st)
names = sorted(os.listdir(final)); print(names, early)
print('FINE' if not any(early) and any('000-of-002' in n for n in names) and any('001-of-002' in n for n in names) else 'BAD')
sys.stdout.flush(); os._exit(0)
'''
