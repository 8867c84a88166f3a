ID='c03_oldest_by_name'; PROP='C03'
EDITS=[('t5x/checkpoints.py','''    to_remove = len(existing_steps) - self.keep
    if to_remove <= 0:
      return

    for step in existing_steps[:to_remove]:
      checkpoint_utils''','''    checkpoint_dirs = sorted(self._get_checkpoint_dir(s) for s in existing_steps)
    to_remove = len(checkpoint_dirs) - self.keep
    if to_remove <= 0:
      return

    for directory in checkpoint_dirs[:to_remove]:
      step = get_step_from_checkpoint_dir(directory)[1]
      checkpoint_utils''')]
NEEDS='retention while the number of digits of the step grows'
BREAKS='the newest checkpoint is deleted and an old one kept'
LIBS=['trainlib.py']
DEMO='''import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=1'
import t5xshim, sys
import numpy as np, jax, jax.numpy as jnp
import trainlib as TL
from t5x import checkpoints, partitioning
part = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=TL.RULES)
st = TL.make_state(np.random.default_rng(0)); d = os.path.join(os.environ['SCRATCH'], 'm'); os.makedirs(d)
ck = checkpoints.Checkpointer(jax.eval_shape(lambda: st), part, d, keep=2)
for s in (7, 8, 9, 10, 11): ck.save(st.replace_step(jnp.asarray(s, jnp.int32)))
print(list(ck.all_steps()))
sys.exit(0 if list(ck.all_steps()) == [10, 11] else 1)
'''
