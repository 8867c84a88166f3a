ID='i01_rng_reused'; PROP='I01'
EDITS=[('t5x/utils.py','step_rng, rng = jax.random.split(rng)','step_rng, next_rng = jax.random.split(rng)\n        rng = rng if dataset_remainder else next_rng')]
NEEDS='a data set whose length is not a multiple of the batch size, run with a random key'
BREAKS='with padding in the last batch every batch draws from the same key, so random outputs repeat from batch to batch'
DEMO='''import t5xshim, sys
import numpy as np, jax, jax.numpy as jnp, tensorflow as tf
from flax.core import freeze
from t5x import partitioning, train_state as ts, utils
part = partitioning.PjitPartitioner(num_partitions=1)
st = ts.InferenceState(jnp.array(0), freeze({'w': np.zeros((1,), np.int32)}))
ax = ts.InferenceState(None, freeze({'w': None}))
def step(params, batch, rng): return batch['a'] + jax.random.randint(rng, (), 0, 10**6)
bad = 0
for n in (4, 5, 3):
  ds = tf.data.Dataset.from_tensor_slices({'a': np.zeros(n, np.int32)}).enumerate()
  fn = utils.get_infer_fn(step, 2, ax, part)
  out = [v for _, v in sorted(fn(ds, train_state=st, rng=jax.random.PRNGKey(3)))]
  rng = jax.random.PRNGKey(3); want = []
  while len(want) < n:
    k, rng = jax.random.split(rng); want += [int(jax.random.randint(k, (), 0, 10**6))] * 2
  bad += out != want[:n]
print(bad)
sys.exit(1 if bad else 0)
'''
