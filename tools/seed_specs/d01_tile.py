ID='d01_temperature_rows'; PROP='D01'
EDITS=[('t5x/decoding.py','jnp.repeat(temperature, num_decodes)','jnp.tile(temperature, num_decodes)')]
NEEDS='one temperature per batch element together with more than one decode per element'
BREAKS='temperatures are applied to the wrong rows: an element asked to decode greedily samples'
DEMO='''import t5xshim, sys
import numpy as np, jax, jax.numpy as jnp
from t5x import decoding as d
inputs = jnp.zeros((2, 10), jnp.int32)
def fn(state):
  ids = state.cur_token
  l = jnp.tile(jnp.asarray([[0., 0., 3., 2.9, 2.8, 2.7]]), (ids.shape[0], 1))
  return l, state.cache
bad = 0
for s in range(4):
  out, _ = d.temperature_sample(inputs, {}, fn, eos_id=1, decode_rng=jax.random.PRNGKey(s), num_decodes=4, temperature=jnp.asarray([1e-3, 1.0]), topk=0)
  o = np.asarray(out); bad += int((o[0] != 2).sum()); print(o[0])
sys.exit(1 if bad else 0)
'''
