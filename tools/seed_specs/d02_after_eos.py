ID='d02_score_after_eos'; PROP='D02'
EDITS=[('t5x/decoding.py',') * jnp.squeeze(~state.ended, axis=-1).astype(jnp.int32)',') * jnp.squeeze(~state.ended | (state.cur_token == end_marker), axis=-1).astype(jnp.int32)')]
NEEDS='a sequence that ends before the others of its batch'
BREAKS='the score also counts the step after the end token'
DEMO='''import t5xshim, sys
import numpy as np, jax, jax.numpy as jnp
from t5x import decoding as d
L = np.array([-30., .5, 1., .8])
def fn(state): return jnp.tile(jnp.asarray(L)[None], (state.cur_token.shape[0], 1)), state.cache
ls = L - np.log(np.exp(L).sum()); bad = n = 0
for s in range(4):
  out, lp = d.temperature_sample(jnp.zeros((3, 9), jnp.int32), {}, fn, eos_id=1, decode_rng=jax.random.PRNGKey(s), temperature=1.0, topk=0, num_decodes=4)
  for o, x in zip(np.asarray(out).reshape(12, -1), np.asarray(lp).reshape(-1)):
    o = list(o); e = o.index(1) + 1 if 1 in o else len(o); want = ls[o[:e]].sum(); n += 1; bad += abs(want - x) > 1e-3
print(bad, n)
sys.exit(1 if bad else 0)
'''
