ID='d03_topk_lanes'; PROP='D03'
EDITS=[('t5x/decoding.py','''    vals, indices = lax.top_k(x_reshaped, k)
    indices = jnp.reshape(indices, (batch, num_lanes, k))
''','''    lane_k = (k + 1) // 2
    vals, indices = lax.top_k(x_reshaped, lane_k)
    indices = jnp.reshape(indices, (batch, num_lanes, lane_k))
'''),('t5x/decoding.py','''        jnp.add(index_offsets, indices), (batch, num_lanes * k)
    )
    vals = jnp.reshape(vals, (batch, num_lanes * k))
''','''        jnp.add(index_offsets, indices), (batch, num_lanes * lane_k)
    )
    vals = jnp.reshape(vals, (batch, num_lanes * lane_k))
''')]
NEEDS='a vocabulary large enough for the two-stage top-k (more than 1024 times the kept candidates) and most of the best continuations inside one lane of neighbouring ids'
BREAKS='beam search drops candidates that are among the best, so worse hypotheses are returned'
DEMO='''import t5xshim, sys
import numpy as np, jax.numpy as jnp
from t5x import decoding
rng = np.random.RandomState(0)
V = 128 * 40
# probability mass sits in one block of neighbouring ids
base = rng.uniform(-9, -8, (V,)); base[200:220] = rng.uniform(0, 1, 20)
x = np.stack([base, rng.permutation(base)]).astype(np.float32)
v, i = decoding.top_k_two_stage(jnp.asarray(x), 4)
w = -np.sort(-x, axis=1)[:, :4]
ok = np.allclose(v, w) and np.allclose(np.take_along_axis(x, np.asarray(i), 1), w)
print('top-k', np.asarray(v), 'want', w)
def f(s): return jnp.broadcast_to(jnp.asarray(base, jnp.float32), (s.cur_token.shape[0], V)), s.cache
seqs, sc = decoding.beam_search(jnp.zeros((1, 3), jnp.int32), {}, f, eos_id=1, num_decodes=2, alpha=0.0)
lp = base - np.log(np.exp(base).sum())
# the best three-token continuation repeats the most likely token
best = int(np.argmax(base))
ok = ok and list(np.asarray(seqs)[0, -1]) == [best] * 3
second = sorted(base)[-2] - sorted(base)[-1]
got = np.asarray(sc)[0]
ok = ok and abs((got[1] - got[0]) + second) < 1e-3
print(seqs, sc, ok)
sys.exit(0 if ok else 1)
'''
