ID='l01_zero_weight_segment'; PROP='L01'
EDITS=[('t5x/losses.py','''  start_positions = positions == 0
  final_positions = jnp.concatenate([start_positions[1:], jnp.ones(1)])
''','''  start_positions = positions == 0
  final_positions = jnp.concatenate([start_positions[1:], jnp.zeros(1)])
  # The last real token closes the last segment.
  last_real = jnp.max(jnp.where(segment_ids != 0, jnp.arange(segment_ids.shape[0]), -1))
  final_positions = jnp.where(
      jnp.arange(segment_ids.shape[0]) == last_real,
      (weights[last_real] > 0).astype(final_positions.dtype),
      final_positions,
  )
''')]
NEEDS='packed batches normalised per sequence where the last real token of a row carries no loss weight'
BREAKS='the weights of the last segment are not normalised, so the loss and its divisor are wrong'
DEMO='''import t5xshim, sys
import numpy as np, jax.numpy as jnp
from t5x import losses
b = dict(decoder_target_tokens=jnp.asarray([[3, 4, 5, 6, 7, 0]]), decoder_positions=jnp.asarray([[0, 1, 0, 1, 2, 0]]),
  decoder_segment_ids=jnp.asarray([[1, 1, 2, 2, 2, 0]]), decoder_loss_weights=jnp.asarray([[1., 1., 1., 1., 0., 0.]]))
f, w = losses.get_loss_normalizing_factor_and_weights('AVERAGE_PER_SEQUENCE', b)
print(f, w)
ok = np.allclose(w, [[.5, .5, .5, .5, 0, 0]]) and abs(float(f) - 2) < 1e-5
sys.exit(0 if ok else 1)
'''
