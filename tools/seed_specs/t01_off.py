ID='t01_last_microbatch'; PROP='T01'
EDITS=[('t5x/trainer.py','''      offset = idx * microbatch_size
      length = microbatch_size
''','''      length = microbatch_size
      # Never read past the end of the batch.
      offset = jnp.minimum(idx * length, batch_size - length - num_microbatches % 2)
''')]
NEEDS='an odd number of microbatches larger than one'
BREAKS='the last microbatch overlaps the one before it and the last example is never used'
LIBS=['trainlib.py']
DEMO='''import t5xshim, sys
import numpy as np, jax
import trainlib as TL
from t5x import trainer
rng = np.random.default_rng(0); bad = 0
for n, k in ((6, 2), (6, 3), (9, 3), (10, 5)):
  s = TL.make_state(rng); b = TL.batch(rng, list(range(1, n + 1))); m = TL.Lin()
  g1, _, _ = trainer.accumulate_grads_microbatched(m, s, b, jax.random.PRNGKey(0), None)
  g2, _, _ = trainer.accumulate_grads_microbatched(m, s, b, jax.random.PRNGKey(0), k)
  ok = all(np.allclose(g1[q], g2[q], rtol=1e-3, atol=1e-3) for q in ('w', 'seen'))
  print(n, k, ok); bad += not ok
sys.exit(1 if bad else 0)
'''
