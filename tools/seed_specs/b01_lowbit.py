ID='b01_low_bit'; PROP='B01'
EDITS=[('t5x/binary_search.py','''  current_bits = lax.fori_loop(0, 31, loop_body, current_bits)''','''  current_bits = lax.fori_loop(0, 30, loop_body, current_bits)''')]
NEEDS='two neighbouring candidates whose values differ in the last bit of the float'
BREAKS='the cut-off is found to 31 bits only, so a mask keeps an element outside the top k'
DEMO='''import t5xshim, sys
import numpy as np, jax.numpy as jnp
from t5x import binary_search as b
bad = 0
for v in (1.0, 2.5, 3.0, 0.1, 7.7):
  a = np.float32(v); n = np.nextafter(a, np.float32(0)); n2 = np.nextafter(n, np.float32(0))
  for xs in ([n, a, n2, 0], [-a, -n, -n2, -9], [a, n, n2, -a]):
    x = jnp.asarray([xs], jnp.float32)
    for k in (1, 2):
      kept = int((np.asarray(b.topk_mask(x, k, -1e9)) > -1e8).sum()); bad += kept != k
print(bad)
sys.exit(1 if bad else 0)
'''
