ID='n01_packed_cross_leak'; PROP='N01'
EDITS=[('t5x/examples/t5/network.py','''              decoder_segment_ids,
              encoder_segment_ids,
              jnp.equal,
''','''              decoder_segment_ids,
              encoder_segment_ids,
              jnp.greater_equal,
''')]
NEEDS='a packed batch with at least two segments in a row'
BREAKS='a later packed example reads the inputs of the examples packed before it'
LIBS=['netlib.py']
DEMO='''import t5xshim, sys
import numpy as np, jax.numpy as jnp
import netlib as N
mod = N.module('t5'); p = N.init(mod, 't5', 0)
e = np.array([[3, 4, 5, 6, 7, 8]]); d = np.array([[5, 6, 7, 3, 4, 2]]); seg = np.array([[1, 1, 1, 2, 2, 2]]); pos = np.array([[0, 1, 2, 0, 1, 2]])
f = lambda e: np.asarray(mod.apply({'params': p}, e, N.shift(d), d, encoder_segment_ids=seg, decoder_segment_ids=seg, encoder_positions=pos, decoder_positions=pos, enable_dropout=False))
e2 = e.copy(); e2[0, 0] = 9
diff = np.abs(f(e) - f(e2)).max(-1)[0]
print(diff)
sys.exit(0 if diff[3:].max() < 1e-6 and diff[:3].max() > 1e-6 else 1)
'''
