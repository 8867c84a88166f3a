ID='n02_first_step_mask'; PROP='N02'
EDITS=[('t5x/examples/scalable_t5/layers.py','jnp.arange(length) <= cur_index','jnp.arange(length) <= jnp.maximum(cur_index, 1)')]
NEEDS='cached decoding of the scalable network; only the first step is wrong'
BREAKS='the first decoding step also attends to an empty cache slot, so its logits and the cache of every deeper layer differ from teacher forcing'
LIBS=['netlib.py', 'vlib.py']
DEMO='''import t5xshim, sys
import numpy as np, jax, jax.numpy as jnp
import netlib as N
kind = 'scalable'; mod = N.module(kind); p = N.init(mod, kind, 0); L = 5
e = np.array([[3, 4, 5]]); d = np.array([[5, 6, 7, 3, 4]])
full = np.asarray(mod.apply({'params': p}, e, N.shift(d), d, enable_dropout=False))
_, v = mod.apply({'params': p}, jnp.ones_like(e), jnp.ones_like(d), jnp.ones_like(d), decode=True, enable_dropout=False, mutable=['cache'])
enc = mod.apply({'params': p}, e, enable_dropout=False, method=mod.encode); cache = v['cache']; out = []
ins = N.shift(d)
for t in range(L):
  lg, nv = mod.apply({'params': p, 'cache': cache}, enc, e, ins[:, t:t + 1], ins[:, t:t + 1], enable_dropout=False, decode=True, max_decode_length=L, mutable=['cache'], method=mod.decode)
  cache = nv['cache']; out.append(np.asarray(lg)[:, 0])
diff = np.abs(np.stack(out, 1) - full).max()
print(diff)
sys.exit(0 if diff < 1e-3 else 1)
'''
