ID='o01_clip_after_momentum'; PROP='O01'
EDITS=[('t5x/adafactor.py','''      clipping_denom = jnp.maximum(
          1.0,
          jnp.sqrt(jnp.mean(y * y, axis=averaging_dims, keepdims=True))
          / clipping_threshold,
      )
''','''      rms_dims = averaging_dims if factored_dims is not None else None
      clipping_denom = jnp.maximum(
          1.0,
          jnp.sqrt(jnp.mean(y * y, axis=rms_dims, keepdims=True))
          / clipping_threshold,
      )
''')]
NEEDS='a scanned (stacked) parameter that is not factored, e.g. layer-norm scales or biases, with very different gradient magnitudes per layer relative to their history'
BREAKS='update clipping of an unfactored scanned parameter mixes its layers'
DEMO='''import t5xshim, sys
import numpy as np, jax.numpy as jnp
import flax, jax
from t5x import adafactor
def run(stacked):
  out = []
  rules = adafactor.standard_logical_factor_rules({'layers': adafactor.FactorDim.BATCH}) if False else flax.core.freeze({'layers': adafactor.FactorDim.BATCH, 'embed': adafactor.FactorDim.NONE})
  hp = dict(learning_rate=.1, beta1=None, clipping_threshold=1.0, multiply_by_parameter_scale=False, logical_factor_rules=rules)
  def traj(p, gs, axes):
    d = adafactor.Adafactor(**hp); d.set_param_axes({'w': jax.sharding.PartitionSpec(*axes)})
    o = d.create({'w': jnp.asarray(p)})
    for g in gs: o = o.apply_gradient({'w': jnp.asarray(g)})
    return np.asarray(o.target['w'])
  rng = np.random.RandomState(0)
  p = rng.randn(3, 8).astype(np.float32)
  gs = [rng.randn(3, 8).astype(np.float32) * np.array([[1.], [s], [.1]], np.float32) for s in (1, 50, 1, 200)]
  a = traj(p, gs, ('layers', 'embed'))
  b = np.stack([traj(p[i], [g[i] for g in gs], ('embed',)) for i in range(3)])
  return a, b
a, b = run(True)
print(np.abs(a - b).max())
sys.exit(0 if np.allclose(a, b, rtol=1e-4, atol=1e-5) else 1)
'''
