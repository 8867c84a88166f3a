ID='o02_override_first'; PROP='O02'
EDITS=[('t5x/optimizers.py','hps = [hp.replace(**hyper_param_overrides) for hp in hps]','hps = [\n          hp.replace(**hyper_param_overrides) if type(hp) is type(hps[0]) else hp\n          for hp in hps\n      ]')]
NEEDS='a multi-optimizer whose sub-optimizers are of different types, given a learning rate per step'
BREAKS='the step learning rate reaches only the sub-optimizers of the first type'
DEMO='''import t5xshim, sys
import numpy as np, jax.numpy as jnp, flax
from flax import struct
from t5x import optimizers as O, adafactor
@struct.dataclass
class HP: learning_rate: float = 0.1
@struct.dataclass
class HP2: learning_rate: float = 0.1
class S(O.OptimizerDef):
  def __init__(s, hp): super().__init__(hp)
  def init_param_state(s, p): return ()
  def init_state(s, params): return O.OptimizerState(jnp.asarray(0, jnp.int32), flax.traverse_util.unflatten_dict({k: jnp.zeros(()) for k in flax.traverse_util.flatten_dict(params)}) if isinstance(params, dict) else {})
  def apply_gradient(s, hp, params, state, grads):
    import jax
    return jax.tree.map(lambda p, g: p - hp.learning_rate * g, params, grads), O.OptimizerState(state.step + 1, state.param_states)
import flax.traverse_util as tu
d = O.MultiOptimizer([(tu.ModelParamTraversal(lambda p, _: 'a' in p), S(HP())), (tu.ModelParamTraversal(lambda p, _: 'b' in p), S(HP2()))])
P = {'a': jnp.ones(2), 'b': jnp.ones(2)}
o = d.create(P); n = o.apply_gradient({'a': jnp.ones(2), 'b': jnp.ones(2)}, learning_rate=0.5)
print(n.target)
sys.exit(0 if np.allclose(n.target['a'], .5) and np.allclose(n.target['b'], .5) else 1)
'''
