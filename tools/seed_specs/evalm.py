ID='s01_step_mutables'; PROP='S01'
EDITS=[('t5x/train_state.py','''    state_dict = self.state_dict()
    state_dict['state']['step'] = step
    return self.restore_state(state_dict)
''','''    state_dict = self._optimizer.state_dict()
    state_dict['state']['step'] = step
    return self.restore_state(state_dict)
''')]
NEEDS='a state with mutable collections whose step is replaced'
BREAKS='replacing the step silently drops the mutable collections'
DEMO='''import t5xshim, sys
import numpy as np, jax.numpy as jnp, flax, optax
from t5x import train_state as ts, optimizers
v = flax.core.freeze({'params': {'w': jnp.ones((3,))}, 'stats': {'m': jnp.full((2,), 7.)}})
s = ts.FlaxOptimTrainState.create(optimizers.OptaxWrapper(optax.sgd(.1)), v)
n = s.replace_step(jnp.asarray(5))
ok = int(n.step) == 5 and 'stats' in n.flax_mutables and np.allclose(n.flax_mutables['stats']['m'], 7)
print(n.flax_mutables)
sys.exit(0 if ok else 1)
'''
