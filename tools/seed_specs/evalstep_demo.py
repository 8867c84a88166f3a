import t5xshim, sys
import numpy as np, jax
import trainlib as TL
TL.record_writers([])
rng = np.random.default_rng(0)
s = TL.make_state(rng); m = TL.Lin()
t = TL.make_trainer(s, m, lambda step: 0.1, eval_names=['a', 'b'])
out = t.eval({'a': iter([TL.batch(rng, [1, 2]), TL.batch(rng, [3, 4])]), 'b': iter([TL.batch(rng, [10, 20])])})
print({k: float(v['ids'].value) for k, v in out.items()})
sys.exit(0 if float(out['a']['ids'].value) == 10 and float(out['b']['ids'].value) == 30 else 1)
