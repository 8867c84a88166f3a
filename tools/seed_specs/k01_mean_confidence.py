ID = 'k01_mean_confidence'; PROP = 'K01'
EDITS = [('t5x/contrib/calm/models.py', "        return ((jnp.min(conf) < adjusted_threshold) & (layer < num_layers)) | (\n            layer < self.min_exit\n        )", "        undecided = jnp.mean(conf) < adjusted_threshold\n        return (undecided & (layer < num_layers)) | (layer < self.min_exit)")]
NEEDS = 'two or more rows decoded together whose confidences lie on both sides of the threshold at an exit'
BREAKS = 'decoding leaves the stack when the average confidence of the batch reaches the threshold, so rows that are not confident enough lose their remaining layers; a row\'s exit then depends on its neighbours'
LIBS = ['calmlib.py', 'trainlib.py', 'vlib.py']
DEMO = '''import os
import t5xshim
import numpy as np, jax, jax.numpy as jnp
import calmlib as C
bad = seen = 0
for seed in range(6):
  net = C.Net(4, 5, 11, False, 1.2); p = C.params(net, seed, 3, 6); rng = np.random.default_rng(seed)
  b = dict(encoder_input_tokens=jnp.asarray(rng.integers(1, 11, (3, 3)), jnp.int32), decoder_input_tokens=jnp.zeros((3, 6), jnp.int32))
  m = C.model(net, apply_early_inference=True, **dict(C.DEFAULTS, conf_threshold=.55, conf_method='softmax_max'))
  d, a = m.predict_batch_with_aux(p, b, rng=jax.random.PRNGKey(0), decoder_params=dict(temperature=0.0))
  ex, cf = np.asarray(a['exits']), np.asarray(a['confidences'])
  early = (ex > 0) & (ex < 4); seen += early.sum(); bad += (early & (cf < .55 - 1e-4)).sum()
print('left early', seen, 'without the confidence', bad)
assert seen
raise SystemExit(bool(bad))
'''
