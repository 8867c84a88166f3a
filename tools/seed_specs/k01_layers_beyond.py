ID = 'k01_layers_beyond'; PROP = 'K01'
EDITS = [('t5x/contrib/calm/models.py', "start_idx=interval[0],\n            end_idx=None,\n            mutable=['cache'],\n            only_propagate_state=True,", "start_idx=interval[0],\n            end_idx=interval[1],\n            mutable=['cache'],\n            only_propagate_state=True,")]
NEEDS = 'a token that leaves two or more exits before the top, followed by a token of the same sequence that uses the layers in between'
BREAKS = 'the state of a token that left early is propagated to the next segment only; the layers above it keep empty keys and a stale cache index, so later tokens that climb higher attend to zeros or overwrite other positions'
LIBS = ['calmlib.py', 'trainlib.py', 'vlib.py']
DEMO = '''import os
import t5xshim
import numpy as np, jax, jax.numpy as jnp
import calmlib as C
bad = seen = 0
for seed in range(8):
  net = C.Net(5, 5, 11, False, 0.8); p = C.params(net, seed, 3, 8); rng = np.random.default_rng(seed)
  b = dict(encoder_input_tokens=jnp.asarray(rng.integers(1, 11, (1, 3)), jnp.int32), decoder_input_tokens=jnp.zeros((1, 8), jnp.int32))
  cfg = dict(C.DEFAULTS, conf_threshold=.6, conf_method='softmax_max'); m = C.model(net, apply_early_inference=True, **cfg)
  d, a = m.predict_batch_with_aux(p, b, rng=jax.random.PRNGKey(0), decoder_params=dict(temperature=0.0))
  d, ex, cf = np.asarray(d)[0], np.asarray(a['exits'])[0], np.asarray(a['confidences'])[0]
  rep = C.Replay(p, net, np.asarray(b['encoder_input_tokens']), 8, cfg); tok = np.zeros(1, int); low = False
  for t in range(8):
    if ex[t] < 0: break
    _, conf, layer, margin = rep.step(tok)
    if margin < 5e-3: break
    seen += low and layer > 3; low = low or layer < 3
    if layer != ex[t] or abs(conf[0] - cf[t]) > 2e-3: bad += 1; break
    tok = np.array([d[t]])
print('tokens above an early one', seen, 'bad', bad)
assert seen or bad
raise SystemExit(bool(bad))
'''
