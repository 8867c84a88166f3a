ID='n03_score_of_best'; PROP='N03'
EDITS=[('t5x/models.py',"      return decodes[:, -1, :], {'scores': scores[:, -1]}","      return decodes[:, -1, :], {'scores': jnp.max(scores, axis=-1) if scores.shape[1] == 1 else scores[:, 0]}")]
NEEDS='several decodes per input with only the best one returned'
BREAKS='the returned score belongs to the worst decode'
LIBS=['netlib.py']
DEMO='''import t5xshim, sys
import numpy as np, jax, jax.numpy as jnp, functools, optax, seqio
import netlib as N
from t5x import models, decoding, optimizers
byte = seqio.ByteVocabulary()
mod = N.module('t5', vocab_size=byte.vocab_size + 1, layers=1)
m = models.EncoderDecoderModel(mod, byte, byte, optimizers.OptaxWrapper(optax.sgd(.1)), decode_fn=decoding.beam_search)
sh = dict(encoder_input_tokens=(2, 5), decoder_target_tokens=(2, 6), decoder_input_tokens=(2, 6), decoder_loss_weights=(2, 6))
v = m.get_initial_variables(jax.random.PRNGKey(0), sh)
b = {k: jnp.asarray(np.random.RandomState(1).randint(3, 100, s), jnp.int32) for k, s in sh.items()}
all_, aux = m.predict_batch_with_aux(v['params'], b, return_all_decodes=True, num_decodes=3)
one, aux1 = m.predict_batch_with_aux(v['params'], b, return_all_decodes=False, num_decodes=3)
print(aux['scores'], aux1['scores'])
sys.exit(0 if np.allclose(aux['scores'][:, -1], aux1['scores']) and np.array_equal(all_[:, -1], one) else 1)
'''
