ID='t06_min_in_warmup'; PROP='T06'
EDITS=[('t5x/utils.py','''    ret = jnp.maximum(ret, min_learning_rate)''','''    if 'cosine_decay' in factors or 'linear_decay' in factors:
      ret = jnp.maximum(ret, jnp.minimum(min_learning_rate, base_learning_rate))
    else:
      ret = jnp.maximum(ret, min_learning_rate)''')]
NEEDS='a decay factor whose minimum learning rate is above the base rate'
BREAKS='the minimum learning rate is not honoured'
DEMO='''import t5xshim, sys
import numpy as np
from t5x import utils
bad = 0
for f in ('constant * cosine_decay', 'linear_decay', 'constant * linear_warmup'):
  fn = utils.create_learning_rate_scheduler(factors=f, base_learning_rate=.01, warmup_steps=10, steps_per_cycle=50, min_learning_rate=.5)
  for s in (0, 1, 5, 20, 40, 60): bad += float(fn(s)) < .5 - 1e-6
print(bad)
sys.exit(1 if bad else 0)
'''
