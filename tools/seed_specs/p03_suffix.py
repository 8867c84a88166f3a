ID='p03_numbered_names'; PROP='P03'
EDITS=[('t5x/utils.py',"""    param_axes_key = key[:-1] + (f'{key[-1]}_axes',)""","""    param_axes_key = key[:-1] + (f'{key[-1].rstrip("0123456789")}_axes',)""")]
NEEDS='an axis-name override for a parameter whose own name ends in a digit'
BREAKS='the override is recorded under another name, so the parameter keeps its old axes (or a namesake gets them)'
DEMO='''import t5xshim, sys
import numpy as np, flax
from flax.linen import partitioning as fp
from t5x import utils
v = flax.core.freeze({'params': {'a': {'w': np.zeros((2, 3)), 'w2': np.zeros((2, 3))}}, 'params_axes': {'a': {'w_axes': fp.AxisMetadata(names=('x', 'y')), 'w2_axes': fp.AxisMetadata(names=('x', 'y'))}}})
r = utils.override_params_axes_names(v, [('a/w2', ('p', 'q'))])['params_axes']['a']
print(r)
sys.exit(0 if tuple(r['w2_axes'].names) == ('p', 'q') and tuple(r['w_axes'].names) == ('x', 'y') else 1)
'''
