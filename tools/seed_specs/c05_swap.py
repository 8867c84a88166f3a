ID='c05_renamed_stays'; PROP='C05'
EDITS=[('t5x/state_utils.py','unmapped_old_keys.pop(old_k, None)','unmapped_old_keys.pop(k, None)')]
NEEDS='an assignment map that renames a parameter to a name the checkpoint does not hold'
BREAKS='the renamed parameter also stays in the state under its old name'
DEMO='''import t5xshim, sys
import numpy as np
from t5x import state_utils as s
ck = {'target': {'old': np.ones(2), 'keep': np.zeros(3)}}; opt = {'target': {'new': np.zeros(2), 'keep': np.zeros(3)}}
r = s.apply_assignment_map(ck, opt, [(r'target/new', r'target/old')])
print(r)
sys.exit(0 if set(r['target']) == {'new', 'keep'} else 1)
'''
