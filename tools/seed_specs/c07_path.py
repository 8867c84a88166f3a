ID='c07_latest_by_name'; PROP='C07'
EDITS=[('t5x/utils.py','ckpt_paths = ckpt_paths[-1:]','ckpt_paths = [max(ckpt_paths)]')]
NEEDS='a directory whose newest step has more digits than an older one'
BREAKS='an older checkpoint is restored as the latest'
DEMO='''import t5xshim, sys, os
from t5x import utils
d = os.path.join(os.environ['SCRATCH'], 'm'); bad = 0
for s in (9, 10): 
  os.makedirs(f'{d}/checkpoint_{s}'); open(f'{d}/checkpoint_{s}/checkpoint', 'w').write('x')
cfg, paths = utils.get_first_valid_restore_config_and_paths([utils.RestoreCheckpointConfig(path=d, mode='latest')])
print(paths)
sys.exit(0 if [os.path.basename(p) for p in paths] == ['checkpoint_10'] else 1)
'''
