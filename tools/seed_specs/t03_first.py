ID='t03_checkpoint_on_epoch_end'; PROP='T03'
EDITS=[('t5x/utils.py','and curr_checkpoint_step <= epoch_end_step','and curr_checkpoint_step < epoch_end_step')]
NEEDS='an extra checkpoint step that falls on the last step of an inner loop but not on the checkpoint period'
BREAKS='the requested checkpoint is not written'
DEMO='''import t5xshim, sys
from t5x import utils
steps = [6]
got = []
host = 0; idx = 0
for end in (3, 6, 9):
  while host < end:
    idx = utils.find_first_checkpoint_step(idx, steps, 0, host)
    n, flag = utils.find_next_checkpoint_step(idx, end - host, False, host, steps, end, 100, 0)
    host += n
    if flag: got.append(host)
    if n <= 0: break
print(got)
sys.exit(0 if got == [6] else 1)
'''
