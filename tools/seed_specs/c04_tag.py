ID='c04_metric_prefix'; PROP='C04'
EDITS=[('t5x/checkpoints.py',"event.summary.value[0].tag != metric_tag","not event.summary.value[0].tag.startswith(metric_tag)")]
NEEDS='another scalar in the same run whose name continues the name of the monitored metric'
BREAKS='the best checkpoint is chosen by the wrong scalar'
DEMO='''import t5xshim, sys, os
import tensorflow as tf
from t5x import checkpoints
d = os.path.join(os.environ['SCRATCH'], 'm'); os.makedirs(d)
w = tf.summary.create_file_writer(os.path.join(d, 'train'))
with w.as_default():
  for s in (1, 2, 3):
    tf.summary.scalar('loss', 10.0 + s, step=s); w.flush()
    tf.summary.scalar('loss_per_token', 100.0 - s, step=s); w.flush()
w.close()
r = checkpoints.populate_metrics_for_steps(d, 'train/loss', [1, 2, 3])
print(r)
sys.exit(0 if {k: float(v) for k, v in r.items()} == {1: 11.0, 2: 12.0, 3: 13.0} else 1)
'''
