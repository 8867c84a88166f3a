ID='t04_relative_to_current'; PROP='T04'
EDITS=[('t5x/trainer.py','delta = self._atol + self._rtol * abs(previous)','delta = self._atol + self._rtol * abs(current)')]
NEEDS='early stopping with a relative tolerance and an improvement between the tolerance relative to the old and to the new value'
BREAKS='a run is stopped (or not) by another condition than the documented one'
DEMO='''import t5xshim, sys
import clu.values
from t5x import trainer
bad = 0
for mode, vals, want in (('min', [100., 92.], False), ('min', [100., 90.5], True), ('max', [100., 110.5], False), ('max', [100., 109.], True)):
  a = trainer.EarlyStoppingAction(metric=('t', 'm'), mode=mode, patience=2, rtol=.1)
  class S: step = 0
  for v in vals: r = a.run(S(), {'t': {'m': clu.values.Scalar(v)}})
  print(mode, vals, bool(r)); want = (vals[1] >= vals[0] - .1 * vals[0]) if mode == 'min' else (vals[1] <= vals[0] + .1 * vals[0]); bad += bool(r) != want
# between the two tolerances
a = trainer.EarlyStoppingAction(metric=('t', 'm'), mode='max', patience=2, rtol=.1)
for v in (100., 110.5): r = a.run(S(), {'t': {'m': clu.values.Scalar(v)}})
bad += bool(r)
print(bad)
sys.exit(1 if bad else 0)
'''
