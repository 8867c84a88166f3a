"""One training process that is killed (SIGKILL) at a random moment: argv = model_dir seed total period orbax kill_ms."""
import sys, os, signal, threading
import t5xshim
import looplib as LL, trainlib as TL
from t5x import utils
d, seed, total, period, orbax, kill = sys.argv[1], *map(int, sys.argv[2:7])
TL.record_writers([])
def before(tr, s, n):
  if kill >= 0 and not getattr(before, 'armed', False):
    before.armed = True
    t = threading.Timer(kill / 1000., lambda: os.kill(os.getpid(), signal.SIGKILL)); t.daemon = True; t.start()
save = utils.SaveCheckpointConfig(period=period, save_dataset=True, keep=None)
LL.run(d, LL.stream(seed), total, [], save=save, before=before, use_orbax=bool(orbax))
