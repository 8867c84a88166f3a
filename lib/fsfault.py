"""File-system fault injection: loads lib/fsshim.c under the process (re-executes once)."""
import ctypes, os, subprocess, sys, tempfile, time

def build(d):
  so = os.path.join(d, 'fsshim.so')
  subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fsshim.c'), '-ldl', '-lpthread'], check=True)
  return so

def ensure():
  """Call first thing in a check: re-executes the check under the monitor."""
  if os.environ.get('VERIF_FSSHIM'):
    return
  so = build(os.environ.get('VERIF_SCRATCH') or tempfile.mkdtemp(prefix='verif_shim_'))
  env = dict(os.environ, VERIF_FSSHIM=so, LD_PRELOAD=so)
  os.execve(sys.executable, [sys.executable] + sys.argv, env)

_L = None
def _lib():
  global _L
  if _L is None:
    os.environ.pop('LD_PRELOAD', None)
    _L = ctypes.CDLL(os.environ['VERIF_FSSHIM'])
    _L.fs_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    _L.fs_count.restype = ctypes.c_long
    _L.fs_log.restype = ctypes.c_char_p
    _L.fs_trace.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_uint, ctypes.c_int, ctypes.c_int, ctypes.c_long]
  return _L

COUNT, DEAD, ERROR = 0, 1, 2

class faults:
  """with faults(dir, mode, k) as f: ...   f.ops, f.log, f.dead afterwards."""
  def __init__(self, d, mode=COUNT, k=0, err=0):
    self.a = (d.encode(), mode, k, err)
  def __enter__(self):
    _lib().fs_arm(*self.a); return self
  def __exit__(self, *x):
    L = _lib()
    # Background writers of the code under test finish (or fail) first.
    last, quiet = -1, 0
    for _ in range(400):
      now = L.fs_count()
      quiet = quiet + 1 if now == last else 0
      if quiet >= 4 or (not L.fs_dead() and self.a[1] == COUNT): break
      last = now; time.sleep(.003)
    self.ops, self.dead, self.log = L.fs_count(), bool(L.fs_dead()), L.fs_log().decode('utf8', 'replace').splitlines()
    L.fs_disarm()


def trace(prefix, log, who, seed, permille, us, kill=-1):
  """Records this process's mutations below prefix in the shared log, delays some, dies at the kill-th."""
  _lib().fs_trace(prefix.encode(), log.encode(), who, seed & 0xffffffff, permille, us, kill)

def untrace(): 
  n = _lib().fs_count(); _lib().fs_disarm(); return n
