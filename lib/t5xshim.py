"""Makes /repo's t5x importable with the library versions installed here.

* jax.experimental.pjit.PartitionSpec was removed from recent JAX; it is the
  same object as jax.sharding.PartitionSpec.
* airio is not installed; t5x only uses a few of its classes for isinstance
  checks and annotations.
Import this before importing anything from t5x.
"""
import importlib.machinery
import os
import sys
import types

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('NO_GCE_CHECK', 'true')

import jax  # pylint: disable=g-import-not-at-top
import jax.experimental.pjit as _pjit
from jax.sharding import PartitionSpec as _PS

if not hasattr(_pjit, 'PartitionSpec'):
  _pjit.PartitionSpec = _PS

if 'airio' not in sys.modules:
  _airio = types.ModuleType('airio')
  _airio.__path__ = []
  _airio.__spec__ = importlib.machinery.ModuleSpec(
      'airio', None, is_package=True)

  class DatasetProviderBase:
    pass

  class Task(DatasetProviderBase):
    pass

  class Mixture(DatasetProviderBase):
    pass

  class AirIODatasetIterator:
    pass

  _core = types.ModuleType('airio.core')
  _core.Task = Task
  _core.Mixture = Mixture
  _core.DatasetProviderBase = DatasetProviderBase
  _core.AirIODatasetIterator = AirIODatasetIterator
  _airio.core = _core
  sys.modules['airio'] = _airio
  sys.modules['airio.core'] = _core

import logging as _logging
_logging.getLogger('absl').setLevel(_logging.ERROR)
import absl.logging as _al
_al.set_verbosity(_al.FATAL)
_al.use_absl_handler()
import warnings as _w
_w.filterwarnings('ignore')


def _patch_flax_scan():
  """flax 0.10.4's nn.scan expects jax.api_util.debug_info (newer JAX)."""
  import jax.api_util
  if hasattr(jax.api_util, 'debug_info'):
    return
  jax.api_util.debug_info = lambda *a, **k: None
  from flax.core import axes_scan

  class _LU:
    def __init__(self, lu):
      self._lu = lu

    def __getattr__(self, name):
      return getattr(self._lu, name)

    def wrap_init(self, f, params=None, debug_info=None):
      del debug_info
      return self._lu.wrap_init(f, params)

  axes_scan.lu = _LU(axes_scan.lu)


_patch_flax_scan()
