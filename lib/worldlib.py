"""Simulated devices of many hosts, seen through jax from one host at a time, and the meaning of partition specifications."""
import contextlib, dataclasses, itertools
from unittest import mock
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax
from jax._src import xla_bridge as xb

@dataclasses.dataclass(frozen=True)
class Tpu:
  id: int; process_index: int; coords: tuple; core_on_chip: int; device_kind: str = 'TPU v3'; platform: str = 'tpu'; slice_index: int = 0
@dataclasses.dataclass(frozen=True)
class Plain:
  id: int; process_index: int; device_kind: str = 'gpu'; platform: str = 'gpu'

HOST = [0]
@contextlib.contextmanager
def world(devices):
  """jax sees these devices, from the host HOST[0]."""
  local = lambda h=None: [d for d in devices if d.process_index == (HOST[0] if h is None else h)]
  n = len(set(d.process_index for d in devices))
  HOST[0] = 0
  with contextlib.ExitStack() as st:
    for name, f in (('devices', lambda backend=None: list(devices)), ('local_devices', lambda process_index=None, backend=None, host_id=None: local(process_index)), ('local_device_count', lambda backend=None: len(local())),
                    ('process_count', lambda backend=None: n), ('process_index', lambda backend=None: HOST[0]), ('device_count', lambda backend=None: len(devices))):
      st.enter_context(mock.patch.object(jax, name, f))
      if hasattr(xb, name): st.enter_context(mock.patch.object(xb, name, f))
    yield n

def divs(n): return [d for d in range(1, n + 1) if n % d == 0]

def region(mesh, spec, shape, host):
  """Slices of an array on the devices of the host, by the definition of a partition specification."""
  names = mesh.axis_names; out = set()
  for pos in np.ndindex(mesh.devices.shape):
    if mesh.devices[pos].process_index != host: continue
    box = []
    for ax, n in zip(list(spec) + [None] * (len(shape) - len(spec)), shape):
      if ax is None: box.append((0, n)); continue
      axs = (ax,) if isinstance(ax, str) else ax
      k, j = 1, 0
      for a in axs: j = j * mesh.shape[a] + pos[names.index(a)]; k *= mesh.shape[a]
      box.append((j * n // k, (j + 1) * n // k))
    out.add(tuple(box))
  return out

def hull(boxes): return tuple((min(b[i][0] for b in boxes), max(b[i][1] for b in boxes)) for i in range(len(next(iter(boxes)))))

def covers(boxes, h):
  cells = set(itertools.product(*[range(a, b) for a, b in h]))
  have = set(); [have.update(itertools.product(*[range(a, b) for a, b in x])) for x in boxes]
  return have == cells

def tpu(dims, host, kind='TPU v3', slices=1):
  out = []; hd = [d // h for d, h in zip(dims, host)]; per = int(np.prod(hd))
  for s in range(slices):
    for x, y, z, k in itertools.product(*map(range, dims)):
      b = (x // host[0], y // host[1], z // host[2], k // host[3]); pi = ((b[2] * hd[1] + b[1]) * hd[0] + b[0]) * hd[3] + b[3] + s * per
      out.append(Tpu(len(out), pi, (x, y, z), k, kind, 'tpu', s))
  order = list(range(len(out)))
  return out
