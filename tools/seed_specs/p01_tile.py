ID='p01_tile_order'; PROP='P01'
EDITS=[('t5x/partitioning.py','return (d // (l // m), l // m, 1, m)','return (l // m, d // (l // m), 1, m)')]
NEEDS='a two-dimensional torus of hosts tiled by host, with several model submeshes inside a host block and another number of hosts per dimension'
BREAKS='the devices of one host are scattered over the data axis, so hosts read other batch shards than their devices hold'
DEMO='''import t5xshim, sys, types
import numpy as np, jax
from t5x import partitioning as p
class Dev:
  def __init__(s, i, c, h): s.id, s.coords, s.process_index, s.core_on_chip, s.platform, s.device_kind = i, c, h, 0, 'tpu', 'x'
  def __repr__(s): return str(s.coords)
  client = types.SimpleNamespace(platform='tpu')
devs = []
for x in range(16):
  for y in range(8): devs.append(Dev(len(devs), (x, y, 0), x // 4 * 4 + y // 2))
try: m = p.get_mesh((2, 1, 1, 1), input_devices=devs, input_local_devices=[d for d in devs if d.process_index == 0])
except Exception as e: print(repr(e)); sys.exit(3)
bad = 0
for h in range(16):
  rows = [i for i, row in enumerate(m.devices) if any(d.process_index == h for d in row)]
  bad += rows != list(range(rows[0], rows[0] + 4)) or rows[0] % 4 != 0
print(bad)
sys.exit(1 if bad else 0)
'''
