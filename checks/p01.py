import vlib, t5xshim
import collections, itertools, os
import numpy as np
import jax
import mproc
from t5x import partitioning
c = vlib.Check('P01', rule='one case = one device topology (simulated TPU torus, GPU cluster, CPU hosts, multi-slice; or real processes) with one way of asking for partitions; the mesh, every host\'s layout and chunks of many arrays are compared; '
  'distinct by topology and request')
rng = c.rng

from worldlib import HOST, Plain, Tpu, covers, divs, hull, region, tpu, world

def arrays(mesh):
  axes = list(mesh.axis_names); out = []
  for r in (1, 2, 2, 3):
    spec = [None] * r
    for a in rng.permutation(axes)[:int(rng.integers(0, len(axes) + 1))]:
      j = int(rng.integers(0, r))
      if spec[j] is None: spec[j] = str(a)
    shape = tuple(int(rng.integers(1, 3)) * (mesh.shape[s] if s else int(rng.integers(1, 4))) for s in spec)
    out.append((shape, tuple(spec)))
  out.append(((3,), (None,)))
  return list(dict.fromkeys(out))

def layouts(p, devices, n, det):
  """Layout and chunks of every host of one partitioner (a new one per host, as each host has its own)."""
  mesh = p.mesh
  c.check(sorted(d.id for d in mesh.devices.flat) == sorted(d.id for d in devices), 'mesh:not-every-device-once', got=sorted(d.id for d in mesh.devices.flat)[:20], **det)
  data_axes = ('data',) if mesh.devices.ndim == 2 else ('replica', 'data'); ds = int(np.prod([mesh.shape[a] for a in data_axes]))
  arrs = arrays(mesh); chunks = collections.defaultdict(lambda: collections.defaultdict(list)); shards = collections.defaultdict(list); same = set()
  B = ds * int(rng.integers(1, 3))
  bad = B + int(rng.integers(1, ds)) if ds > 1 else None
  for h in range(n):
    HOST[0] = h
    try: q = partitioning.PjitPartitioner(**det['kw']); same.add(tuple(d.id for d in q.mesh.devices.flat)); l = q.get_data_layout(B); q._local_chunker
    except ValueError as e:
      # JAX cannot describe a host whose devices are scattered over the mesh.
      if 'contiguous subcube' in str(e): c.event('not-contiguous'); return False
      raise
    c.check(q.data_mesh_size == ds, 'layout:data-mesh-size', got=q.data_mesh_size, want=ds, **det)
    c.check(q.get_data_layout().batch_size == ds, 'layout:default-batch', got=q.get_data_layout().batch_size, want=ds, **det)
    if bad:
      try: q.get_data_layout(bad); c.violation('layout:bad-batch-accepted', batch=bad, **det)
      except ValueError: c.event('batch-rejected')
    c.check(l.batch_size == B and 0 <= l.shard_id < l.num_shards and B % l.num_shards == 0, 'layout:fields', got=repr(l), batch=B, **det)
    rows = {x[0] for x in region(mesh, [data_axes], (B,), h)}; lo, hi = min(r[0] for r in rows), max(r[1] for r in rows)
    k = B // l.num_shards
    c.check((lo, hi) == (l.shard_id * k, (l.shard_id + 1) * k) and covers({(r,) for r in rows}, ((lo, hi),)), 'layout:shard-not-the-rows-of-the-host', at_host=h, shard=l.shard_id, num_shards=l.num_shards, batch=B, rows=sorted(rows)[:8], **det)
    shards[l.shard_id].append(bool(l.is_first_host_in_replica_set)); num = l.num_shards
    for shape, spec in arrs:
      info = q.get_local_chunk_info(shape, spec); got = tuple((s.start or 0, d if s.stop is None else s.stop) for s, d in zip(info.slice, shape))
      real = region(mesh, spec, shape, h)
      c.check(got == hull(real) and covers(real, got), 'chunk:not-what-the-host-holds', at_host=h, shape=shape, spec=spec, got=got, real=sorted(real)[:6], **det)
      chunks[(shape, spec)][got].append(int(info.replica_id))
      c.event('chunks')
  HOST[0] = 0
  c.check(len(same) == 1, 'mesh:differs-between-hosts', **det)
  c.check(sorted(shards) == list(range(num)), 'layout:shards', got=sorted(shards), want=num, **det)
  c.check(all(sum(v) == 1 for v in shards.values()), 'layout:first-hosts', got={k: v for k, v in list(shards.items())[:6]}, **det)
  c.event('hosts', n); c.event('shared-shards', any(len(v) > 1 for v in shards.values()))
  for (shape, spec), by in chunks.items():
    # Every element is in exactly one distinct chunk, and its copies are numbered.
    cells = collections.Counter(x for b in by for x in itertools.product(*[range(a, e) for a, e in b]))
    c.check(len(cells) == int(np.prod(shape)) and set(cells.values()) == {1}, 'chunk:do-not-tile', shape=shape, spec=spec, chunks=sorted(by)[:8], **det)
    c.check(all(sorted(v) == list(range(len(v))) for v in by.values()), 'chunk:replica-ids', shape=shape, spec=spec, got={str(k): v for k, v in list(by.items())[:6]}, **det)
  return True

def torus(i):
  """get_mesh over simulated TPU slices."""
  cores = int(rng.choice([1, 2])); host = [(2, 2, 1, cores), (1, 1, 1, cores), (2, 1, 1, cores), (2, 2, 2, cores)][int(rng.choice([0, 0, 0, 1, 2, 3]))]
  nb = [int(rng.choice([1, 2, 2, 4])) for _ in range(3)]
  if rng.random() < .5: nb[2] = 1
  if rng.random() < .25: host, nb = (2, 2, 1, cores), [4, 4, 1] if rng.random() < .5 else [2, 4, 1]; rng.shuffle(nb[:2])   # wide enough for several hosts along both data dimensions
  while np.prod(nb) * np.prod(host) > 128: nb[int(np.argmax(nb))] //= 2
  dims = tuple(h * b for h, b in zip(host[:3], nb)) + (cores,)
  if rng.random() < .15: dims = tuple(int(x) for x in (6, 2, 1)) + (cores,); host = (2, 2, 1, cores)
  mps = tuple(int(rng.choice(divs(g))) for g in dims)
  devices = tpu(dims, host); shuffled = [devices[j] for j in rng.permutation(len(devices))] if rng.random() < .3 else devices
  kw = dict(model_parallel_submesh=mps); det = dict(dims=dims, host_block=host, kw=kw, shuffled=shuffled is not devices)
  with world(shuffled) as n:
    # A local corner host whose coordinates start at the origin, as get_mesh expects of jax.local_devices(0).
    try: p = partitioning.PjitPartitioner(**kw); mesh = p.mesh
    except AssertionError as e:
      ok_m = all(m % l == 0 or l % m == 0 for m, l in zip(mps, host))
      c.event('mesh-rejected'); c.check(not ok_m or mps[3] != cores, 'mesh:rejected', error=repr(e)[:200], **det); c.case(('torus', str(det)), False); return
    c.check(dict(mesh.shape) == {'data': len(devices) // int(np.prod(mps)), 'model': int(np.prod(mps))}, 'mesh:shape', got=dict(mesh.shape), **det)
    for row in mesh.devices:
      # One model replica is an aligned tile of the torus.
      pts = np.array([(*d.coords, d.core_on_chip) for d in row]); lo = pts.min(0); ext = tuple(int(x) for x in pts.max(0) - lo + 1)
      if not c.check(ext == mps and not any(lo % np.array(mps)), 'mesh:replica-not-a-tile', got=ext, corner=lo.tolist(), **det): break
    done = layouts(p, shuffled, n, det); c.check(done, 'mesh:hosts-not-contiguous', **det)
    c.event('torus'); c.event('multi-host', n > 1)
  c.case(('torus', str(det)), done, det if i < 2 else None)

def hosts(i):
  """CPU and GPU clusters: hosts x devices per host."""
  n, k = int(rng.choice([1, 2, 3, 4, 8])), int(rng.choice([1, 2, 3, 4, 8])); plat = str(rng.choice(['cpu', 'gpu']))
  stride = int(rng.choice([k, 131072])) if plat == 'cpu' else k
  if stride % k: stride = k   # the position of a device on its host is its id modulo the number of local devices
  devices = [Plain(h * stride + j, h, plat, plat) for h in range(n) for j in range(k)]
  if rng.random() < .5: kw = dict(model_parallel_submesh=(int(rng.choice(divs(n))), int(rng.choice(divs(k))))); np_ = int(np.prod(kw['model_parallel_submesh'])); data = n * k // np_
  else: np_ = int(rng.choice([1, 2, 3, 4, 6, 8, 16])); kw = dict(num_partitions=np_); data = n if plat == 'cpu' else n * k // np_
  det = dict(hosts=n, per_host=k, platform=plat, kw=kw)
  with world(devices) as nh:
    try: p = partitioning.PjitPartitioner(**kw); mesh = p.mesh
    except (AssertionError, ValueError) as e:
      if 'num_partitions' in kw and plat == 'gpu':
        fits = (k % np_ == 0 or (np_ % k == 0 and n % (np_ // k) == 0)); c.check(not fits, 'mesh:rejected', error=repr(e)[:300], **det); c.event('mesh-rejected'); return
      c.violation('mesh:rejected', error=repr(e)[:300], **det); return
    want = {'data': data, 'model': k if plat == 'cpu' and 'num_partitions' in kw else np_}
    c.check(dict(mesh.shape) == want, 'mesh:shape', got=dict(mesh.shape), want=want, **det)
    # The model axis stays on a host while it fits there.
    if want['model'] <= k: c.check(all(len(set(d.process_index for d in row)) == 1 or 'model_parallel_submesh' in kw and kw['model_parallel_submesh'][0] > 1 for row in mesh.devices), 'mesh:model-axis-crosses-hosts', **det)
    done = layouts(p, devices, nh, det); c.event('cluster-' + plat)
    c.check(done, 'mesh:hosts-not-contiguous', **det)
  c.case(('hosts', str(det)), True, None)

def slices(i):
  """Several slices: replica, data and model axes."""
  s = int(rng.choice([1, 2, 4])); dims, host = [((2, 2, 1, 1), (2, 2, 1, 1)), ((4, 2, 1, 1), (2, 2, 1, 1)), ((4, 4, 1, 1), (2, 2, 1, 1)), ((2, 2, 2, 1), (2, 2, 1, 1))][int(rng.integers(0, 4))]
  devices = tpu(dims, host, 'TPU v4', s); n = int(np.prod(dims)); m = int(rng.choice(divs(n)))
  ici, dcn = (1, n // m, m), (s, 1, 1)
  if rng.random() < .3: dcn = (1, s, 1)
  kw = dict(num_partitions=1, ici_mesh_shape=ici, dcn_mesh_shape=dcn); rules = partitioning.standard_logical_axis_rules()
  if rng.random() < .7:   # the caller's rules: only the batch is split over the slices too
    rules = list(partitioning.standard_logical_axis_rules(int(rng.integers(1, 3)), int(rng.integers(1, 3)), [('expert', 'data'), ('rows', ('data', 'model')), ('batched', 'data')][:int(rng.integers(0, 4))] or None))
    if rng.random() < .5: rules = tuple(rules)
    kw['logical_axis_rules'] = rules; c.event('rules-of-the-caller')
  det = dict(slices=s, dims=dims, kw=kw)
  with world(devices) as nh:
    try: p = partitioning.PjitPartitioner(**kw); mesh = p.mesh
    except (NotImplementedError, ValueError) as e: 
      if 'Failed to find assignment' not in str(e): raise
      c.event('slices-unsupported-by-jax'); return
    c.check(dict(mesh.shape) == {'replica': ici[0] * dcn[0], 'data': ici[1] * dcn[1], 'model': m}, 'mesh:shape', got=dict(mesh.shape), **det)
    c.check(p.data_partition_spec == jax.sharding.PartitionSpec(('replica', 'data')), 'layout:data-axis', got=str(p.data_partition_spec), **det)
    c.check(dict(p.logical_axis_rules).get('batch') == ('replica', 'data'), 'layout:batch-rule', got=str(p.logical_axis_rules)[:300], **det)
    want = [(k, ('replica', 'data') if k == 'batch' else v) for k, v in rules]; c.check([tuple(r) for r in p.logical_axis_rules] == want, 'layout:rules-of-several-slices', got=str(p.logical_axis_rules)[:600], want=str(want)[:600], **det)
    if layouts(p, devices, nh, det): c.event('multi-slice')
  c.case(('slices', str(det)), True, None)

def defaults(i):
  """Default meshes by number of partitions."""
  kind = str(rng.choice(['TPU v2', 'TPU v3', 'TPU v4', 'TPU v4 lite', 'TPU v9'])); v4 = 'v4' in kind; cores = 1 if v4 or rng.random() < .1 else 2
  dims = tuple(int(rng.choice(x)) for x in ([2, 4, 8, 16], [2, 4, 8], [1, 2, 4, 8, 16] if v4 else [1])) + (cores,); host = (2, 2, 1, cores)
  if np.prod(dims) > 512: dims = (4, 4, 1 if not v4 else 4, cores)
  devices = tpu(dims, host, kind); k = int(rng.choice([1, 2, 3, 4, 8, 16, 32])); det = dict(kind=kind, dims=dims, kw=dict(num_partitions=k))
  with world(devices) as nh:
    try: mesh = partitioning.PjitPartitioner(num_partitions=k).mesh
    except ValueError: c.check(kind == 'TPU v9' or k not in (1, 2, 4, 8, 16) or (v4 and cores == 2), 'default:none', **det); c.event('default-none'); return
    except AssertionError as e:
      # The preset tile does not fit this slice (or cannot be tiled by hosts).
      c.check(k > 1, 'default:rejected', error=repr(e)[:200], **det); c.event('default-rejected'); return
    c.check(dict(mesh.shape) == {'data': len(devices) // k, 'model': k}, 'default:shape', got=dict(mesh.shape), **det)
    ext = [tuple(int(x) for x in np.ptp(np.array([(*d.coords, d.core_on_chip) for d in row]), axis=0) + 1) for row in mesh.devices]
    c.check(len(set(ext)) == 1 and int(np.prod(ext[0])) == k, 'default:replica-not-a-tile', got=sorted(set(ext)), **det)
    c.check(sorted(d.id for d in mesh.devices.flat) == sorted(d.id for d in devices), 'default:not-every-device-once', **det); c.event('default-meshes')
  c.case(('default', str(det)), True, None)

def real(i):
  """Real processes."""
  n, k = [(2, 2), (4, 1), (2, 3), (3, 2), (4, 2), (2, 4), (1, 4)][i % 7]; cases = []
  for _ in range(c.n(6, 12)):
    kw = dict(num_partitions=1) if rng.random() < .2 else dict(model_parallel_submesh=(int(rng.choice(divs(n))), int(rng.choice(divs(k)))))
    if rng.random() < .15: kw = dict(model_parallel_submesh=(n + 1, 1))
    m = kw.get('model_parallel_submesh', (1, k)); ds = n * k // (m[0] * m[1]) if (n % m[0] == 0) else 1; ax = {'data': ds, 'model': m[0] * m[1]}
    arrs = []
    for r in (1, 2, 3):
      spec = [None] * r; 
      for a in ('data', 'model'):
        j = int(rng.integers(0, r))
        if spec[j] is None and rng.random() < .8: spec[j] = a
      arrs.append((tuple(int(rng.integers(1, 3)) * (ax[s] if s else 2) for s in spec), tuple(spec)))
    arrs = list(dict.fromkeys(arrs))
    cases.append((kw, int(ds * rng.integers(1, 4) + (rng.random() < .15)), arrs))
  try: res = mproc.run('layout', n, k, (cases,), c.scratch)
  except mproc.Failed as e:
    if any(x[1] == 'repo' for x in e.errors): c.violation('real:raised', errors=e.errors, cases=cases); return
    raise
  for j, (kw, batch, arrs) in enumerate(cases):
    rs = [r[j] for r in res]; det = dict(processes=n, devices=k, kw=kw, batch=batch)
    if any('rejected' in r for r in rs):
      c.check(all('rejected' in r for r in rs) and kw.get('model_parallel_submesh', (1,))[0] > n, 'real:rejected', got=[r.get('rejected') for r in rs], **det); c.event('mesh-rejected'); continue
    c.check(len(set(map(str, (r['mesh'] for r in rs)))) == 1 and len(set(rs[0]['mesh'])) == n * k, 'real:mesh', got=rs[0]['mesh'], **det)
    ds = rs[0]['shape']['data']
    if batch % ds:
      c.check(all(r['layout'] is None for r in rs), 'real:bad-batch-accepted', got=[r['layout'] for r in rs], **det); c.event('batch-rejected')
    elif c.check(all(r['layout'] for r in rs), 'real:batch-rejected', got=[r.get('why') for r in rs], **det):
      first = collections.Counter(); num = rs[0]['layout'][2]
      for r in rs:
        b, s, m, f = r['layout']; c.check(b == batch and m == num and r['rows'] == list(range(s * b // m, (s + 1) * b // m)), 'real:rows', got=r['rows'], layout=r['layout'], **det); first[s] += f
        c.check(r['global'] == [2.0 * q for q in range(batch)], 'real:global-batch', got=r['global'], **det); c.event('global-batches')
      c.check(first == collections.Counter(range(num)), 'real:first-hosts', got=dict(first), **det)
    for q, (shape, spec) in enumerate(arrs):
      by = collections.defaultdict(list)
      for r in rs:
        got, rep, boxes = r['chunks'][q]; c.check(got == hull(set(boxes)) and covers(boxes, got), 'real:chunk', shape=shape, spec=spec, got=got, real=boxes, **det); by[got].append(rep); c.event('real-chunks')
      cells = collections.Counter(x for b in by for x in itertools.product(*[range(a, e) for a, e in b]))
      c.check(len(cells) == int(np.prod(shape)) and set(cells.values()) == {1}, 'real:chunks-do-not-tile', shape=shape, spec=spec, chunks=sorted(by), **det)
      c.check(all(sorted(v) == list(range(len(v))) for v in by.values()), 'real:replica-ids', shape=shape, spec=spec, got={str(k): v for k, v in by.items()}, **det)
    c.case(('real', n, k, str(kw), batch, str(arrs)), n > 1, det if j < 1 else None)
  c.event('real-jobs')

import concurrent.futures
for i in range(c.n(250, 6000)):
  if c.out_of_time(.3): break
  c.section('torus', torus, i)
for i in range(c.n(150, 3000)):
  if c.out_of_time(.5): break
  c.section('hosts', hosts, i)
for i in range(c.n(40, 600)):
  if c.out_of_time(.6): break
  c.section('slices', slices, i)
for i in range(c.n(150, 2000)):
  if c.out_of_time(.7): break
  c.section('defaults', defaults, i)
for i in range(c.n(4, 21)):
  if c.out_of_time(.85): break
  c.section('real', real, i)
for k, n in [('torus', 80), ('multi-host', 60), ('hosts', 300), ('chunks', 2000), ('cluster-cpu', 30), ('cluster-gpu', 20), ('default-meshes', 20), ('shared-shards', 20), ('batch-rejected', 50), ('real-jobs', 3), ('real-chunks', 60), ('global-batches', 20), ('multi-slice', 5)]: c.need(k, n)
c.finish()
