"""P03: logical axis rules resolve deterministically to valid mesh axes."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import vlib, t5xshim
import re, unittest.mock as mock
import numpy as np, jax, jax.numpy as jnp, optax
from flax import traverse_util
from flax.core import freeze, unfreeze
from flax.linen import partitioning as fp
import ckptlib as K, trainlib as TL
from t5x import adafactor, optimizers, partitioning, train_state as ts_lib, utils
P = jax.sharding.PartitionSpec
c = vlib.Check('P03', rule='random rule lists, logical annotations, optimizers and mutable collections resolved by the real partitioner and compared, leaf by leaf, with an '
  'independent resolver; states and activations really placed on 8 CPU devices; distinct by rules, tree and optimizer')
rng = c.rng
NAMES = ['batch', 'vocab', 'embed', 'mlp', 'heads', 'kv', 'joined_kv', 'length', 'layers', 'stack', 'expert', 'x', 'y']
MESH = [None, 'data', 'model', 'model', 'data', ('data', 'model'), ('model', 'data')]

def as_set(m): return set() if m is None else {m} if isinstance(m, str) else set(m)

def norm(spec, ndim):
  """Mesh axes of each dimension, as tuples in order."""
  out = [() if s is None else (s,) if isinstance(s, str) else tuple(s) for s in (spec or ())]
  return tuple(out + [()] * (ndim - len(out)))

def resolve(names, rules):
  """Priority order: a rule decides its dimension unless that is decided or its mesh axes are taken."""
  out, taken = {}, set()
  for logical, mesh in rules:
    for d, name in enumerate(names):
      if name == logical and d not in out and not (as_set(mesh) & taken): out[d] = mesh; taken |= as_set(mesh)
  return tuple(() if out.get(d) is None else (out[d],) if isinstance(out[d], str) else tuple(out[d]) for d in range(len(names)))

def rand_rules():
  n = int(rng.integers(1, 14)); out = []
  for _ in range(n):
    m = MESH[int(rng.integers(0, len(MESH)))]; out.append((str(rng.choice(NAMES)), m))
  if rng.random() < .8: out.insert(int(rng.integers(0, len(out) + 1)), ('batch', 'data'))
  return out

def rand_tree(n, unnamed=True):
  flat = {}
  while len(flat) < n:
    k = tuple(str(rng.choice(K.NAMES)) for _ in range(int(rng.integers(1, 4))))
    if any(k[:len(q)] == q or q[:len(k)] == k for q in flat): continue
    r = int(rng.choice([0, 1, 2, 2, 2, 3])); nm = tuple(str(x) for x in rng.permutation(NAMES)[:r])
    if unnamed and rng.random() < .15 and r: nm = tuple(None if rng.random() < .5 else a for a in nm)
    flat[k] = (tuple(8 * int(x) for x in rng.permutation(np.arange(1, 9))[:r]), np.float32, nm)
  return traverse_util.unflatten_dict(flat)

def opt(kind):
  F = adafactor.FactorDim
  if kind == 'adafactor': return adafactor.Adafactor(learning_rate=.1, beta1=float(rng.choice([0, .9])) or None, min_dim_size_to_factor=int(rng.choice([8, 16, 128])),
    logical_factor_rules=freeze({n: (F.ROW, F.COLUMN, F.BATCH)[j % 3] for j, n in enumerate(NAMES)}) if rng.random() < .5 else None)
  if kind == 'momentum': return optimizers.OptaxWrapper(optax.sgd(.1, momentum=.9))
  return K.opt_def(kind)

def leaves(st): return {'/'.join(k): v for k, v in traverse_util.flatten_dict(unfreeze(freeze(st.state_dict())), keep_empty_nodes=True).items()}

def owner(path, params):
  """The parameter a slot belongs to: its path is contained in the path of the slot."""
  q = path.split('/'); best = None
  for k in params:
    r = k.split('/')
    if any(q[i:i + len(r)] == r for i in range(len(q) - len(r) + 1)) and (best is None or len(r) > len(best.split('/'))): best = k
  return best

def whole(i):
  rules = rand_rules(); kind = str(rng.choice(['adafactor', 'adafactor', 'adam', 'adamw_mask', 'momentum', 'sgd', 'inference', 'multi'])); tree = rand_tree(int(rng.integers(1, 7)), kind not in ('adafactor', 'multi'))
  mut = {str(m): rand_tree(int(rng.integers(1, 3))) for m in rng.permutation(['batch_stats', 'cache_x', 'hist'])[:int(rng.choice([0, 0, 1, 2]))]}
  v = jax.tree.map(lambda x: jnp.zeros(x.shape) if isinstance(x, np.ndarray) else x, K.variables(np.random.default_rng(0), tree, mut), is_leaf=lambda x: isinstance(x, fp.AxisMetadata))
  det = dict(rules=rules, kind=kind, tree={'/'.join(k): x[::2] for k, x in traverse_util.flatten_dict(tree).items()}, mutables=sorted(mut))
  names = {'/'.join(k): x[2] for k, x in traverse_util.flatten_dict(tree).items()}
  mnames = {'/'.join((m,) + k): x[2] for m, t in mut.items() for k, x in traverse_util.flatten_dict(t).items()}
  dup = rng.random() < .12 and any(len(x) > 1 for x in names.values()) and kind in ('sgd', 'adam', 'inference', 'momentum')
  if dup:
    who = sorted(k for k, x in names.items() if len(x) > 1)[0]; key = tuple(who.split('/')); n = 'embed'; x = list(names[who]); x[0] = x[-1] = n
    ax = traverse_util.flatten_dict(v['params_axes']); ax[key[:-1] + (key[-1] + '_axes',)] = fp.AxisMetadata(tuple(x)); v['params_axes'] = traverse_util.unflatten_dict(ax)
  create = (lambda: ts_lib.InferenceState.create(freeze(v))) if kind == 'inference' else (lambda: ts_lib.FlaxOptimTrainState.create(opt(kind), freeze(v)))
  if not dup and rng.random() < .12:
    coll = str(rng.choice(['params'] + sorted(mut))); ax = traverse_util.flatten_dict(v[coll + '_axes']); gone = sorted(ax)[int(rng.integers(0, len(ax)))]; del ax[gone]
    v[coll + '_axes'] = traverse_util.unflatten_dict(ax); who = '/'.join(gone)[:-len('_axes')]
    try: create(); c.violation('create:missing-axes-accepted', missing=coll + ':' + who, **det)
    except ValueError as e: c.check(who in str(e), 'create:missing-axes-not-named', missing=who, error=str(e)[:300], **det); c.event('missing-axes')
    return
  try: state = create()
  except ValueError as e:
    # Adafactor wants complete factorization rules for arrays of rank 3.
    if kind in ('adafactor', 'multi') and ('Incomplete' in str(e) or 'rank strictly higher' in str(e)): c.event('no-factor-rule'); return
    raise
  part = partitioning.PjitPartitioner(num_partitions=None, model_parallel_submesh=(1, int(rng.choice([1, 2, 4, 8]))), logical_axis_rules=rules if rng.random() < .5 else tuple(rules))
  c.check(tuple(part.logical_axis_rules) == tuple(rules), 'rules:not-as-given', got=part.logical_axis_rules, **det)
  want = resolve(('batch',), rules)[0]; c.check(norm(part.data_partition_spec, 1)[0] == want, 'rules:data-spec', got=str(part.data_partition_spec), want=want, **det)
  if kind == 'multi':
    # The axes are those of the sub-optimizers; parameters without one are resolved like the others.
    c.event('multi')
  if dup:
    try: part.get_mesh_axes(state); c.violation('mesh:duplicate-names-accepted', **det)
    except ValueError as e: c.check(who in str(e), 'mesh:duplicate-not-named', who=who, error=str(e)[:300], **det); c.event('duplicate-names')
    return
  before = jax.tree.structure(state); axes = part.get_mesh_axes(state); again = part.get_mesh_axes(state); log = part.get_logical_axes(state)
  c.check(jax.tree.structure(state) == before, 'mesh:state-changed', **det)
  real, got, got2, lg = leaves(state), leaves(axes), leaves(again), leaves(log)
  c.check(got == got2, 'mesh:not-deterministic', **det)
  if kind == 'inference': c.check(got.get('state/step', 0) is None, 'mesh:step', got=str(got.get('state/step', 0)), **det)
  params = {k[7:]: k for k in real if k.startswith('target/')}
  ok = c.check(set(got) == set(real), 'mesh:structure', missing=sorted(set(real) - set(got))[:5], extra=sorted(set(got) - set(real))[:5], **det)
  if not ok: return
  for k, x in real.items():
    spec = got[k]
    if x is traverse_util.empty_node or x is None: continue
    nd = np.ndim(x); sh = np.shape(x)
    if spec is None: ms = ((),) * nd
    else:
      if not c.check(isinstance(spec, P) and len(spec) <= nd, 'mesh:spec-rank', leaf=k, got=str(spec), shape=sh, **det): continue
      ms = norm(spec, nd)
    used = [a for m in ms for a in m]; c.check(len(used) == len(set(used)), 'mesh:axis-used-twice', leaf=k, got=str(spec), **det)
    if k.startswith('target/'): w = resolve(names[k[7:]], rules); c.event('params')
    elif k.startswith('flax_mutables/'): w = resolve(mnames[k[14:]], rules); c.event('mutables')
    elif nd == 0: w = ()
    else:
      o = owner(k[6:], names); w = None
      if not c.check(o is not None, 'mesh:slot-owner', leaf=k, **det): continue
      ow = resolve(names[o], rules); osh = np.shape(real['target/' + o])
      if sh == osh: w = ow; c.event('slots')
      else:
        # A factored slot: what remains of the parameter (every dimension has its own size here) stays where it was.
        c.check(all(not m or (s in osh and ow[osh.index(s)] == m) for s, m in zip(sh, ms)), 'mesh:factored-slot', leaf=k, got=str(spec), shape=sh, param=osh, spec=ow, **det); c.event('factored-slots')
    if w is not None: c.check(ms == w, 'mesh:spec', leaf=k, got=str(spec), want=w, names=names.get(k[7:], mnames.get(k[14:])), **det)
    if k.startswith('target/'): c.check(tuple(lg[k]) == tuple(names[k[7:]]), 'logical:names', leaf=k, got=lg[k], **det)
  if i % 3 == 0:
    # The specs are valid: the state can be laid out, every device holding its part.
    sh = jax.tree.map(lambda a: jax.sharding.NamedSharding(part.mesh, a if a is not None else P()), axes, is_leaf=lambda a: a is None or isinstance(a, P))
    try:
      f = part.partition(lambda s: jax.tree.map(lambda x: x + 1, s), in_axis_resources=(axes,), out_axis_resources=axes)
      out = leaves(f(state))
      for k, x in out.items():
        if not hasattr(x, 'sharding'): continue
        w = jax.sharding.NamedSharding(part.mesh, got[k] if got[k] is not None else P())
        c.check(x.sharding.is_equivalent_to(w, x.ndim) and np.all(np.asarray(x) == 1), 'mesh:not-laid-out', leaf=k, got=str(x.sharding), want=str(w), **det); c.event('placed')
    except Exception as e:
      if vlib.blame(e) == 'repo': c.violation('mesh:layout-rejected', error=repr(e)[:400], **det)
      else: raise
  c.case(('whole', str(det)), any(any(resolve(n, rules)) for n in names.values()), det if i < 2 else None)

# Documented layout of the usual arrays, for every mode (activation dims, parameter dims).
D, M, N = ('data',), ('model',), ()
TABLE = {
  (1, 1): {('embed', 'mlp'): (N, M), ('mlp', 'embed'): (M, N), ('vocab', 'embed'): (M, N), ('embed', 'heads', 'kv'): (N, M, N), ('heads', 'kv', 'embed'): (M, N, N), ('embed', 'joined_kv'): (N, M), ('embed',): (N,),
           ('batch', 'length', 'embed'): (D, N, N), ('batch', 'length', 'mlp'): (D, N, M), ('batch', 'length', 'heads', 'kv'): (D, N, M, N), ('batch', 'length', 'vocab'): (D, N, M), ('batch', 'length'): (D, N)},
  (2, 1): {('embed', 'mlp'): (N, M), ('mlp', 'embed'): (M, N), ('vocab', 'embed'): (M, N), ('embed', 'heads', 'kv'): (N, M, N), ('heads', 'kv', 'embed'): (M, N, N), ('embed', 'joined_kv'): (N, M), ('embed',): (M,),
           ('batch', 'length', 'embed'): (D, N, M), ('batch', 'length', 'mlp'): (D, N, M), ('batch', 'length', 'heads', 'kv'): (D, N, M, N), ('batch', 'length', 'vocab'): (D, N, M), ('batch', 'length'): (D, N)},
  (1, 2): {('embed', 'mlp'): (D, M), ('mlp', 'embed'): (M, D), ('vocab', 'embed'): (M, D), ('embed', 'heads', 'kv'): (D, M, N), ('heads', 'kv', 'embed'): (M, N, D), ('embed', 'joined_kv'): (D, M), ('embed',): (D,),
           ('batch', 'length', 'embed'): (D, N, N), ('batch', 'length', 'mlp'): (D, N, M), ('batch', 'length', 'heads', 'kv'): (D, N, M, N), ('batch', 'length', 'vocab'): (D, N, M), ('batch', 'length'): (D, N)},
  (2, 2): {('embed', 'mlp'): (D, M), ('mlp', 'embed'): (M, D), ('vocab', 'embed'): (M, D), ('embed', 'heads', 'kv'): (D, M, N), ('heads', 'kv', 'embed'): (M, N, D), ('embed', 'joined_kv'): (D, M), ('embed',): (M,),
           ('batch', 'length', 'embed'): (D, N, M), ('batch', 'length', 'mlp'): (D, N, M), ('batch', 'length', 'heads', 'kv'): (D, N, M, N), ('batch', 'length', 'vocab'): (D, N, M), ('batch', 'length'): (D, N)},
}
REPL = ['relpos_buckets', 'abspos_buckets', 'length', 'layers', 'stack', 'mlp_activations', 'kv']

def mesh_of(names, rules):
  """What the real partitioner makes of an array of these axes."""
  v = {'params': {'p': jnp.zeros((8,) * len(names))}, 'params_axes': {'p_axes': fp.AxisMetadata(names)}}
  st = ts_lib.InferenceState.create(freeze(v)); part = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=rules)
  return norm(leaves(part.get_mesh_axes(st))['target/p'], len(names))

def standard():
  for (a, p), rows in TABLE.items():
    rules = partitioning.standard_logical_axis_rules(a, p)
    for names, want in rows.items():
      got = mesh_of(names, rules); c.check(got == want, 'standard:layout', mode=(a, p), names=names, got=got, want=want); c.event('standard-rows')
      c.case(('standard', a, p, names))
      # Replicated axes may stand anywhere without a change.
      for r in REPL[:int(rng.integers(1, 4))]:
        if r in names: continue
        j = int(rng.integers(0, len(names) + 1)); nm = names[:j] + (r,) + names[j:]; got = mesh_of(nm, rules)
        c.check(got == want[:j] + (N,) + want[j:], 'standard:replicated-axis', mode=(a, p), names=nm, got=got, want=want); c.event('standard-rows')
    for r in REPL: c.check(mesh_of((r,), rules) == (N,), 'standard:replicated-axis', mode=(a, p), names=(r,), got=mesh_of((r,), rules))
    for _ in range(c.n(6, 60)):
      # Additional rules come last: they add axes and fallbacks, and change nothing that is decided.
      extra = [(str(rng.choice(['expert', 'x', 'y', 'embed', 'batch', 'mlp', 'kv'])), MESH[int(rng.integers(0, len(MESH)))]) for _ in range(int(rng.integers(1, 5)))]
      full = partitioning.standard_logical_axis_rules(a, p, additional_rules=extra if rng.random() < .5 else tuple(extra))
      c.check(list(full[:len(rules)]) == list(rules) and [tuple(x) for x in full[len(rules):]] == extra, 'standard:additional-rules', mode=(a, p), extra=extra, got=full)
      nm = tuple(str(x) for x in rng.permutation(['expert', 'x', 'embed', 'mlp', 'batch', 'kv'])[:int(rng.integers(1, 5))]); got = mesh_of(nm, full); want = resolve(nm, list(rules) + extra)
      c.check(got == want, 'standard:additional-layout', mode=(a, p), extra=extra, names=nm, got=got, want=want); c.event('additional')
    again = partitioning.standard_logical_axis_rules(a, p); c.check(list(again) == list(rules), 'standard:changed', mode=(a, p))
    c.check(list(partitioning.standard_logical_axis_rules(activation_partitioning_dims=a, parameter_partitioning_dims=p)) == list(rules), 'standard:keywords', mode=(a, p))
  c.check(list(partitioning.PjitPartitioner(num_partitions=1).logical_axis_rules) == list(partitioning.standard_logical_axis_rules(1, 1)), 'standard:default')
  for a, p in [(0, 1), (1, 0), (3, 1), (1, 3), (3, 3), (2, 3), (-1, 1)]:
    try: partitioning.standard_logical_axis_rules(a, p); c.violation('standard:mode-accepted', mode=(a, p))
    except ValueError: c.event('mode-rejected')
  try: partitioning.PjitPartitioner(); c.violation('partitioner:no-size-accepted')
  except ValueError: pass

def activations(i):
  """Constraints inside a partitioned function follow the rules of its partitioner, and only inside."""
  rules = rand_rules(); r = int(rng.integers(1, 4)); names = tuple(str(x) for x in rng.permutation(NAMES)[:r]); k = int(rng.choice([1, 2, 4, 8])); det = dict(rules=rules, names=names, model=k)
  part = partitioning.PjitPartitioner(num_partitions=None, model_parallel_submesh=(1, k), logical_axis_rules=rules); x = np.arange(8 ** r, dtype=np.float32).reshape((8,) * r)
  seen = []
  def f(x):
    seen.append((partitioning.global_mesh_defined(), tuple(fp.get_axis_rules()))); return fp.with_sharding_constraint(x, P(*names)) * 2
  use = part.partition(f, in_axis_resources=None, out_axis_resources=None)
  out = use(x); c.equal(np.asarray(out), x * 2, 'activations:value', **det)
  c.check(seen and seen[0] == (True, tuple(rules)), 'activations:context', got=seen[:1], **det)
  low = use.lower(x); comp = part.compile(use, x); c.equal(np.asarray(comp(x)), x * 2, 'activations:compiled', **det)
  c.check(all(s == (True, tuple(rules)) for s in seen), 'activations:context', got=seen, **det)
  c.check(not partitioning.global_mesh_defined() and tuple(fp.get_axis_rules()) == (), 'activations:context-left-behind', got=str(fp.get_axis_rules())[:200], **det)
  # T5X's own constraint: nothing on CPU or outside a mesh, real inside one on another platform.
  spec = P(*[None if not m else m if len(m) > 1 else m[0] for m in resolve(names, rules)])
  y = jnp.asarray(x); c.check(partitioning.with_sharding_constraint(y, spec) is y, 'activations:constraint-on-cpu', **det)
  class Gpu: platform = 'gpu'
  real = jax.devices
  with mock.patch.object(jax, 'devices', lambda *a: real(*a) if a else [Gpu()]):
    c.check(partitioning.with_sharding_constraint(y, spec) is y, 'activations:constraint-outside-mesh', **det)
  g = lambda x: partitioning.with_sharding_constraint(x, spec) + 1
  mesh = part.mesh
  def traced(x):
    with mock.patch.object(jax, 'devices', lambda *a: real(*a) if a else [Gpu()]): return partitioning.with_sharding_constraint(x, spec)
  with mesh: o = jax.jit(traced)(x)
  c.check(o.sharding.is_equivalent_to(jax.sharding.NamedSharding(mesh, spec), o.ndim) and np.array_equal(np.asarray(o), x), 'activations:constraint-ignored', got=str(o.sharding), want=str(spec), **det)
  c.event('activations'); c.case(('act', str(det)), any(resolve(names, rules)), None)

PATTERNS = ['.*', '.*kernel', '.*/kernel', 'kernel', 'encoder/.*', '.*layers_1', '.*layers_\\d+.*', 'layers_1.*', '.*(bias|scale)', 'a', '.*mlp.*', 'decoder/[^/]*', '.*/.*/.*', 'b.c', '.*emb']

def override(i):
  """Priority-ordered patterns that match the whole parameter name."""
  tree = rand_tree(int(rng.integers(1, 8))); v = jax.tree.map(lambda x: jnp.zeros(x.shape) if isinstance(x, np.ndarray) else x, K.variables(np.random.default_rng(0), tree, {}), is_leaf=lambda x: isinstance(x, fp.AxisMetadata))
  names = {'/'.join(k): x[2] for k, x in traverse_util.flatten_dict(tree).items()}; shapes = {'/'.join(k): x[0] for k, x in traverse_util.flatten_dict(tree).items()}
  ov = []
  for _ in range(int(rng.integers(0, 4))):
    pat = str(rng.choice(PATTERNS)) if rng.random() < .6 else re.escape(str(rng.choice(list(names)))); fits = [len(shapes[k]) for k in names if re.fullmatch(pat, k)]
    r = fits[0] if fits and rng.random() < .85 else int(rng.integers(0, 4)); ov.append((pat, tuple(str(x) for x in rng.permutation(NAMES)[:r])))
  drop = [k for k in names if rng.random() < .15]
  if drop:
    ax = traverse_util.flatten_dict(v['params_axes'])
    for k in drop: q = tuple(k.split('/')); ax.pop(q[:-1] + (q[-1] + '_axes',))
    v['params_axes'] = traverse_util.unflatten_dict(ax)
  first = {k: next((o for pat, o in ov if re.fullmatch(pat, k)), None) for k in names}; det = dict(override=ov, names=names, without=drop)
  bad = [k for k in names if first[k] is not None and len(first[k]) != len(shapes[k])]; fv = freeze(v); keep = str(fv['params_axes'])
  try: out = utils.override_params_axes_names(fv, ov)
  except ValueError as e: c.check(bool(bad) and any(k in str(e) for k in bad), 'override:rejected', error=repr(e)[:300], bad=bad, **det); c.event('override-rejected'); return
  if not c.check(not bad, 'override:rank-accepted', bad=bad, **det): return
  got = {'/'.join(k): x for k, x in traverse_util.flatten_dict(unfreeze(out['params_axes'])).items()}
  want = {k + '_axes': fp.AxisMetadata(first[k] if first[k] is not None else names[k]) for k in names if first[k] is not None or k not in drop}
  c.check({k: tuple(x.names) for k, x in got.items()} == {k: tuple(x.names) for k, x in want.items()}, 'override:names', got=str(got)[:600], want=str(want)[:600], **det)
  c.check(str(fv['params_axes']) == keep and all(a is b for a, b in zip(jax.tree.leaves(out['params']), jax.tree.leaves(fv['params']))) and set(out) == set(fv), 'override:input-changed', **det)
  c.event('overrides', sum(x is not None for x in first.values())); c.case(('override', str(det)), any(first.values()), det if i < 1 else None)
  try: utils.override_params_axes_names(freeze({'params': v['params']}), ov); c.violation('override:no-axes-accepted')
  except ValueError: pass

c.section('standard', standard)
for i in range(c.n(300, 6000)):
  if c.out_of_time(.6): break
  c.section('whole', whole, i)
for i in range(c.n(40, 500)):
  if c.out_of_time(.8): break
  c.section('activations', activations, i)
for i in range(c.n(200, 3000)):
  if c.out_of_time(.95): break
  c.section('override', override, i)
for k, n in [('params', 400), ('mutables', 40), ('slots', 200), ('factored-slots', 30), ('placed', 300), ('standard-rows', 60), ('additional', 20), ('mode-rejected', 7), ('activations', 30), ('overrides', 60), ('override-rejected', 3), ('missing-axes', 5), ('duplicate-names', 3)]: c.need(k, n)
c.finish()
