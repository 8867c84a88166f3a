"""Small mixture-of-experts networks whose computation does not depend on the layout (every expert answers every token, weighted by the router)."""
import functools
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax, jax.numpy as jnp, optax, seqio
from flax import linen as nn, traverse_util
from flax.core import freeze, unfreeze
from flax.linen import partitioning as nnp
from t5x import adafactor, models, optimizers
from t5x.contrib.moe import adafactor_utils, models as moe_models
from typing import Any

V, L, D, F = 24, 6, 8, 16
vocab = seqio.PassThroughVocabulary(size=V, eos_id=1)
METRICS = ('auxiliary_loss', 'router_z_loss', 'fraction_tokens_left_behind', 'expert_usage', 'router_confidence')
init = nn.initializers.variance_scaling(1.0, 'fan_in', 'normal')


class Kernel(nn.Module):
  shape: Any
  axes: Any
  bias: bool = False

  @nn.compact
  def __call__(self):
    k = nnp.param_with_axes('kernel', init, self.shape, jnp.float32, axes=self.axes)
    if not self.bias: return k, 0.0
    ax = self.axes[:-2] + self.axes[-1:]
    return k, nnp.param_with_axes('bias', nn.initializers.normal(.1), tuple(self.shape[:-2]) + tuple(self.shape[-1:]), jnp.float32, axes=ax)


class Experts(nn.Module):
  e: int
  bias: bool

  @nn.compact
  def __call__(self, x, gates):
    wi, bi = Kernel((self.e, D, F), ('expert', 'embed', 'expert_mlp'), self.bias, name='wi')()
    wo, bo = Kernel((self.e, F, D), ('expert', 'expert_mlp', 'embed'), self.bias, name='wo')()
    bi, bo = (b[:, None, None] if self.bias else b for b in (bi, bo))
    h = jax.nn.gelu(jnp.einsum('bld,edf->eblf', x, wi) + bi)
    return jnp.einsum('ebld,ble->bld', jnp.einsum('eblf,efd->ebld', h, wo) + bo, gates)


class Moe(nn.Module):
  e: int
  bias: bool

  @nn.compact
  def __call__(self, x):
    with_router, _ = Kernel((D, self.e), ('embed', 'unmodeled'), name='router')()
    z = jnp.einsum('bld,de->ble', x, with_router); gates = jax.nn.softmax(z)
    self.sow('intermediates', 'auxiliary_loss', self.e * (gates.mean((0, 1)) ** 2).sum())
    self.sow('intermediates', 'router_z_loss', (jax.nn.logsumexp(z, -1) ** 2).mean())
    self.sow('intermediates', 'fraction_tokens_left_behind', (gates.max(-1) < .2).mean())
    self.sow('intermediates', 'expert_usage', (gates > .1).mean())
    self.sow('intermediates', 'router_confidence', gates.max(-1).mean())
    return Experts(self.e, self.bias, name='expert')(x, gates)


class Mlp(nn.Module):
  bias: bool

  @nn.compact
  def __call__(self, x):
    wi, bi = Kernel((D, F), ('embed', 'mlp'), self.bias, name='wi')(); wo, bo = Kernel((F, D), ('mlp', 'embed'), self.bias, name='wo')()
    return (jax.nn.gelu(x @ wi + bi) @ wo) + bo


class Layer(nn.Module):
  """Some of: mixing, dense, experts."""
  kind: str
  e: int
  bias: bool
  dropout: float

  @nn.compact
  def __call__(self, x, deterministic):
    s = nnp.param_with_axes('scale', nn.initializers.ones, (D,), jnp.float32, axes=('embed',))
    x = x + (jnp.cumsum(x, 1) / jnp.arange(1., x.shape[1] + 1)[:, None]) * s
    if 'd' in self.kind: x = x + nn.Dropout(self.dropout)(Mlp(self.bias, name='dense')(x), deterministic=deterministic)
    if 'u' in self.kind: x = x + nn.Dropout(self.dropout)(Mlp(self.bias, name='mlp')(x), deterministic=deterministic)  # the dense origin of experts
    if 'm' in self.kind: x = x + nn.Dropout(self.dropout)(Moe(self.e, self.bias, name='mlp')(x), deterministic=deterministic)
    return x, None


class Stack(nn.Module):
  layers: tuple
  scan: bool
  e: int
  bias: bool
  dropout: float

  @nn.compact
  def __call__(self, x, deterministic):
    if not self.layers: return x
    kw = dict(e=self.e, bias=self.bias, dropout=self.dropout)
    if not self.scan:
      for i, k in enumerate(self.layers): x, _ = Layer(k, name='layers_%d' % i, **kw)(x, deterministic)
      return x
    assert len(set(self.layers)) == 1
    spec = 1 if self.is_mutable_collection('params') else nnp.ScanIn(1)
    x, _ = nnp.scan_with_axes(Layer, variable_axes={'params': spec, 'intermediates': 0}, split_rngs={'params': True, 'dropout': True}, in_axes=(nn.broadcast,), length=len(self.layers), axis_name='layers')(self.layers[0], name='layers', **kw)(x, deterministic)
    return x


class Net(nn.Module):
  enc: tuple
  dec: tuple
  scan: bool
  e: int
  bias: bool
  dropout: float

  def setup(self):
    self.emb = nnp.param_with_axes('emb', nn.initializers.normal(1.), (V, D), jnp.float32, axes=('vocab', 'embed'))
    self.head = nnp.param_with_axes('head', init, (D, V), jnp.float32, axes=('embed', 'vocab'))
    kw = dict(scan=self.scan, e=self.e, bias=self.bias, dropout=self.dropout)
    self.encoder, self.decoder = Stack(self.enc, **kw), Stack(self.dec, **kw)

  def look(self, ids): return jnp.asarray(self.emb)[ids] + jnp.sin(jnp.arange(ids.shape[1])[:, None] * jnp.arange(1., D + 1))

  def __call__(self, *toks, enable_dropout=True, **unused):
    x = self.look(toks[-2])
    if len(toks) == 3:
      m = (toks[0] > 0)[..., None]; y = self.encoder(self.look(toks[0]), not enable_dropout); x = x + (y * m).sum(1, keepdims=True) / L
    return self.decoder(x, not enable_dropout) @ self.head


def net(spec): return Net(tuple(spec['enc']), tuple(spec['dec']), spec['scan'], spec['e'], spec['bias'], spec['dropout'])


def optimizer(name):
  ada = lambda **k: adafactor.Adafactor(**dict(dict(decay_rate=.8, step_offset=0, min_dim_size_to_factor=4, beta1=.9, epsilon1=1e-6), **k))   # rounding errors of vanishing gradients are not to be magnified
  return {
      'sgd': lambda: optimizers.OptaxWrapper(optax.sgd(.02, momentum=.5)),
      'adam': lambda: optimizers.OptaxWrapper(optax.adam(1e-2, eps=1e-3)),
      'adafactor': lambda: ada(logical_factor_rules=adafactor_utils.logical_factor_rules()),
      'adafactor-nomom': lambda: ada(logical_factor_rules=adafactor_utils.logical_factor_rules(), beta1=None),
      'adafactor-heuristic': lambda: ada(),
      'adafactor-unfactored': lambda: ada(factored=False),
      'multi-adafactor': lambda: optimizers.MultiOptimizer([(traverse_util.ModelParamTraversal(lambda p, _: 'expert' in p), ada(logical_factor_rules=adafactor_utils.logical_factor_rules(), beta1=None)),
                                                           (traverse_util.ModelParamTraversal(lambda p, _: 'expert' not in p), ada(logical_factor_rules=adafactor_utils.logical_factor_rules()))]),
      'multi-partial': lambda: optimizers.MultiOptimizer([(traverse_util.ModelParamTraversal(lambda p, _: 'wi' in p), ada(logical_factor_rules=adafactor_utils.logical_factor_rules()))]),
  }[name]()


def model(spec, base=False):
  kw = dict(loss_normalizing_factor=spec.get('lnf'), z_loss=spec.get('z', 1e-3), label_smoothing=spec.get('ls', .1)); opt = optimizer(spec['opt'])
  if not base: kw.update(aux_loss_factor=spec['aux'], router_z_loss_factor=spec['rz'])
  if spec['kind'] == 'dec': return (models.DecoderOnlyModel if base else moe_models.MoeDecoderOnlyModel)(net(spec), vocab, opt, **kw)
  return (models.EncoderDecoderModel if base else moe_models.MoeEncoderDecoderModel)(net(spec), vocab, vocab, opt, **kw)


def batch(rng, b, kind):
  t = rng.integers(2, V, (b, L)).astype(np.int32); n = rng.integers(2, L + 1, b); t[np.arange(L)[None] >= n[:, None]] = 0
  d = np.zeros_like(t); d[:, 1:] = t[:, :-1]
  out = dict(decoder_target_tokens=t, decoder_input_tokens=d, decoder_loss_weights=(t > 0).astype(np.float32))
  if kind != 'dec':
    e = rng.integers(2, V, (b, L)).astype(np.int32); e[np.arange(L)[None] >= rng.integers(1, L + 1, b)[:, None]] = 0; out['encoder_input_tokens'] = e
  return out


def shapes(spec):
  x = batch(np.random.default_rng(0), 1, spec['kind'])
  return {k: (spec['batch'], L) for k in x}, {k: v.dtype for k, v in x.items()}


def random_spec(rng, **over):
  scan = over.get('scan', bool(rng.random() < .4)); kind = 'encdec' if rng.random() < .6 else 'dec'
  def stack(n):
    if scan: return [str(rng.choice(['m', 'dm', 'm']))] * n
    return [str(x) for x in rng.choice(['m', 'd', 'dm', 'm'], n)]
  spec = dict(kind=kind, scan=scan, enc=stack(int(rng.integers(1, 4))) if kind == 'encdec' else [], dec=stack(int(rng.integers(1, 4))), e=int(rng.choice([4, 8, 16])), bias=bool(rng.random() < .4), dropout=0.0, aux=float(rng.choice([0, .01, 3.0])), rz=float(rng.choice([0, .001, 2.0])), lnf=[None, 'NUM_REAL_TARGET_TOKENS', 48.0][int(rng.integers(0, 3))],
              opt=str(rng.choice(['sgd', 'adam', 'adafactor', 'adafactor-nomom', 'adafactor-heuristic', 'adafactor-unfactored', 'multi-adafactor'])), seed=int(rng.integers(1 << 30)), batch=8, z=float(rng.choice([0, 1e-3])), ls=float(rng.choice([0, .1])))
  spec.update(over)
  if not any('m' in x for x in spec['enc'] + spec['dec']): spec['dec'] = ['m'] * len(spec['dec'])
  return spec


def flat(t):
  sd = unfreeze(freeze(t)) if not hasattr(t, 'state_dict') else t.state_dict()
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(sd).items() if v is not None}


def mean_sown(inter):
  """Mean over all layers of each sown quantity (independent of stacking)."""
  vals = {m: [] for m in METRICS}
  for path, v in traverse_util.flatten_dict(unfreeze(inter)).items():
    if path[-1] in vals: vals[path[-1]] += [x for y in v for x in np.asarray(y, np.float64).reshape(-1)]
  return {m: float(np.mean(v)) for m, v in vals.items()}, {m: len(v) for m, v in vals.items()}


# ---- Upcycling: trees of parameters of a dense model and of its sparse variant.
AX = {'embed': 8, 'mlp': 16, 'expert_mlp': 16, 'heads': 8, 'kv': 4, 'layers': 3, 'vocab': 24, 'abspos_buckets': 5}


class Tree:
  """A model whose variables are given by name, shape and axes."""

  def __init__(self, leaves): self.leaves = leaves

  def get_initial_variables(self, rng, input_shapes=None, input_types=None):
    params, axes = {}, {}
    for path, shape, names in self.leaves:
      import zlib
      k = tuple(path.split('/')); r = jax.random.fold_in(rng, zlib.crc32(path.encode()) & 0x7fffffff)
      params[k] = jax.random.normal(r, shape, jnp.float32); axes[k[:-1] + (k[-1] + '_axes',)] = nnp.AxisMetadata(names=tuple(names))
    return freeze(dict(params=traverse_util.unflatten_dict(params), params_axes=traverse_util.unflatten_dict(axes)))


def upcycle_spec(rng, world=8):
  """Layers of which some become mixtures; kernels of several ranks, some stacked, biases, layer norms."""
  e = int(rng.choice([world, 2 * world] if world > 4 else [4, 8])); dense, sparse = [], []
  kin = [(('embed', 'mlp'),), (('layers', 'embed', 'mlp'),), (('embed', 'heads', 'kv'),), (('mlp',),), (('abspos_buckets', 'embed'),)]
  # The dense MLPs of a model are alike, hence stacked or not together.
  stacked = rng.random() < .4; wi = ('layers', 'embed', 'mlp') if stacked else ('embed', 'mlp'); wo = ('layers', 'mlp', 'embed') if stacked else ('mlp', 'embed')
  bias = bool(rng.random() < .5)
  def add(where, path, axes): where.append((path, tuple(e if a == 'expert' else AX[a] if a != 'unmodeled' else e for a in axes), tuple(axes)))
  names = ['encoder/layers_%d' % i for i in range(int(rng.integers(0, 3)))] + ['decoder/layers_%d' % i for i in range(int(rng.integers(1, 12)))][-2:]
  # Names that look alike must not be mistaken.
  if rng.random() < .4: names.append('decoder/experts_like')
  if rng.random() < .3: names.append('decoder/mlp_adapter')
  moe = [n for n in names if rng.random() < .6] or names[:1]
  for n in names:
    for p, ax in ((('attention/query/kernel'), ('embed', 'heads', 'kv')), ('attention/out/kernel', ('heads', 'kv', 'embed')), ('layer_norm/scale', ('embed',))):
      if rng.random() < .8:
        for w in (dense, sparse): add(w, n + '/' + p, ax)
    leaves = [('wi/kernel', wi), ('wo/kernel', wo)] + ([('wi/bias', wi[:-2] + ('mlp',)), ('wo/bias', wo[:-2] + ('embed',))] if bias else [])
    for p, ax in leaves:
      add(dense, n + '/mlp/' + p, ax)
      if n in moe: add(sparse, n + '/mlp/expert/' + p, ('expert',) + tuple('expert_mlp' if a == 'mlp' else a for a in ax))
      else: add(sparse, n + '/mlp/' + p, ax)
    if n in moe: add(sparse, n + '/mlp/router/router_weights/w/kernel', ('embed', 'unmodeled'))
  for w in (dense, sparse): add(w, 'token_embedder/embedding', ('vocab', 'embed'))
  states = str(rng.choice(['scratch', 'scratch', 'upcycled'])); opt = str(rng.choice(['adam', 'sgd', 'adafactor-nomom'])) if states == 'upcycled' else str(rng.choice(['adam', 'adafactor', 'adafactor-nomom', 'adafactor-unfactored']))
  if opt == 'adafactor-nomom' and states == 'upcycled' and bias: opt = 'adam'   # the states of biases are not factored, which is refused
  div = lambda n: [x for x in (1, 2, 4, 8) if n % x == 0]
  dm = int(rng.choice(div(world)[:3])); sm = int(rng.choice(div(world)[:3])); sub = lambda k: (1, k) if world >= 8 else (k, 1)
  return dict(e=e, dense=dense, sparse=sparse, opt=opt, states=states, dense_mesh=sub(dm), mesh=sub(sm), experts=int(rng.choice(div(world // sm))), seed=int(rng.integers(1 << 30)), save_dtype=str(rng.choice(['float32', 'bfloat16'])) if rng.random() < .4 else 'float32',
              restore_dtype=[None, 'float32', 'bfloat16'][int(rng.choice(3, p=[.6, .2, .2]))], rules=(int(rng.choice([1, 2])), int(rng.choice([1, 2]))), dense_rules=(int(rng.choice([1, 2])), int(rng.choice([1, 2]))), steps=int(rng.integers(0, 50000)), where=str(rng.choice(['latest', 'specific'])))


ASSIGN = ((r'target(.*)mlp\/expert(.*)', r'target\1mlp\2'), (r'.*\/router\/.*', None))
SCRATCH = ((r'state\/param_states.*', None),)
STATES = ((r'state(.*)mlp\/expert(.*)', r'state\1mlp\2'),)


def upcycle(spec, d, spoil=None):
  """Saves the dense model and restores it as the sparse one: everything that is needed to judge it."""
  import os
  from t5x import checkpoints, partitioning, utils, train_state as ts_lib
  from t5x.contrib.moe import checkpoints as mc, partitioning as mpart
  dp = partitioning.PjitPartitioner(num_partitions=None, model_parallel_submesh=spec['dense_mesh'], logical_axis_rules=partitioning.standard_logical_axis_rules(*spec['dense_rules']))
  dm, sm = Tree(spec['dense']), Tree(spec['sparse'])
  di = utils.TrainStateInitializer(optimizer(spec['opt']), dm.get_initial_variables, {}, dp); ds = di.from_scratch(jax.random.PRNGKey(spec['seed']))
  # A state as after training: no slot is zero.
  import zlib
  def stir(path, x):
    if not hasattr(x, 'dtype') or not jnp.issubdtype(x.dtype, jnp.floating): return x
    return x + jax.random.uniform(jax.random.fold_in(jax.random.PRNGKey(spec['seed']), zlib.crc32(jax.tree_util.keystr(path).encode()) & 0x7fffffff), x.shape, x.dtype, 1., 2.)
  ds = dp.partition(lambda s: jax.tree_util.tree_map_with_path(stir, s).replace_step(jnp.asarray(spec['steps'], jnp.int32)), in_axis_resources=(di.train_state_axes,), out_axis_resources=di.train_state_axes)(ds)
  every = lambda part, t, a: flat(jax.tree.map(lambda x: np.asarray(x.addressable_data(0)), part.partition(lambda x: x, in_axis_resources=(a,), out_axis_resources=None)(t)))
  dense = every(dp, ds, di.train_state_axes)
  checkpoints.Checkpointer(di.global_train_state_shape, dp, d, save_dtype=jnp.dtype(spec['save_dtype'])).save(ds)
  part = mpart.MoePjitPartitioner(num_expert_partitions=spec['experts'], model_parallel_submesh=spec['mesh'], logical_axis_rules=mpart.standard_logical_axis_rules(*spec['rules']))
  ini = utils.TrainStateInitializer(optimizer(spec['opt']), sm.get_initial_variables, {}, part)
  cfg = utils.RestoreCheckpointConfig(path=d if spec['where'] == 'latest' else os.path.join(d, 'checkpoint_%d' % spec['steps']), mode=spec['where'], fallback_to_scratch=True, dtype=spec['restore_dtype'],
                                      assignment_map=ASSIGN + (SCRATCH if spec['states'] == 'scratch' else STATES), checkpointer_cls=functools.partial(mc.UpcycleCheckpointer, num_experts=spec['e']))
  paths, _ = utils.get_first_valid_restore_config_and_paths([cfg])[1], None
  st, _ = utils.create_checkpoint_manager_and_restore(ini, part, cfg, paths[0], jax.random.PRNGKey(spec['seed'] + 1), use_orbax=False)
  out = dict(dense=dense, mesh=dict(part.mesh.shape))
  scratch = ini.from_scratch(jax.random.PRNGKey(spec['seed'] + 1)); a, b = flat(st), flat(scratch)
  out['structure'] = (sorted(a), sorted(b)); out['shapes'] = {k: (tuple(v.shape), str(v.dtype)) for k, v in a.items()}; out['want'] = {k: (tuple(v.shape), str(v.dtype)) for k, v in b.items()}
  out['layout'] = [k for k in a if k in b and a[k].shape == b[k].shape and not a[k].sharding.is_equivalent_to(b[k].sharding, a[k].ndim)]
  # How the values lie on the devices of this process.
  out['local'] = {k: [([(s.start or 0, n if s.stop is None else s.stop) for s, n in zip(x.index, v.shape)], np.asarray(x.data)) for x in v.addressable_shards] for k, v in a.items()}
  out['scratch'] = every(part, scratch, ini.train_state_axes); out['split'] = sum(not v.sharding.is_fully_replicated for v in a.values())
  return out


def judge_upcycle(c, spec, out, det):
  """c: a Check; every leaf against the dense checkpoint (or the initial value)."""
  got, want = out['structure']
  if not c.check(got == want, 'structure', missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5], **det): return
  bad = {k: (out['shapes'][k], out['want'][k]) for k in want if out['shapes'][k][0] != out['want'][k][0]}
  c.check(not bad, 'shape', leaves=dict(list(bad.items())[:4]), **det); c.check(not out['layout'], 'layout', leaves=out['layout'][:4], **det)
  for k in want:
    expert = '/expert/' in k; src = k.replace('/mlp/expert/', '/mlp/'); scratch = '/router/' in k or (spec['states'] == 'scratch' and k.startswith('state/param_states'))
    if scratch: w = out['scratch'][k]; c.event('from-scratch')
    else:
      w = out['dense'][src]; f = np.issubdtype(w.dtype, np.floating)
      # Only what is saved of the targets is cast.
      if f and k.startswith('target') and spec['save_dtype'] != 'float32': w = np.asarray(jnp.asarray(w).astype(spec['save_dtype']))
      if f and spec['restore_dtype'] and k.startswith('target'): w = np.asarray(jnp.asarray(w).astype(spec['restore_dtype']))
      if expert and (k.startswith('target') or w.shape != (1,)): w = np.broadcast_to(w, (spec['e'],) + w.shape); c.event('expert-leaves')
      else: c.event('dense-leaves')
    if k in bad: continue
    for idx, v in out['local'][k]:
      x = np.asarray(w[tuple(slice(*p) for p in idx)]); c.event('shards')
      if not c.check(x.shape == v.shape and np.array_equal(x.astype(np.float64), np.asarray(v).astype(np.float64)), 'value:' + ('scratch' if scratch else 'expert' if expert else 'dense'), leaf=k, at=idx, got=v, want=x, **det): break


# ---- Training with MoeTrainer and without any of it.
def lr_fn(step): return .02 / (1 + step)


def data(spec):
  rng = np.random.default_rng(spec['seed']); return [batch(rng, spec['batch'], spec['kind']) for _ in range(spec['steps'])]


def ref_loss(m, base, spec, params, b, rng):
  """Base loss plus the factors times the mean over all layers of what they sow."""
  loss, met = base.loss_fn(params, b, rng)
  _, st = m._compute_logits(params, b, rng, mutable=['intermediates'])
  got = {k: [] for k in METRICS}
  for path, v in traverse_util.flatten_dict(unfreeze(st)).items():
    if path[-1] in got: got[path[-1]] += [jnp.ravel(x) for x in v]
  mean = {k: jnp.concatenate(v).mean() for k, v in got.items()}
  aux, rz = spec['aux'] * mean['auxiliary_loss'], spec['rz'] * mean['router_z_loss']
  return loss + aux + rz, (loss, aux, rz, mean)


def plain(spec, disturbances=(0.0, 1e-6, 1e-6, 1e-6)):
  """One device; gradients of whatever matches are multiplied by the factor."""
  import re
  from t5x import train_state as ts_lib
  jax.config.update('jax_threefry_partitionable', True)
  m, base = model(spec), model(spec, base=True); opt = m.optimizer_def; batches = data(spec); sh, ty = shapes(spec); res = []
  v = jax.jit(lambda r: m.get_initial_variables(r, sh, ty))(jax.random.PRNGKey(spec['seed']))
  k = spec['micro'] or 1; n = spec['batch'] // k
  scale = lambda path: spec['factor'] if spec['match'] and re.match(spec['match'], path) else 1
  gf = jax.value_and_grad(lambda p, b, r: ref_loss(m, base, spec, p, b, r), has_aux=True)
  def step(st, b):
    rng = jax.random.fold_in(jax.random.PRNGKey(7), st.step); tot = None; infos = []
    for i in range(k):
      if spec['micro']: rng, sub = jax.random.split(rng)
      else: sub = rng
      (l, info), g = gf(st.params, {x: y[i * n:(i + 1) * n] for x, y in b.items()}, sub)
      infos.append((l,) + info); tot = g if tot is None else jax.tree.map(jnp.add, tot, g)
    tot = jax.tree_util.tree_map_with_path(lambda p, x: x * scale('/'.join(q.key for q in p)), tot)
    return st.apply_gradient(tot, learning_rate=lr_fn(st.step)), infos
  step = jax.jit(step)
  for number, eps in enumerate(disturbances):
    st = jax.tree.map(jnp.asarray, ts_lib.FlaxOptimTrainState.create(opt, freeze(v))); out = dict(init={a: np.asarray(x) for a, x in flat(st).items()})
    if eps:
      r = np.random.default_rng(5 + number); st = st.replace_params(jax.tree.map(lambda x: x * (1 + eps * r.standard_normal(x.shape).astype(np.float32)), st.params))
    tot = {}
    for b in batches:
      st, infos = step(st, b)
      for l, base_loss, aux, rz, mean in infos:
        for key, val in dict(loss=l, ce=base_loss, **{'experts/auxiliary_loss': aux, 'experts/router_z_loss': rz}, **{'experts/' + q: mean[q] for q in METRICS[2:]}).items(): tot[key] = tot.get(key, 0.0) + float(val)
    out['metrics'] = {a: x / len(batches) for a, x in tot.items()}; out['state'] = {a: np.asarray(x) for a, x in flat(st).items()}
    res.append(out)
  return res[0], res[1:]


def partitioner(layout):
  from t5x.contrib.moe import partitioning as mpart
  return mpart.MoePjitPartitioner(num_expert_partitions=layout['experts'], model_parallel_submesh=layout['mesh'], logical_axis_rules=mpart.standard_logical_axis_rules(*layout['rules']))


def where(st, part):
  """How each leaf lies on the devices: {leaf: {mesh position: slices}}."""
  out = {}; pos = {d: p for p, d in np.ndenumerate(part.mesh.devices)}
  for k, v in flat(st).items():
    out[k] = {pos[d]: tuple((s.start or 0, n if s.stop is None else s.stop) for s, n in zip(ix, v.shape)) for d, ix in v.sharding.devices_indices_map(v.shape).items()}
  return out


def partitioned(spec, layout):
  from t5x import trainer as trainer_lib, utils
  from t5x.contrib.moe import training_utils, trainer as moe_trainer
  jax.config.update('jax_threefry_partitionable', True)
  m = model(spec); batches = data(spec); sh, ty = shapes(spec); part = partitioner(layout); out = {}
  lay = part.get_data_layout(spec['batch']); n = spec['batch'] // lay.num_shards; mine = lambda b: {k: v[lay.shard_id * n:(lay.shard_id + 1) * n] for k, v in b.items()}
  every = lambda t, s: flat(jax.tree.map(lambda x: np.asarray(x.addressable_data(0)), part.partition(lambda x: x, in_axis_resources=(s,), out_axis_resources=None)(t)))
  ini = utils.TrainStateInitializer(m.optimizer_def, m.get_initial_variables, sh, part, ty); st = ini.from_scratch(jax.random.PRNGKey(spec['seed'])); axes = ini.train_state_axes
  out['init'] = every(st, axes); out['where'] = where(st, part); out['mesh'] = tuple(part.mesh.devices.shape); out['names'] = tuple(part.mesh.axis_names)
  if not spec.get('steps'): return out
  kw = dict(model=m, train_state=st, partitioner=part, eval_names=['e'], summary_dir=None, train_state_axes=axes, rng=jax.random.PRNGKey(7), learning_rate_fn=lr_fn, num_microbatches=spec['micro'])
  if layout.get('base'): tr = trainer_lib.Trainer(**kw)
  else: tr = moe_trainer.MoeTrainer(num_expert_partitions=spec['factor'], **kw, **({} if spec['match'] == '.*expert.*' else dict(sharded_match_fn=training_utils.match_fn(spec['match']) if spec['match'] else None)))
  with tr:
    import parlib
    it = parlib.train_iter(part, lay, [mine(b) for b in batches])
    if layout.get('compile'): tr.compile_train(it.peek())
    out['metrics'] = {k: float(np.asarray(v.value if hasattr(v, 'value') else v)) for k, v in tr.train(it, len(batches)).result().items()}
    out['state'] = every(tr.train_state, axes); out['after'] = where(tr.train_state, part)
  return out


def judge_layout(c, spec, out, det):
  """The expert dimension lies along 'expert', for expert leaves and nothing else."""
  names, mesh = out['names'], out['mesh']; q = names.index('expert'); n = mesh[q]
  for stage in ('where', 'after'):
    for k, by in out.get(stage, {}).items():
      shape = out['init'][k].shape; expert = '/expert/' in k and spec['e'] in shape; c.event('placements')
      if expert:
        j = shape.index(spec['e']); c.event('expert-leaves')
        bad = [(p, by[p]) for p in by if by[p][j] != (p[q] * spec['e'] // n, (p[q] + 1) * spec['e'] // n)]
        c.check(not bad, 'layout:expert-dimension-not-along-expert', leaf=k, shape=shape, mesh=mesh, bad=bad[:3], **det)
        if n > 1: c.event('split-expert-leaves')
      else:
        bad = [(p, by[p]) for p in by if by[p] != by[p[:q] + (0,) + p[q + 1:]]]
        c.check(not bad, 'layout:split-along-expert', leaf=k, shape=shape, mesh=mesh, bad=bad[:3], **det)


def judge_training(c, ref, dis, out, det, start='init'):
  for part in ('init', 'state'):
    if not c.check(set(ref[part]) == set(out[part]), part + ':structure', missing=sorted(set(ref[part]) - set(out[part]))[:4], extra=sorted(set(out[part]) - set(ref[part]))[:4], **det): continue
    for k, w in ref[part].items():
      g = out[part][k]; c.event('leaves')
      if not c.check(g.shape == w.shape and g.dtype == w.dtype, part + ':shape', leaf=k, got=(g.shape, str(g.dtype)), want=(w.shape, str(w.dtype)), **det): continue
      d = np.abs(g.astype(np.float64) - w); tol = 1e-5 + 2e-5 * np.abs(w).max(initial=0) + 20 * max(np.abs(x[part][k].astype(np.float64) - w).max(initial=0) for x in dis)
      if part == 'init': tol = 1e-6 + 1e-5 * np.abs(w).max(initial=0)
      c.check(bool(np.all(d <= tol)), part + ':value', leaf=k, diff=float(d.max(initial=0)), tol=float(tol), **det)
  for k, w in ref['metrics'].items():
    names = ('loss',) if k == 'loss' else ('cross_ent_loss_total',) if k == 'ce' else (k,)
    if k == 'ce':
      # Cross entropy and its own regularizer are reported separately.
      g = out['metrics']['cross_ent_loss'] + out['metrics']['z_loss']
    else:
      if not c.check(k in out['metrics'], 'metrics:missing', metric=k, have=sorted(out['metrics'])[:12], **det): continue
      g = out['metrics'][k]
    tol = 1e-4 * abs(w) + 1e-5 + 20 * max(abs(x['metrics'][k] - w) for x in dis)
    if k.endswith(('expert_usage', 'left_behind')): tol += .05   # thresholds
    c.check(abs(g - w) <= tol, 'metrics:value', metric=k, got=g, want=w, **det); c.event('metrics')
