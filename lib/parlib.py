"""One training / evaluation / prediction job on shipped networks: plain (one device, no partitioner) or partitioned."""
import functools
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax, jax.numpy as jnp, optax, seqio
import tensorflow as tf
from flax import traverse_util
from flax.core import freeze, unfreeze
from t5x import adafactor, decoding, models, optimizers, partitioning, trainer as trainer_lib, train_state as ts_lib, utils

V, L = 24, 6
vocab = seqio.PassThroughVocabulary(size=V, eos_id=1)
P = jax.sharding.PartitionSpec
EXTRA = (('expert', None),)


def module(kind, dropout, dtype='float32'):
  kw = dict(vocab_size=V, dtype=jnp.dtype(dtype), emb_dim=16, num_heads=8, head_dim=2, mlp_dim=32, mlp_activations=('gelu', 'linear'), dropout_rate=dropout, logits_via_embedding=kind == 'gpu')
  if kind == 'decoder_only':
    from t5x.examples.decoder_only import network
    return network.DecoderWrapper(network.TransformerConfig(num_layers=2, **kw))
  if kind == 't5': from t5x.examples.t5 import network
  elif kind.startswith('scalable'):
    from t5x.examples.scalable_t5 import network
    kw['scan_layers'] = kind == 'scalable'; kw['remat_policy'] = 'minimal' if kind == 'scalable' else 'none'
  else: from t5x.contrib.gpu.t5 import network
  return network.Transformer(network.T5Config(num_encoder_layers=2, num_decoder_layers=2, **kw))


def optimizer(name):
  if name == 'sgd': return optimizers.OptaxWrapper(optax.sgd(.003, momentum=.5))
  if name == 'adam': return optimizers.OptaxWrapper(optax.adam(1e-2))
  if name == 'adafactor': return adafactor.Adafactor(decay_rate=.8, step_offset=0, min_dim_size_to_factor=8, logical_factor_rules=adafactor.standard_logical_factor_rules(), beta1=.9)
  raise ValueError(name)


DECODE = {
    'greedy': functools.partial(decoding.temperature_sample, temperature=0.0),
    'sample': functools.partial(decoding.temperature_sample, temperature=1.0, topk=4),
    'beam': functools.partial(decoding.beam_search, alpha=.6),
}


def model(spec):
  kw = dict(loss_normalizing_factor=spec.get('lnf'), z_loss=1e-3, label_smoothing=.1, decode_fn=DECODE[spec['decode']])
  opt = optimizer(spec['opt'])
  if spec['kind'] == 'decoder_only': return models.DecoderOnlyModel(module(spec['kind'], spec['dropout']), vocab, opt, inputs_bidirectional_attention=True, **kw)
  return models.EncoderDecoderModel(module(spec['kind'], spec['dropout']), vocab, vocab, opt, **kw)


def batch(rng, b, kind):
  t = rng.integers(2, V, (b, L)).astype(np.int32); n = rng.integers(2, L + 1, b); t[np.arange(L)[None] >= n[:, None]] = 0
  d = np.zeros_like(t); d[:, 1:] = t[:, :-1]
  out = dict(decoder_target_tokens=t, decoder_input_tokens=d, decoder_loss_weights=(t > 0).astype(np.float32))
  if kind == 'decoder_only': out['decoder_causal_attention'] = (np.arange(L)[None] <= rng.integers(1, 3, b)[:, None]).astype(np.int32)
  else:
    e = rng.integers(2, V, (b, L)).astype(np.int32); e[np.arange(L)[None] >= rng.integers(1, L + 1, b)[:, None]] = 0; out['encoder_input_tokens'] = e
  return out


def shapes(spec): return {k: (spec['batch'], L) for k in batch(np.random.default_rng(0), 1, spec['kind'])}, {k: (jnp.float32 if k == 'decoder_loss_weights' else jnp.int32) for k in batch(np.random.default_rng(0), 1, spec['kind'])}


def data(spec):
  rng = np.random.default_rng(spec['seed'])
  return [batch(rng, spec['batch'], spec['kind']) for _ in range(spec['steps'])], [batch(rng, spec['batch'], spec['kind']) for _ in range(2)]


def flat(t):
  sd = unfreeze(freeze(t)) if not hasattr(t, 'state_dict') else t.state_dict()
  return {'/'.join(k): np.asarray(v) for k, v in traverse_util.flatten_dict(sd).items() if v is not None}


def lr_fn(step): return .02 / (1 + step)


def summarize(ms, steps):
  """Values of the metrics that do not depend on time."""
  from t5x import metrics as mlib
  keep = {k: m for k, m in ms.items() if not mlib.is_time_metric(m)}
  return {k: np.asarray(m.compute_value().value) for k, m in mlib.set_step_metrics_num_steps(keep, steps).items()}


def train_iter(part, lay, batches):
  """The training input as train.py prepares it: this host's rows in, global arrays out."""
  sig = {k: tf.TensorSpec(v.shape, v.dtype) for k, v in batches[0].items()}
  return utils.prepare_train_iter(tf.data.Dataset.from_generator(lambda: iter(batches), output_signature=sig), partitioner=part, checkpoint_cfg=None, data_layout=lay)


def decode_args(spec): return dict(return_all_decodes=False, num_decodes=2 if spec['decode'] == 'beam' else 1)


def plain(spec, disturbances=(0.0, 1e-6)):
  """The same job on one device without a partitioner, once per relative disturbance of the initial parameters."""
  m = model(spec); opt = m.optimizer_def; train, ev = data(spec); sh, ty = shapes(spec); res = []
  jax.config.update('jax_threefry_partitionable', True)
  v = jax.jit(lambda r: m.get_initial_variables(r, sh, ty))(jax.random.PRNGKey(spec['seed']))
  pred = jax.jit(lambda p, b, k: m.predict_batch_with_aux(p, b, rng=k, **decode_args(spec)))
  score = jax.jit(lambda p, b: m.score_batch(p, b)); wmc = trainer_lib.WeightMetricsComputer()
  step = jax.jit(lambda s, b: trainer_lib.train_with_lr(s, b, learning_rate=lr_fn(s.step), dropout_rng=jax.random.fold_in(jax.random.PRNGKey(7), s.step), model=m, num_microbatches=None, weight_metrics_computer=wmc))
  estep = jax.jit(lambda s, b: trainer_lib.eval_step(m, s, b)); red = lambda ms: functools.reduce(lambda a, b: {k: a[k].merge(b[k]) for k in a}, ms)
  for eps in disturbances:
    out = {}; st = jax.tree.map(jnp.asarray, ts_lib.FlaxOptimTrainState.create(opt, freeze(v))); out['init'] = flat(st)
    if eps:
      r = np.random.default_rng(5); st = st.replace_params(jax.tree.map(lambda x: x * (1 + eps * r.standard_normal(x.shape).astype(np.float32)), st.params))
    tok, aux = pred(st.params, ev[0], jax.random.PRNGKey(3)); out['tokens'] = np.asarray(tok); out['pscores'] = np.asarray(aux['scores'])
    out['score'] = np.asarray(score(st.params, ev[0])); ms = []
    for b in train:
      st, mm = step(st, b); ms.append(mm)
    out['state'] = flat(st); out['metrics'] = summarize(red(ms), len(train)); out['eval'] = summarize(red([estep(st, b) for b in ev]), len(ev))
    res.append(out)
  return res


def partitioned(spec, layout):
  """layout: partitioner arguments, mode of the rules, microbatches, compile."""
  from jax.experimental import multihost_utils
  m = model(spec); opt = m.optimizer_def; train, ev = data(spec); out = {}; sh, ty = shapes(spec)
  jax.config.update('jax_threefry_partitionable', True)  # random bits that do not depend on the layout
  part = partitioning.PjitPartitioner(logical_axis_rules=partitioning.standard_logical_axis_rules(*layout['mode']), **layout['kw'])
  lay = part.get_data_layout(spec['batch']); n = spec['batch'] // lay.num_shards; rows = slice(lay.shard_id * n, (lay.shard_id + 1) * n)
  mine = lambda b: {k: v[rows] for k, v in b.items()}
  every = lambda t, spec_=None: jax.tree.map(lambda x: np.asarray(x.addressable_data(0)), part.partition(lambda x: x, in_axis_resources=(spec_,), out_axis_resources=None)(t))
  ini = utils.TrainStateInitializer(opt, m.get_initial_variables, sh, part, ty)
  st = ini.from_scratch(jax.random.PRNGKey(spec['seed'])); axes = ini.train_state_axes
  gather = lambda s: flat(jax.tree.map(lambda x: x, every(s, axes)))
  out['init'] = gather(st)
  # Layout: how many leaves are really split.
  out['split'] = sum(1 for x in jax.tree.leaves(st.state_dict()) if not x.sharding.is_fully_replicated); out['mesh'] = dict(part.mesh.shape)
  host = jax.tree.map(lambda x: np.asarray(x), st) if jax.process_count() == 1 else None
  if host is not None:
    moved = part.move_params_to_devices(host, axes); out['moved'] = gather(moved); out['moved_ok'] = all(a.sharding.is_equivalent_to(b.sharding, a.ndim) for a, b in zip(jax.tree.leaves(moved), jax.tree.leaves(st)))
  glob = lambda b: multihost_utils.host_local_array_to_global_array(mine(b), part.mesh, part.data_partition_spec) if jax.process_count() > 1 else b
  pred = part.partition(lambda p, b, k: m.predict_batch_with_aux(p, b, rng=k, **decode_args(spec)), in_axis_resources=(axes.params, part.data_partition_spec, None), out_axis_resources=None)
  tok, aux = pred(st.params, glob(ev[0]), jax.random.PRNGKey(3)); get = lambda x: np.asarray(x.addressable_data(0)); out['tokens'], out['pscores'] = get(tok), get(aux['scores'])
  out['score'] = get(part.partition(lambda p, b: m.score_batch(p, b), in_axis_resources=(axes.params, part.data_partition_spec), out_axis_resources=None)(st.params, glob(ev[0])))
  tr = trainer_lib.Trainer(model=m, train_state=st, partitioner=part, eval_names=['e'], summary_dir=None, train_state_axes=axes, rng=jax.random.PRNGKey(7), learning_rate_fn=lr_fn, num_microbatches=layout.get('micro'), weight_metrics_computer=trainer_lib.WeightMetricsComputer())
  with tr:
    tb = [mine(b) for b in train]; eb = [mine(b) for b in ev]
    it = train_iter(part, lay, tb)
    if layout.get('compile'): tr.compile_train(it.peek()); tr.compile_eval({'e': jax.tree.map(np.zeros_like, eb[0])})
    out['metrics'] = {k: np.asarray(v.value if hasattr(v, 'value') else v) for k, v in tr.train(it, len(tb)).result().items()}
    out['eval'] = {k: np.asarray(v.value if hasattr(v, 'value') else v) for k, v in tr.eval({'e': iter(eb)})['e'].items()}
    out['state'] = gather(tr.train_state)
  return out
