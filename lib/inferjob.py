"""Offline inference jobs (infer.infer) of an exact text model."""
import functools, json, os, re
import numpy as np
import t5xshim  # pylint: disable=unused-import
import jax, jax.numpy as jnp, seqio
import tensorflow as tf
from flax.core import freeze
from flax.linen.partitioning import AxisMetadata
import optax
from t5x import checkpoints, infer, models, optimizers, partitioning, train_state as ts_lib, utils

VOC = seqio.ByteVocabulary()
LI, LT = 12, 10
FEATURES = {'inputs': seqio.Feature(VOC, add_eos=True), 'targets': seqio.Feature(VOC, add_eos=True)}
P = jax.sharding.PartitionSpec


def text(rng, n):
  """Unique inputs of different lengths, longer than the feature now and then."""
  out = []
  for i in range(n):
    out.append(('%d' % (i * 7 + 3) + ''.join(chr(97 + int(x)) for x in rng.integers(0, 26, int(rng.integers(1, 9))))))
  return out


def make_task(name, ins, tgts, how, d):
  pre = [functools.partial(seqio.preprocessors.rekey, key_map={'inputs': 'i', 'targets': 't'}), seqio.preprocessors.tokenize, seqio.preprocessors.append_eos]
  if how == 'tfexample':
    path = os.path.join(d, name + '.tfrecord')
    with tf.io.TFRecordWriter(path) as w:
      for a, b in zip(ins, tgts):
        f = lambda s: tf.train.Feature(bytes_list=tf.train.BytesList(value=[s.encode()]))
        w.write(tf.train.Example(features=tf.train.Features(feature={'i': f(a), 't': f(b)})).SerializeToString())
    return infer.create_task_from_tfexample_file([path], 'tfrecord', 'i', 't', FEATURES, task_id=name)
  fn = lambda split, shuffle_files, seed=None: tf.data.Dataset.from_tensor_slices({'i': ins, 't': tgts})
  seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(dataset_fn=fn, splits=['infer'], num_input_examples={'infer': len(ins)}), preprocessors=pre, output_features=FEATURES)
  return name


class Model(models.BaseTransformerModel):
  """Predicts the input with every letter shifted by a parameter; scores are sums of products."""
  FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter

  def __init__(self, draw=False):
    self.calls = []; self.draw = draw
    super().__init__(module=None, input_vocabulary=VOC, output_vocabulary=VOC, optimizer_def=None)

  def get_initial_variables(self, rng, input_shapes, input_types=None, flax_mutables=None):
    return variables(np.zeros(2))

  def loss_fn(self, *a, **k): raise NotImplementedError
  def loss_weights(self, *a, **k): raise NotImplementedError
  def _compute_logits(self, *a, **k): raise NotImplementedError

  def _tokens(self, params, batch, rng):
    x = batch['encoder_input_tokens'].astype(jnp.int32); s = params['w'][0].astype(jnp.int32)
    if self.draw: s = s + jax.random.randint(rng, (x.shape[0], 1), 0, 5)
    a = 3 + 97
    return jnp.where((x >= a) & (x < a + 26), (x - a + s) % 26 + a, x)

  def predict_batch(self, params, batch, rng=None):
    self.calls.append('predict'); return self._tokens(params, batch, rng)

  def predict_batch_with_aux(self, params, batch, rng=None, **k):
    self.calls.append('aux'); x = batch['encoder_input_tokens']
    return self._tokens(params, batch, rng), {'scores': self._score(params, batch), 'n': (x > 0).sum(-1)}

  def _score(self, params, batch):
    t = batch['decoder_target_tokens'].astype(jnp.float32); e = batch['encoder_input_tokens'].astype(jnp.float32)
    return t.sum(-1) * params['w'][1] + (e * (1 + jnp.arange(e.shape[-1]))).sum(-1)

  def score_batch(self, params, batch, return_intermediates=False):
    self.calls.append('score'); return self._score(params, batch)


def expect(i, t, mode, w):
  """What the finished file must say about one example."""
  e = (list(VOC.encode(i)) + [1])[:LI]; g = (list(VOC.encode(t)) + [1])[:LT]
  line = {'inputs': {'inputs_pretokenized': i, 'targets_pretokenized': t}}
  score = float(sum(g) * w[1] + sum(x * (k + 1) for k, x in enumerate(e)))
  if mode == 'score': line['score'] = score; return line
  a = 100; sh = [(x - a + int(w[0])) % 26 + a if a <= x < a + 26 else x for x in e]
  line['prediction'] = VOC.decode(sh)
  if mode == 'predict_with_aux': line['aux'] = {'scores': score, 'n': len(e)}
  return line


def variables(w): return freeze({'params': {'w': jnp.asarray(w, jnp.float32)}, 'params_axes': {'w_axes': AxisMetadata(names=(None,))}})


def save_checkpoint(d, step, w, part):
  st = ts_lib.FlaxOptimTrainState.create(optimizers.OptaxWrapper(optax.sgd(.1)), variables(w)).replace_step(jnp.asarray(step))
  checkpoints.Checkpointer(st, part, d).save(st); return os.path.join(d, 'checkpoint_%d' % step)


def partitioner(mp=1): return partitioning.PjitPartitioner(model_parallel_submesh=(1, mp), logical_axis_rules=partitioning.standard_logical_axis_rules())


class Job:
  """One configuration of infer(), run as often as wanted on the same output directory."""

  def __init__(self, spec, ckpt, part):
    self.s, self.ckpt, self.part = spec, ckpt, part
    self.written = []   # (file, inputs, number of predictions) of every write the job asked for

  def run(self, out, model, fail_write=None):
    s = self.s; self.written = []
    def write(path, inferences, task_ds, mode, vocabulary=None, **kw):
      rows = [x['inputs_pretokenized'].decode() for x in task_ds.as_numpy_iterator()]
      self.written.append((os.path.basename(path), rows, len(inferences[0])))
      if fail_write is not None and len(self.written) - 1 == fail_write:
        with open(path, 'w') as f: f.write('{"half')
        raise OSError('writer failed')
      return infer.write_inferences_to_file(path, inferences, task_ds, mode, vocabulary, **dict(kw, **s.get('write_kw', {})))
    infer.infer(mode=s['mode'], model=model, dataset_cfg=utils.DatasetConfig(mixture_or_task_name=s['task'], task_feature_lengths={'inputs': LI, 'targets': LT}, split='infer', batch_size=s['batch'], shuffle=False, seed=0),
                restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=self.ckpt, mode='specific'), partitioner=self.part, output_dir=out, checkpoint_period=s['period'], shard_id=s['shard'], num_shards=s['shards'],
                merge_chunked_results=s['merge'], write_fn=write, checkpoint_ds_iter=s['ckpt_iter'], summarize_config_fn=lambda **k: None, use_orbax=s['orbax'])
