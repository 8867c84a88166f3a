"""A tiny task, and a launcher of t5x's own command lines: python -m ginjob t5x.train --gin_file=..."""
import sys
import numpy as np


def register():
  import seqio, tensorflow as tf
  if 'ginjob_task' in seqio.TaskRegistry.names(): return
  V = seqio.PassThroughVocabulary(size=64)
  rng = np.random.default_rng(5); x = rng.integers(2, 60, (48, 5)); y = rng.integers(2, 60, (48, 4))
  def fn(split, shuffle_files, seed=None):
    k = {'train': slice(0, 32), 'validation': slice(32, 40), 'test': slice(40, 48)}[split]
    return tf.data.Dataset.from_tensor_slices({'inputs': x[k].astype(np.int32), 'targets': y[k].astype(np.int32), 'targets_pretokenized': [str(list(r)) for r in y[k]], 'inputs_pretokenized': [str(list(r)) for r in x[k]]})
  def acc(targets, predictions): return {'n': float(len(predictions)), 'sum': float(sum(int(t) for p in predictions for t in p))}
  seqio.TaskRegistry.add('ginjob_task', source=seqio.FunctionDataSource(dataset_fn=fn, splits=['train', 'validation', 'test'], num_input_examples={'train': 32, 'validation': 8, 'test': 8}),
    preprocessors=[], output_features={k: seqio.Feature(V, add_eos=False) for k in ('inputs', 'targets')}, metric_fns=[acc], postprocess_fn=None)


def direct(v):
  """The run that the configuration stands for, written down without one."""
  import functools
  import t5xshim
  import seqio
  from t5x import adafactor, models, partitioning, train, trainer, utils
  from t5x.examples.t5 import network
  register()
  V = seqio.PassThroughVocabulary(size=64)
  cfg = network.T5Config(vocab_size=64, dtype='float32', emb_dim=v['emb_dim'], num_heads=4, num_encoder_layers=2, num_decoder_layers=v['layers'], head_dim=3, mlp_dim=16, mlp_activations=('gelu', 'linear'), dropout_rate=v['dropout'], logits_via_embedding=False)
  model = models.EncoderDecoderModel(module=network.Transformer(config=cfg), input_vocabulary=V, output_vocabulary=V, optimizer_def=adafactor.Adafactor(decay_rate=.8, step_offset=0, logical_factor_rules=adafactor.standard_logical_factor_rules()),
    z_loss=v['z_loss'], label_smoothing=v['smoothing'], loss_normalizing_factor=v['normalize'])
  data = lambda split, seed: utils.DatasetConfig('ginjob_task', {'inputs': 12, 'targets': 12}, split, v['batch'], False, seed=seed, use_cached=False, pack=True, module='ginjob')
  lr = utils.create_learning_rate_scheduler(factors=v['factors'], base_learning_rate=v['rate'], warmup_steps=v['warmup'])
  train.train(model=model, train_dataset_cfg=data('train', None), train_eval_dataset_cfg=data('validation', 42), infer_eval_dataset_cfg=None,
    checkpoint_cfg=utils.CheckpointConfig(save=utils.SaveCheckpointConfig(period=v['period'], dtype='float32', keep=v['keep'], save_dataset=False), restore=utils.RestoreCheckpointConfig(path=[])),
    partitioner=partitioning.PjitPartitioner(num_partitions=1, model_parallel_submesh=None, logical_axis_rules=partitioning.standard_logical_axis_rules()),
    trainer_cls=functools.partial(trainer.Trainer, num_microbatches=v['microbatches'], learning_rate_fn=lr), model_dir=v['dir'], total_steps=v['steps'], eval_steps=1, eval_period=v['eval_period'], random_seed=v['seed'], summarize_config_fn=lambda *a, **k: None)


def main():
  import json, runpy
  import t5xshim
  if sys.argv[1] == 'direct': return direct(json.loads(sys.argv[2]))
  register()
  mod = sys.argv[1]; sys.argv = [mod] + sys.argv[2:]
  runpy.run_module(mod, run_name='__main__', alter_sys=True)


if __name__ == '__main__':
  main()
else:
  register()
