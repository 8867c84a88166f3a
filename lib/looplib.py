"""Drives train.train with the transparent model of trainlib and records what the loop does."""
import collections, functools, inspect, os, re
import numpy as np
import jax, jax.numpy as jnp
import tensorflow as tf
from flax.core import freeze, unfreeze
import trainlib as TL
from t5x import checkpoints, partitioning, train as train_lib, trainer as trainer_lib, utils

B = 4


class Model(TL.Lin):
  FEATURE_CONVERTER_CLS = None

  def __init__(self, mutables=True, opt=None):
    super().__init__(mutables)
    self.optimizer_def = opt or TL.SGD()

  def get_initial_variables(self, rng, input_shapes, input_types=None):
    v = TL.variables(np.random.default_rng(0), self.mutables)
    v = unfreeze(v)
    v['params']['w'] = jax.random.normal(rng, (TL.D,))
    return freeze(v)

  def _loss(self, params, batch, rng):
    # The mean keeps the recurrence stable over long runs.
    loss, (pred, fit) = super()._loss(params, batch, rng)
    return loss / B, (pred, fit / B)


def stream(seed, n=400):
  r = np.random.default_rng(seed)
  out = []
  for i in range(n):
    ids = (np.arange(B) + B * i) % TL.N
    out.append(TL.batch(r, ids))
  return out


def dataset(batches, pulled=None):
  """tf.data over the given batches; every pull is logged (the pipeline prefetches)."""
  keys = sorted(batches[0])
  stacked = {k: np.stack([b[k] for b in batches]) for k in keys}
  return tf.data.Dataset.from_tensor_slices(stacked)


def sig(b):
  return float((b['id'].astype(np.float32) * b['x'][:, 0]).sum())


class Stop(Exception):
  """A simulated death of the process."""


class Rec(trainer_lib.Trainer):
  """The real trainer; every public call is logged."""
  log = None
  before = None   # callback(trainer, step, n)
  after = None

  def train(self, batch_iter, num_steps, start_step=None):
    s = int(self.train_state.step)
    if self.before:
      self.before(self, s, num_steps)
    r = super().train(batch_iter, num_steps, start_step)
    e = int(self.train_state.step)
    self.log.append(('train', s, e, num_steps, start_step))
    if self.after:
      self.after(self, s, e)
    return r

  def eval(self, batch_iters):
    s = int(self.train_state.step)
    before = [np.array(x) for x in jax.tree.leaves(self.train_state.params)]
    r = super().eval(batch_iters)
    same = int(self.train_state.step) == s and all((np.asarray(a) == b).all() for a, b in zip(jax.tree.leaves(self.train_state.params), before))
    self.log.append(('eval', s, sorted(r), same, {k: float(v['loss'].value) for k, v in r.items()}))
    return r


def committed(d):
  """Steps of the complete-looking checkpoint directories."""
  return sorted(int(m.group(1)) for m in (re.fullmatch(r'checkpoint_(\d+)', n) for n in os.listdir(d)) if m) if os.path.isdir(d) else []


_PART = None


def partitioner():
  return partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=TL.RULES)


def run(model_dir, batches, total, log, save=None, restore=None, lr=None, before=None, after=None, use_orbax=False, eval_period=0, evals=None,
        actions=None, n_mb=None, model=None, seed=0, concurrent=False, **kw):
  """One process lifetime of train.train."""
  cls = type('RecTrainer', (Rec,), dict(log=log, before=staticmethod(before) if before else None, after=staticmethod(after) if after else None))
  lr = lr or (lambda step: 0.05 / (1.0 + step.astype(jnp.float32)))
  return train_lib.train(
      model=model or Model(), train_dataset_cfg=utils.DatasetConfig('none', {}, 'train', B, False, seed=None),
      train_eval_dataset_cfg=utils.DatasetConfig('none', {}, 'validation', B, False, seed=None) if evals is not None else None,
      infer_eval_dataset_cfg=None, checkpoint_cfg=utils.CheckpointConfig(save=save, restore=restore), partitioner=partitioner(),
      trainer_cls=functools.partial(cls, num_microbatches=n_mb, learning_rate_fn=lr), model_dir=model_dir, total_steps=total,
      eval_steps=1, eval_period=eval_period, random_seed=seed, summarize_config_fn=lambda *a, **k: None,
      concurrent_metrics=concurrent, actions=actions, use_orbax=use_orbax,
      **dict(dict(get_dataset_fn=lambda cfg, shard, n, fc: dataset(batches), train_eval_get_dataset_fn=lambda *a: {k: dataset(v) for k, v in (evals or {}).items()}), **kw))


def history(state):
  m = TL.mutables_of(state)['hist']
  n = int(np.asarray(m['n']))
  return n, [float(x) for x in np.asarray(m['log'])[:n]]


def read_checkpoint(path):
  """Raw contents of a checkpoint directory, independent of t5x for the Orbax format."""
  if os.path.exists(os.path.join(path, 'checkpoint')) and not os.path.isdir(os.path.join(path, 'checkpoint')):
    t = checkpoints.load_t5x_checkpoint(path, lazy_parameters=False)
  else:
    import orbax.checkpoint as ocp
    t = ocp.PyTreeCheckpointer().restore(os.path.abspath(os.path.join(path, 'state')))
  return jax.tree.map(np.asarray, t)


MANAGERS = []


class Manager(checkpoints.OrbaxCheckpointManagerInterface):
  """The real manager; instances are kept so that abandoned writers can be waited for."""

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    MANAGERS.append(self)


Manager.__init__.__signature__ = inspect.signature(checkpoints.OrbaxCheckpointManagerInterface.__init__)


def settle(d=None):
  """Waits until background writers of an abandoned run are finished."""
  while MANAGERS:
    try:
      MANAGERS.pop().wait_until_finished()
    except Exception:  # pylint: disable=broad-except
      pass


def save_config(**kw):
  return utils.SaveCheckpointConfig(checkpoint_manager_cls=Manager, **kw)


class Stub:
  """float64 replay of the model: parameters after each step."""

  def __init__(self, w0, lr_of):
    self.w = {0: np.asarray(w0, np.float64)}
    self.lr = lr_of

  def step(self, t, b):
    w, _, _, _ = TL.ref_step(self.w[t], b, self.lr(t) / B)
    self.w[t + 1] = w

  def eval_loss(self, t, bs):
    # AveragePerStep over the batches
    return float(np.mean([TL.ref_step(self.w[t], b, 0.)[2] / B for b in bs]))
