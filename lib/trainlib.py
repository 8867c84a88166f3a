"""A transparent model, optimizer and metric writer for driving the real Trainer.

The model's loss is a weighted least-squares term plus terms that are linear in
per-example parameters, so that the gradient (which the optimizer keeps) is a
log of which examples contributed, how often, and with which random key.
"""
import numpy as np
import jax
import jax.numpy as jnp
import flax
import clu.metrics
import clu.values
from clu import metric_writers
from flax.core import freeze, unfreeze
from flax.linen import partitioning as fp
from t5x import metrics as mlib
from t5x import optimizers, partitioning, train_state as ts_lib, trainer as trainer_lib

P = jax.sharding.PartitionSpec
N = 64   # example ids
D = 3


@flax.struct.dataclass
class HP:
  learning_rate: float = 0.0


class SGD(optimizers.OptimizerDef):
  """Plain SGD; the parameter state keeps the last gradient and rate."""

  def __init__(self):
    super().__init__(HP())

  def init_state(self, params):
    st = {'g': jax.tree.map(jnp.zeros_like, unfreeze(params)), 'lr': jnp.zeros(())}
    return optimizers.OptimizerState(jnp.asarray(0, jnp.int32), st)

  def apply_gradient(self, hp, params, state, grads):
    lr = hp.learning_rate
    g = unfreeze(grads)
    new = jax.tree.map(lambda p, q: p - lr * q, unfreeze(params), g)
    new = freeze(new) if isinstance(params, flax.core.FrozenDict) else new
    return new, optimizers.OptimizerState(state.step + 1, {'g': g, 'lr': jnp.asarray(lr, jnp.float32)})

  def derive_logical_axes(self, opt, axes):
    axes = unfreeze(axes)
    return optimizers.Optimizer(self, optimizers.OptimizerState(None, {'g': axes, 'lr': None}), freeze(axes))


class Lin:
  """Duck-typed t5x model."""

  def __init__(self, mutables=False, extra_metrics=True):
    self.mutables = mutables
    self.extra = extra_metrics

  def metrics(self, pred, batch, loss, train):
    err = pred - batch['y']
    m = {
        'loss': mlib.AveragePerStep(total=loss, steps=1) if not train else mlib.AveragePerStep.from_model_output(loss),
        'wsum': mlib.Sum.from_model_output(batch['w'].sum()),
        'ids': mlib.Sum.from_model_output(batch['id'].astype(jnp.float32).sum()),
        'abs_err': clu.metrics.Average.from_model_output(jnp.abs(err), mask=batch['w'] > 0),
        'seconds': mlib.Time(),
        'examples_per_second': mlib.TimeRate.from_model_output(numerator=jnp.asarray(err.shape[0], jnp.float32)),
        'steps_per_second': mlib.StepsPerTime.from_model_output(),
        'steps_metric': mlib.StepsPerTime.from_model_output(),
    }
    return m

  def _loss(self, params, batch, rng):
    pred = batch['x'] @ params['w']
    u = jax.random.uniform(rng) if rng is not None else jnp.zeros(())
    fit = 0.5 * jnp.sum(batch['w'] * (pred - batch['y']) ** 2)
    seen = params['seen'][batch['id']].sum()
    key = params['key'][batch['id']].sum() * u
    return fit + seen + key, (pred, fit)

  def loss_fn(self, params, batch, dropout_rng, flax_mutables=None):
    loss, (pred, fit) = self._loss(params, batch, dropout_rng)
    m = self.metrics(pred, batch, fit, True)
    if not self.mutables:
      return loss, m
    return loss, (m, self.push(flax_mutables, batch))

  def eval_fn(self, params, batch, flax_mutables=None):
    loss, (pred, fit) = self._loss(params, batch, None)
    m = self.metrics(pred, batch, fit, False)
    if flax_mutables is not None and self.mutables:
      m['mut'] = mlib.Sum.from_model_output(flax_mutables['hist']['n'].astype(jnp.float32).sum())
    return loss, m

  @staticmethod
  def push(mut, batch):
    """Appends a signature of the batch to the mutable history."""
    n = mut['hist']['n']
    sig = (batch['id'].astype(jnp.float32) * batch['x'][:, 0]).sum()
    return freeze({'hist': {'n': n + 1, 'log': mut['hist']['log'].at[n].set(sig)}})


def variables(rng, mutables=False):
  v = {'params': {'w': jnp.asarray(rng.standard_normal(D), jnp.float32), 'seen': jnp.zeros(N), 'key': jnp.zeros(N)},
       'params_axes': {'w_axes': fp.AxisMetadata(('nul',)), 'seen_axes': fp.AxisMetadata(('nul',)), 'key_axes': fp.AxisMetadata(('nul',))}}
  if mutables:
    v['hist'] = {'n': jnp.zeros((), jnp.int32), 'log': jnp.zeros((256,))}
    v['hist_axes'] = {'n_axes': fp.AxisMetadata(()), 'log_axes': fp.AxisMetadata(('nul',))}
  return freeze(v)


def mutables_of(state):
  return unfreeze(state.flax_mutables)


RULES = (('nul', None), ('batch', 'data'), ('mlp', 'model'))


def make_state(rng, mutables=False):
  v = variables(rng, mutables)
  if mutables:
    # Collections live at the top level: {'hist': {...}}.
    pass
  return ts_lib.FlaxOptimTrainState.create(SGD(), v)


def batch(rng, ids, scale=1.0):
  b = len(ids)
  return {'x': (rng.standard_normal((b, D)) * scale).astype(np.float32), 'y': rng.standard_normal(b).astype(np.float32),
          'w': rng.choice([0.0, 1.0, 0.5, 2.0], b).astype(np.float32), 'id': np.asarray(ids, np.int32)}


def make_trainer(state, model, lr_fn, num_microbatches=None, rng=None, partitioner=None, eval_names=(), summary_dir=None, wmc=None):
  part = partitioner or partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=RULES)
  axes = part.get_mesh_axes(state)
  return trainer_lib.Trainer(model=model, train_state=state, partitioner=part, eval_names=list(eval_names), summary_dir=summary_dir,
                             train_state_axes=axes, rng=jax.random.PRNGKey(0) if rng is None else rng, learning_rate_fn=lr_fn,
                             num_microbatches=num_microbatches, weight_metrics_computer=wmc)


class Writer(metric_writers.interface.MetricWriter):
  """Records what reaches the metric writer."""

  def __init__(self, name, log):
    self.name, self.log = name, log

  def write_scalars(self, step, scalars):
    self.log.append((self.name, int(step), {k: float(np.asarray(v)) for k, v in scalars.items()}))

  def _skip(self, *a, **k):
    pass
  write_summaries = write_images = write_videos = write_audios = write_texts = write_histograms = write_pointcloud = write_hparams = _skip

  def flush(self):
    pass

  def close(self):
    pass


def record_writers(log):
  """All writers created from now on append to log."""
  metric_writers.create_default_writer = lambda logdir=None, *, collection=None, **kw: Writer(collection, log)


def ref_step(w, b, lr, n_mb=1):
  """float64 SGD step: new w, gradient, fit loss."""
  x, y, ww = (b[k].astype(np.float64) for k in ('x', 'y', 'w'))
  r = x @ w - y
  g = (x * (ww * r)[:, None]).sum(0)
  return w - lr * g, g, 0.5 * (ww * r * r).sum(), np.abs(r)
