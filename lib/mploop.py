"""One host's part of a multi-host training job: lifetimes of train.train, executed by every process in step."""
import os, signal, time
import numpy as np
import jax
import looplib as LL, mpckpt, trainlib as TL
from t5x import partitioning, trainer as T, utils

CLOCK = time.time


class Script(T.BaseAction):
  """Asks for a stop at the steps this host was told; logs every call."""

  def __init__(self, at, log):
    self.at, self.log = at, log

  def run(self, train_state, metrics_by_task):
    s = int(train_state.step)
    self.log.append((s, {k: {m: float(v.value) for m, v in d.items() if m in ('loss', 'ids', 'wsum')} for k, d in metrics_by_task.items()}))
    return s in self.at


def rows(batches, shard, n):
  k = LL.B // n
  return [{key: v[shard * k:(shard + 1) * k] for key, v in b.items()} for b in batches]


def lifetime(x, host=None, part=None):
  """One call of train.train as planned in x."""
  host = jax.process_index() if host is None else host
  LL.B = x['B']; batches = LL.stream(x['seed'], x['total'] + 8); evals = {'e%d' % i: LL.stream(x['seed'] + 1 + i, n) for i, n in enumerate(x['evals'])}
  part = part or partitioning.PjitPartitioner(model_parallel_submesh=tuple(x['mesh']), logical_axis_rules=TL.RULES)
  LL.partitioner = lambda: part
  writes, log, calls, asked = [], [], [], []; TL.record_writers(writes); first = {}; delay = np.random.default_rng([x['seed'], host])
  skew = x['skew'].get(host, 0.0); time.time = lambda: CLOCK() + skew
  def before(tr, s, n):
    if s not in first: first[s] = local(tr.train_state.params['w'])
    if x['slow'].get(host): time.sleep(float(delay.random()) * x['slow'][host])
    if x['kill'] and x['kill'][0] == host and s >= x['kill'][1]: os.kill(os.getpid(), signal.SIGKILL)
  def get(cfg, shard, n, fc): asked.append((int(shard), int(n))); return LL.dataset(rows(batches, shard, n))
  def evget(cfg, shard, n, steps, fc): asked.append((int(shard), int(n))); return {k: LL.dataset(rows(v, shard, n)) for k, v in evals.items()}
  actions = {k: [Script(at.get(host, ()), calls)] for k, at in x['actions'].items()} or None
  try:
    end, state = LL.run(x['dir'], batches, x['goal'], log, save=LL.save_config(period=x['period'], save_dataset=x['ds'], keep=x['keep']) if x['period'] else None, before=before, use_orbax=x['orbax'],
                        eval_period=x['eval_period'], evals=evals if evals else None, actions=actions, seed=x['key'], stats_period=x['stats'], n_mb=x['n_mb'],
                        get_dataset_fn=get, train_eval_get_dataset_fn=evget)
  finally:
    time.time = CLOCK
  LL.settle()
  n, hist = LL.history(jax.tree.map(lambda a: a.addressable_data(0) if isinstance(a, jax.Array) else a, state))
  lay = part.get_data_layout(x['B'])
  return dict(host=host, end=int(end), log=log, calls=calls, writes=writes, asked=asked, layout=(lay.shard_id, lay.num_shards), first=first, committed=LL.committed(x['dir']), hist=hist, n=n, step=int(np.asarray(local(state.step))),
              leaves={jax.tree_util.keystr(k): local(v) for k, v in jax.tree_util.tree_flatten_with_path(state.state_dict())[0]}, copies=copies(state))


def local(a): return np.array(a.addressable_data(0)) if isinstance(a, jax.Array) else np.array(a)


def copies(state):
  """Leaves whose replicas on this host differ."""
  bad = []
  for k, v in jax.tree_util.tree_flatten_with_path(state.state_dict())[0]:
    if isinstance(v, jax.Array) and v.is_fully_replicated:
      a = [np.array(s.data) for s in v.addressable_shards]
      if any((p != a[0]).any() for p in a): bad.append(jax.tree_util.keystr(k))
  return bad


def run(plan):
  mpckpt.shim()
  return [lifetime(x) for x in plan]
