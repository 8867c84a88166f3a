"""V01: the interactive model does what the batch tools do."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=1'
import shards
c = shards.run('V01', 'interactive models on tiny networks: random example lists, batch sizes, lengths and preprocessors; predictions, scores, metrics, training steps and '
  'checkpoints are compared with the model and optimizer run directly on features computed from the definition; distinct by configuration and examples', 6, 36, parallel=6, stall=200,
  needs=[('predictions', 30), ('scores', 30), ('train-steps', 20), ('metric-calls', 12), ('intermediates', 3), ('resumed', 5), ('loops', 5), ('seqio-batches', 10), ('refused', 10), ('tasks', 5)])
import t5xshim
import functools
import numpy as np, jax, jax.numpy as jnp, optax, seqio, tensorflow as tf, flax
import netlib as N
from t5x import adafactor, checkpoints, decoding, interactive_model as I, models, optimizers, partitioning, utils
rng = c.rng
byte = seqio.ByteVocabulary()
WORDS = ['a', 'hello', 'ab cd', 'ünï', '日本', 'some longer text', ' ', 'Z', 'a b']
def text(): return str(rng.choice(WORDS)) if rng.random() < .5 else ''.join(chr(int(x)) for x in rng.integers(32, 127, int(rng.integers(0, 12))))
def examples(n, plain=False): return [text() if plain and rng.random() < .5 else {'input': text(), 'target': text()} for _ in range(n)]
def pair(e): return (e, '') if isinstance(e, str) else (e['input'], e['target'])
PRE = [seqio.preprocessors.tokenize, seqio.preprocessors.append_eos]

def upper(ds):   # a preprocessor of the caller's own
  return ds.map(lambda x: dict(x, inputs=tf.strings.upper(x['inputs'])))

class World:
  """One model and what it should compute."""
  def __init__(self):
    self.bs = int(rng.integers(1, 5)); self.lens = dict(inputs=int(rng.integers(4, 10)), targets=int(rng.integers(4, 9))); self.eos = bool(rng.random() < .7)
    self.kind = str(rng.choice(['t5', 'scalable'], p=[.7, .3])); self.beam = bool(rng.random() < .4); self.seed = int(rng.integers(1 << 20))
    self.opt = ['sgd', 'adafactor'][int(rng.integers(0, 2))]
    self.fns = {}; self.made = 0
    self.model = self.make_model()
    self.det = dict(batch_size=self.bs, lengths=self.lens, eos=self.eos, kind=self.kind, beam=self.beam, seed=self.seed, optimizer=self.opt)
  def make_model(self):
    mod = N.module(self.kind, vocab_size=byte.vocab_size + 1, layers=1)
    opt = optimizers.OptaxWrapper(optax.sgd(.1)) if self.opt == 'sgd' else adafactor.Adafactor(decay_rate=.8, logical_factor_rules=adafactor.standard_logical_factor_rules())
    fn = functools.partial(decoding.beam_search, alpha=.6) if self.beam else functools.partial(decoding.temperature_sample, temperature=0.0)
    return models.EncoderDecoderModel(mod, byte, byte, opt, decode_fn=fn)
  def shapes(self):
    return dict(encoder_input_tokens=(self.bs, self.lens['inputs']), decoder_target_tokens=(self.bs, self.lens['targets']), decoder_input_tokens=(self.bs, self.lens['targets']), decoder_loss_weights=(self.bs, self.lens['targets']))
  def interactive(self, out, path=None, mode='specific'):
    return I.InteractiveModel(batch_size=self.bs, task_feature_lengths=dict(self.lens), output_dir=out, partitioner=partitioning.PjitPartitioner(num_partitions=1), model=self.model, dtype='float32',
                              restore_mode=mode, checkpoint_path=path, input_shapes=self.shapes(), init_random_seed=self.seed, add_eos=self.eos)
  def ids(self, s, n): return (byte.encode(s) + ([1] if self.eos else []))[:n]
  def features(self, exs, up=False):
    a, b = zip(*[pair(e) for e in exs])
    if up: a = [''.join(chr(ord(ch) - 32) if 'a' <= ch <= 'z' else ch for ch in x) for x in a]
    def pad(xs, k):
      out = np.zeros((len(xs), self.lens[k]), np.int32)
      for i, x in enumerate(xs): t = self.ids(x, self.lens[k]); out[i, :len(t)] = t
      return out
    t = pad(b, 'targets')
    return dict(encoder_input_tokens=pad(a, 'inputs'), decoder_target_tokens=t, decoder_input_tokens=N.shift(t), decoder_loss_weights=(t > 0).astype(np.int32))
  def run(self, name, fn, params, exs, up=False):
    """Results of every example, computed together with copies of itself."""
    if name not in self.fns: self.fns[name] = jax.jit(fn)
    f = self.features(exs, up); out = []
    for i in range(len(exs)):
      out.append(jax.tree.map(lambda x: np.asarray(x)[0], self.fns[name](params, {k: np.repeat(v[i:i + 1], self.bs, 0) for k, v in f.items()})))
    return out

def params_of(im): return jax.tree.map(np.asarray, flax.core.unfreeze(im.train_state.params))
def decode(t): return byte.decode_tf(tf.constant(np.asarray(t))).numpy()
def match(a, b): return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-3, atol=2e-3)

def inference(w, im):
  p = im.train_state.params; up = bool(rng.random() < .3); exs = examples(int(rng.integers(1, 3 * w.bs + 2)), plain=True); pre = ([upper] if up else []) + PRE; det = dict(w.det, examples=exs, upper=up)
  k = int(rng.integers(1, 4)); many = bool(rng.random() < .5)
  ok, r = c.attempt('predict', lambda: im.predict_with_aux(exs) if not up and not many else im.infer_with_preprocessors(I.InferenceType.PREDICT_WITH_AUX, exs, pre, **(dict(num_decodes=k, return_all_decodes=True) if many else {})))
  if ok:
    kw = dict(num_decodes=k, return_all_decodes=True) if many else {}
    want = w.run(('p', many, k), functools.partial(w.model.predict_batch_with_aux, **kw), p, exs, up)
    preds, aux = r
    if c.check(len(preds) == len(exs) and set(aux) == {'scores'} and len(aux['scores']) == len(exs), 'predict:count', got=len(preds), aux={a: np.shape(v) for a, v in aux.items()}, want=len(exs), **det):
      for e, (inp, got), sc, (toks, a) in zip(exs, preds, aux['scores'], want):
        c.event('predictions'); q = pair(e);
        c.check(inp['inputs_pretokenized'].decode() == (q[0] if not up else ''.join(chr(ord(ch) - 32) if 'a' <= ch <= 'z' else ch for ch in q[0])) and inp['targets_pretokenized'].decode() == q[1], 'predict:example-order', got=inp, want=q, **det)
        c.check(match(sc, a['scores']), 'predict:aux', got=sc, want=a['scores'], example=q, many=many, **det)
        c.check(np.array_equal(got, decode(toks)), 'predict:text', got=got, want=decode(toks), example=q, many=many, **det)
      c.case(('predict', str(w.det), str(exs), many, k), len(exs) > w.bs, dict(det, predictions=[x[1] for x in preds]))
  inter = bool(rng.random() < .4)
  ok, r = c.attempt('score', lambda: im.infer_with_preprocessors(I.InferenceType.SCORE, exs, pre, return_intermediates=True) if inter else (im.score(exs), {}) if not up else im.infer_with_preprocessors(I.InferenceType.SCORE, exs, pre))
  if ok:
    want = w.run('s', w.model.score_batch, p, exs, up); sc, aux = r
    if c.check(len(sc) == len(exs), 'score:count', got=len(sc), want=len(exs), **det):
      for e, (inp, got), x in zip(exs, sc, want):
        c.event('scores'); c.check(inp['targets_pretokenized'].decode() == pair(e)[1], 'score:example-order', got=inp, want=e, **det)
        c.check(match(got, x), 'score:value', got=got, want=x, example=e, intermediates=inter, **det)
      if inter:
        ts = aux['decoder']['token_scores'][0]; tt = aux['decoder']['target_tokens'][0]
        if c.check(len(ts) == len(exs) and len(tt) == len(exs), 'score:intermediates-count', got=[np.shape(ts), np.shape(tt)], want=len(exs), **det):
          c.check(np.array_equal(np.stack(tt), w.features(exs, up)['decoder_target_tokens']), 'score:intermediates-order', **det)
          c.close(np.stack(ts).sum(-1), np.asarray(want), 'score:intermediates-value', rtol=1e-3, atol=2e-3, **det); c.event('intermediates')
      c.case(('score', str(w.det), str(exs)), len(exs) > w.bs, dict(det, scores=[float(x[1]) for x in sc]))

def metrics(w, im):
  exs = examples(int(rng.integers(1, 2 * w.bs + 2))); seen = {}
  def m_pred(targets, predictions): seen['p'] = (list(targets), list(predictions)); return {'p': 1.0}
  def m_aux(targets, predictions, aux_values): seen['a'] = (list(targets), list(predictions), {k: list(v) for k, v in aux_values.items()}); return {'a': 2.0}
  def m_score(targets, scores): seen['s'] = (list(targets), list(scores)); return {'s': 3.0, 's2': 4.0}
  fns = [f for f in (m_pred, m_aux, m_score) if rng.random() < .6] or [m_score]; p = im.train_state.params; det = dict(w.det, examples=exs, metrics=[f.__name__ for f in fns])
  post = bool(rng.random() < .4)
  def postprocess(x, example=None, is_target=False): return ('T', x, example['inputs_pretokenized'], is_target)
  if post: ok, r = c.attempt('evaluate', im.evaluate_with_preprocessors, exs, PRE, fns, postprocess)
  else: ok, r = c.attempt('evaluate', im.evaluate, exs, fns)
  if not ok: return
  want = {}; [want.update({m_pred: {'p': 1.0}, m_aux: {'a': 2.0}, m_score: {'s': 3.0, 's2': 4.0}}[f]) for f in fns]
  c.check(r == want, 'evaluate:metrics', got=r, want=want, **det)
  tg = [e['target'].encode() for e in exs]
  if post: tg = [('T', t, e['input'].encode(), True) for t, e in zip(tg, exs)]
  ps = w.run(('p', False, 1), w.model.predict_batch_with_aux, p, exs) if (m_pred in fns or m_aux in fns) else None
  for k, v in seen.items():
    c.event('metric-calls'); c.check(v[0] == tg, 'evaluate:targets', got=v[0], want=tg, metric=k, **det)
    if k == 's': x = np.asarray(w.run('s', w.model.score_batch, p, exs)); c.check(match(v[1], x), 'evaluate:scores', got=v[1], want=x, **det)
    else: x = [decode(t).decode() for t, _ in ps]; c.check(v[1] == x, 'evaluate:predictions', got=v[1], want=x, metric=k, **det)
    if k == 'a': x = np.stack([a['scores'] for _, a in ps]); c.check(set(v[2]) == {'scores'} and match(np.stack(v[2]['scores']), x), 'evaluate:aux', got=v[2], want=x, **det)
  c.case(('evaluate', str(w.det), str(exs), str(det['metrics'])), len(exs) > 1, det)
  def bad(a, b): return {}
  try: im.evaluate(exs, [bad]); c.violation('evaluate:unknown-metric-accepted', **det)
  except ValueError: c.event('refused')
  def again(targets, predictions): return {'p': 5.0}
  try: im.evaluate(exs, [m_pred, again]); c.violation('evaluate:duplicate-metric-accepted', **det)
  except ValueError: c.event('refused')

LR = utils.create_learning_rate_scheduler()
class Twin:
  """The same training, by the model and the optimizer alone (no dropout)."""
  def __init__(self, w, im):
    self.w = w; st = im.train_state; self.o = st._optimizer; self.fn = jax.jit(lambda o, b, lr: o.apply_gradient(jax.grad(lambda p: w.model.loss_fn(p, b, None)[0])(o.target), learning_rate=lr)); self.step = int(st.step)
    self.o = jax.tree.map(lambda x: jnp.array(np.asarray(x)), self.o)
  def train(self, exs):
    b = self.w.features(exs[:self.w.bs]); self.o = self.fn(self.o, {k: jnp.asarray(v) for k, v in b.items()}, LR(self.step)); self.step += 1
  def same(self, im, mech, **det):
    c.check(im.step == self.step, mech + ':step', got=im.step, want=self.step, **det)
    for (path, g), h in zip(jax.tree_util.tree_leaves_with_path(params_of(im)), jax.tree.leaves(flax.core.unfreeze(self.o.target))):
      if not c.close(g, np.asarray(h), mech + ':parameters', rtol=2e-3, atol=2e-4 * max(1.0, float(np.abs(h).max())), path=str(path), **det): return

def steps_on_disk(d): return sorted(int(x[11:]) for x in os.listdir(d) if x.startswith('checkpoint_') and x[11:].isdigit())

def training(w, im, out):
  tw = Twin(w, im); n = int(rng.integers(2, 8)); before = im.step; det = dict(w.det)
  for i in range(n):
    exs = examples(w.bs + int(rng.integers(0, 2 * w.bs)))
    for e in exs: e['target'] = e['target'] or 'x'
    up = False
    ok, _ = c.attempt('train-step', im.train_step, exs)
    if not ok: return False
    tw.train(exs); tw.same(im, 'train', examples=exs, **det); c.event('train-steps')
    want = list(range(before + 1, before + i + 2))[-5:]; have = [s for s in steps_on_disk(out) if s > before]
    c.check(have == want, 'train:checkpoints', got=have, want=want, **det)
    c.case(('train', str(w.det), str(exs)), True, dict(det, examples=exs, step=im.step))
  if w.bs > 1:
    try: im.train_step(examples(w.bs - 1)); c.violation('train:short-batch-accepted', **det)
    except ValueError: c.event('refused')
    tw.same(im, 'train:refused-batch-changed-state', **det)
  return True

def resumed(w, im, out):
  """A second interactive model goes on where the first one stopped."""
  a = params_of(im); how = int(rng.integers(0, 3)); det = dict(w.det, how=how)
  if how == 0: args = (out,)
  elif how == 1: args = (os.path.join(c.dir(), 'second'), os.path.join(out, 'checkpoint_%d' % steps_on_disk(out)[-1]))
  else: args = (os.path.join(c.dir(), 'second'), out, 'latest')
  ok, im2 = c.attempt('resume', w.interactive, *args)
  if not ok: return None
  KEEP.append(im2)
  c.check(im2.step == im.step, 'resume:step', got=im2.step, want=im.step, **det)
  for (path, g), h in zip(jax.tree_util.tree_leaves_with_path(params_of(im2)), jax.tree.leaves(a)): c.check(np.array_equal(g, h), 'resume:parameters', path=str(path), **det)
  exs = examples(w.bs)
  for e in exs: e['target'] = e['target'] or 'z'
  tw = Twin(w, im); ok, _ = c.attempt('resume:train', im2.train_step, exs)
  if ok: tw.train(exs); tw.same(im2, 'resume:next', **det)
  c.event('resumed'); c.case(('resume', str(det)), True, det)
  return im2 if ok else None

def loop(w, im):
  """train_loop trains the asked number of steps on the batches in turn."""
  tw = Twin(w, im); n = int(rng.integers(1, 6)); period = int(rng.integers(1, 4)); kind = str(rng.choice(['single', 'list', 'none'], p=[.3, .6, .1])); log = []
  def bat():
    x = examples(w.bs)
    for e in x: e['target'] = e['target'] or 'y'
    return x
  tr = bat() if kind == 'single' else [bat() for _ in range(int(rng.integers(1, 7)))] if kind == 'list' else None
  pr, sc, ev = [(bat() if rng.random() < .4 else [bat() for _ in range(int(rng.integers(1, 3)))]) if rng.random() < .7 else None for _ in range(3)]; start = im.step
  def metric(targets, scores): log.append((im.step - start, list(targets))); return {'n': len(log)}
  det = dict(w.det, steps=n, eval_period=period, batches=None if tr is None else (kind, len(tr)), train=tr, predict=pr, score=sc, evaluate=ev)
  ok, r = c.attempt('loop', lambda: im.train_loop(n, eval_period=period, train_batches=tr, predict_batches=pr, score_batches=sc, eval_batches=ev, metrics_fns=[metric]))
  if not ok: return
  if tr is not None:
    for i in range(n): tw.train(tr if kind == 'single' else tr[i % len(tr)])
  tw.same(im, 'loop', **det)
  lst = lambda b: [b] if isinstance(b[0], dict) else b
  if ev is not None:
    want = [((i + 1) if tr is not None else 0, [e['target'].encode() for e in b]) for i in range(n) if i % period == 0 for b in lst(ev)]
    c.check(log == want, 'loop:evaluations', got=log, want=want, **det); c.check(r[2] == {'n': len(want)}, 'loop:metrics', got=r[2], **det)
  else: c.check(r[2] is None and not log, 'loop:metrics', got=r[2], **det)
  for got, b, name in ((r[0], pr, 'predictions'), (r[1], sc, 'scores')):
    if b is None: c.check(got is None, 'loop:' + name, got=got, **det); continue
    last = lst(b)[-1]
    if c.check(len(got) == len(last), 'loop:' + name + '-count', got=len(got), want=len(last), **det): c.check([x[0]['inputs_pretokenized'].decode() for x in got] == [e['input'] for e in last], 'loop:' + name, **det)
  c.event('loops'); c.case(('loop', str(det)), n > 1, det)

def from_seqio(w, im, i):
  name = 'v01_%d_%d_%d' % (os.getpid(), c.shard, i); rows = examples(int(rng.integers(1, 12))); bs, nb = int(rng.integers(1, 5)), int(rng.integers(1, 5)); pre = bool(rng.random() < .6); det = dict(rows=rows, batch_size=bs, batches=nb, pretokenized=pre)
  src = [dict(inputs=e['input'], targets=e['target']) for e in rows]
  def gen(split, shuffle_files=False, seed=None): return tf.data.Dataset.from_generator(lambda: iter(src), output_signature=dict(inputs=tf.TensorSpec([], tf.string), targets=tf.TensorSpec([], tf.string)))
  seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(gen, splits=['train']), preprocessors=PRE, output_features={k: seqio.Feature(byte, add_eos=w.eos) for k in ('inputs', 'targets')}, metric_fns=[])
  enough = bs * nb <= len(rows)
  try:
    got = I.get_batches_from_seqio(name, 'train', bs, nb, get_pretokenized_examples=pre, sequence_length=dict(w.lens), shuffle=False)
    if c.check(enough, 'seqio:too-few-examples-accepted', **det):
      want = [[({'input': e['input'].encode(), 'target': e['target'].encode()} if pre else {'input': w.ids(e['input'], w.lens['inputs']), 'target': w.ids(e['target'], w.lens['targets'])}) for e in rows[j * bs:(j + 1) * bs]] for j in range(nb)]
      c.check(got == want, 'seqio:batches', got=got, want=want, **det); c.event('seqio-batches')
  except ValueError:
    c.check(not enough, 'seqio:refused', **det); c.event('refused')
  seqio.TaskRegistry.remove(name)
  # The other way: examples as a task.
  ok, t = c.attempt('task', I.get_seqio_task_from_examples, name + 't', im, rows, PRE)
  if ok:
    d = list(t.get_dataset(sequence_length=dict(w.lens), split='train', shuffle=False).as_numpy_iterator())
    want = [(e['input'].encode(), w.ids(e['input'], w.lens['inputs']), w.ids(e['target'], w.lens['targets'])) for e in rows]; got = [(x['inputs_pretokenized'], x['inputs'].tolist(), x['targets'].tolist()) for x in d]
    c.check(got == want, 'task:examples', got=got, want=want, **det); c.event('tasks'); seqio.TaskRegistry.remove(name + 't')
  c.case(('seqio', str(det)), enough, None)

KEEP = []   # a trainer collected while tf.data traces a function would leave its summary writer in the graph
for r in range(c.n(1, 2)):
  if c.out_of_time(.9): break
  w = World(); out = os.path.join(c.dir(), 'run'); given = out.replace('/run', '//run') if rng.random() < .5 else out
  ok, im = c.attempt('create', w.interactive, given)
  if not ok: continue
  KEEP.append(im)
  c.check(im.step == 0, 'create:step', got=im.step); c.beat()
  for k in range(c.n(3, 6)): c.section('inference', inference, w, im); c.beat()
  for k in range(c.n(3, 6)): c.section('metrics', metrics, w, im); c.beat()
  if c.section('training', training, w, im, out): c.beat(); c.section('inference', inference, w, im); im = c.section('resumed', resumed, w, im, out) or im; c.beat()
  for k in range(c.n(2, 4)): c.section('loop', loop, w, im); c.beat()
  for k in range(c.n(6, 12)): c.section('from_seqio', from_seqio, w, im, r * 100 + k)
  c.beat()
c.finish()
