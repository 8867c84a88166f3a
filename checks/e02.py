"""E02: exported models compute what the model computes."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=1'
import shards
c = shards.run('E02', 'shipped networks saved as SavedModels by export_lib.save (encoder-decoder and decoder-only, prediction and scoring, text and tokens, fixed and variable batches, with and without a partitioner, batching of concurrent calls), loaded again and called; '
  'answers are compared with the model run directly on features computed from the definition; distinct by configuration and inputs', 6, 48, parallel=6, stall=200,
  needs=[('exports', 12), ('calls', 60), ('predictions', 40), ('scores', 40), ('features', 200), ('concurrent-calls', 40), ('merged-batches', 2), ('warmups', 12), ('parameters', 100), ('from-task', 6)])
import t5xshim, servingstub
import functools, threading
import numpy as np, jax, jax.numpy as jnp, optax, seqio, tensorflow as tf
import netlib as N
from t5x import checkpoints, decoding, export_lib as E, models, optimizers, partitioning, utils
from tensorflow_serving.apis import prediction_log_pb2
rng = c.rng
byte = seqio.ByteVocabulary()
WORDS = ['', 'a', 'hello', 'ab|cd', '|x', 'x|', 'a|b|c', 'ünï', '日本', 'some longer text', ' ', 'Z', '\n', 'a b']
def text(): return str(rng.choice(WORDS)) if rng.random() < .6 else ''.join(chr(int(x)) for x in rng.integers(32, 127, int(rng.integers(0, 14))))
def texts(n): return [text() for _ in range(n)]
def token_rows(n, length, full=False):
  out = np.zeros((n, length), np.int32)
  for r in out: k = length if full else int(rng.integers(0, length + 1)); r[:k] = rng.integers(3, 250, k)
  return out

# --- definitions of the features ---------------------------------------------
def ids(x, length, eos):
  t = [int(v) for v in x[:np.max(np.nonzero(x)[0], initial=-1) + 1]] if not isinstance(x, str) else byte.encode(x)
  return (t[:length - 1] + [1]) if eos else t[:length]

def pad(rows, n): out = np.zeros((len(rows), n), np.int32); [out.__setitem__((i, slice(0, len(r))), r) for i, r in enumerate(rows)]; return out
def shift(x): out = np.zeros_like(x); out[:, 1:] = x[:, :-1]; return out
def bucket(n, keys): return min([k for k in sorted(keys) if k >= n] or [max(keys)])

def want_encdec(xs, feats, lens, sep=None, buckets=None, tokenized=False):
  if tokenized: a, b = xs, [np.zeros(1, int)] * len(xs)
  elif sep is None: a, b = xs, [''] * len(xs)
  else: a, b = zip(*[(x.split(sep, 1) + [''])[:2] for x in xs])
  out = []
  for rows, k in ((a, 'inputs'), (b, 'targets')):
    t = [ids(x, lens[k], feats[k].add_eos) for x in rows]
    # Tokens come padded to the full length unless EOS is appended to them.
    n = lens[k] if not (buckets and k in buckets) else max(bucket(lens['inputs'] if tokenized and not feats[k].add_eos else len(r), buckets[k]) for r in t)
    out.append(pad(t, n))
  return dict(encoder_input_tokens=out[0], decoder_target_tokens=out[1], decoder_input_tokens=shift(out[1]), decoder_loss_weights=(out[1] > 0).astype(np.int32))

def want_decoder(xs, feats, lens, feature, tokenized):
  n = sum(lens.values()); t = []
  for x in xs: r = ids(x, 10 ** 6, False); t.append(r + [1] if feats[feature].add_eos else r)
  tok = pad([r[:n] for r in t], n); w = np.array([[len(r)] for r in t]) if feature == 'inputs' else np.zeros((len(t), 1), int); pos = np.arange(n)[None]
  return dict(decoder_target_tokens=tok, decoder_input_tokens=shift(tok), decoder_loss_weights=((tok > 0) & ~(pos < w)).astype(np.int32), decoder_causal_attention=(pos < (w + 1 if feature == 'inputs' else w)).astype(np.int32))

def same(got, want, mech, det):
  if not c.check(set(got) == set(want), mech + ':names', got=sorted(got), want=sorted(want), **det): return
  for k, w in want.items():
    g = np.asarray(got[k])
    # Where nothing is predicted (buckets pad each row by itself) inputs do not count.
    if k == 'decoder_input_tokens' and det.get('buckets') and g.shape == w.shape: g, w = [np.where(np.asarray(want['decoder_target_tokens']) > 0, x, 0) for x in (g, w)]
    c.event('features'); c.check(g.shape == w.shape and np.array_equal(g, w), mech + ':value', feature=k, got=g, want=w, **det)

def features(i):
  """The four preprocessors on random texts and tokens, eagerly and as graphs."""
  feats = {k: seqio.Feature(byte, add_eos=bool(rng.random() < .5)) for k in ('inputs', 'targets')}; lens = {k: int(rng.integers(2, 12)) for k in feats}; n = int(rng.integers(1, 6)); kind = ['encdec', 'dual', 'inputs', 'targets'][i % 4]; tok = bool(rng.random() < .4)
  fixed = [None, n][int(rng.integers(0, 2))]; sep = None if tok or rng.random() < .5 else '|'; bk = None
  if rng.random() < .4 and kind in ('encdec', 'dual') : bk = {k: sorted(set([lens[k]] + [int(x) for x in rng.integers(1, lens[k] + 1, 2)]), key=lambda x: rng.random()) for k in feats if rng.random() < .7} or None
  if tok and bk and lens['targets'] > lens['inputs']: bk = None   # tokens of the inputs bound both
  xs = token_rows(n, lens['inputs']) if tok else texts(n); det = dict(kind=kind, tokenized=tok, eos={k: f.add_eos for k, f in feats.items()}, lengths=lens, separator=sep, buckets=bk, given=xs)
  if kind in ('inputs', 'targets'): want = want_decoder(xs, feats, lens, kind, tok); make = lambda: (E.create_decoder_preprocessor(feats, lens, tok, kind), None)
  else:
    want = want_encdec(xs, feats, lens, sep, bk, tok)
    make = lambda: (E.create_preprocessor if kind == 'encdec' else E.create_dual_encoder_preprocessor)(fixed, feats, lens, tok, split_separator=sep, bucket_keys=bk and {k: list(v) for k, v in bk.items()}, input_tensor_name='given')
    if kind == 'dual': want = dict(left_encoder_input_tokens=want['encoder_input_tokens'], right_encoder_input_tokens=want['decoder_target_tokens'])
  ok, got = c.attempt('features:make', make)
  if not ok: return
  fn, sig = got; spec = tf.TensorSpec([fixed, lens['inputs']], tf.int32, name='given') if tok else tf.TensorSpec([fixed], tf.string, name='given')
  if sig is not None: c.check(tuple(sig) == (spec,), 'features:signature', got=repr(sig), want=repr(spec), **det)
  ok, out = c.attempt('features:call', lambda: {k: v.numpy() for k, v in (tf.function(fn, input_signature=[spec], autograph=False) if i % 3 else fn)(tf.constant(xs)).items()})
  if ok: same(out, want, 'features', det); c.case(('features', str(det)), True, det if i == 0 else None)

def from_task(i):
  """A preprocessor made of a SeqIO task gives what the task gives."""
  name = 'e02_%d_%d_%d' % (os.getpid(), c.shard, i); n = int(rng.integers(1, 5)); lens = dict(inputs=int(rng.integers(3, 10)), targets=int(rng.integers(3, 10))); eos = bool(rng.random() < .5); serialized = bool(rng.random() < .6); fixed = [None, n][int(rng.integers(0, 2))]; pre = bool(rng.random() < .4)
  # Without EOS append_eos_after_trim does not trim: longer texts are not valid.
  def fits(k): t = text(); return t if eos else byte.decode(byte.encode(t)[:lens[k]]) if t.isascii() else ''
  rows = [dict(inputs=fits('inputs'), targets=fits('targets')) for _ in range(n)]
  if pre: pps = [seqio.preprocessors.tokenize, seqio.CacheDatasetPlaceholder(), seqio.preprocessors.append_eos_after_trim]; pre = True
  else: pps = [seqio.preprocessors.tokenize, seqio.preprocessors.append_eos_after_trim]
  def gen(split, shuffle_files=False, seed=None): return tf.data.Dataset.from_generator(lambda: iter(rows), output_signature=dict(inputs=tf.TensorSpec([], tf.string), targets=tf.TensorSpec([], tf.string)))
  feats = {k: seqio.Feature(byte, add_eos=eos) for k in lens}; seqio.TaskRegistry.remove(name)
  seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(gen, splits=['train']), preprocessors=pps, output_features=feats, metric_fns=[])
  class Holder: FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter
  det = dict(rows=rows, lengths=lens, eos=eos, serialized=serialized, precache=pre)
  ok, got = c.attempt('task:make', lambda: E.create_preprocessor_from_task(fixed, feats, lens, False, model=Holder(), task_name=name, serialized_examples=serialized, run_precache=pre))
  if not ok: return
  fn, sig = got
  if serialized: x = tf.constant([tf.train.Example(features=tf.train.Features(feature={k: tf.train.Feature(bytes_list=tf.train.BytesList(value=[v.encode()])) for k, v in r.items()})).SerializeToString() for r in rows])
  else: x = {k: tf.constant([r[k] for r in rows]) for k in lens}
  call = fn if i % 2 else tf.function(fn, autograph=False)
  ok, out = c.attempt('task:call', lambda: {k: v.numpy() for k, v in call(x).items()})
  if ok:
    # Columns in the order of one example each.
    tok = {k: pad([ids(r[k], lens[k], eos) for r in rows], lens[k]) for k in lens}
    same(out, dict(encoder_input_tokens=tok['inputs'], decoder_target_tokens=tok['targets'], decoder_input_tokens=shift(tok['targets']), decoder_loss_weights=(tok['targets'] > 0).astype(np.int32)), 'task', det); c.event('from-task'); c.case(('task', str(det)), True, det if i == 0 else None)
  seqio.TaskRegistry.remove(name)

# --- whole exports ------------------------------------------------------------
SPREAD = 3.
def saved(kind, seed, sd):
  mod = N.module(kind, vocab_size=byte.vocab_size + 1, layers=1); part = partitioning.PjitPartitioner(num_partitions=1); opt = optimizers.OptaxWrapper(optax.sgd(.1))
  if kind == 'decoder_only': m = models.DecoderOnlyModel(mod, byte, opt, decode_fn=functools.partial(decoding.temperature_sample, temperature=0.0) if rng.random() < .5 else decoding.beam_search, inputs_bidirectional_attention=bool(rng.random() < .5)); names = ('decoder_target_tokens', 'decoder_input_tokens', 'decoder_loss_weights', 'decoder_causal_attention')
  else: m = models.EncoderDecoderModel(mod, byte, byte, opt, decode_fn=functools.partial(decoding.temperature_sample, temperature=0.0) if rng.random() < .5 else decoding.beam_search); names = ('encoder_input_tokens', 'decoder_target_tokens', 'decoder_input_tokens', 'decoder_loss_weights')
  ini = utils.TrainStateInitializer(m.optimizer_def, m.get_initial_variables, {k: (2, 8) for k in names}, part); st = ini.from_scratch(jax.random.PRNGKey(seed)); p = jax.tree.map(lambda a, s: np.asarray(a).reshape(s.shape), N.init(mod, 'decoder_only' if kind == 'decoder_only' else kind, seed), jax.tree.map(lambda s: s, flax_unfreeze(st.params)))
  st = st.replace_params(jax.tree.map(jnp.asarray, p) if isinstance(st.params, dict) else flax_freeze(jax.tree.map(jnp.asarray, p))); st = st.replace_step(jnp.asarray(7, jnp.int32)); d = c.dir()
  checkpoints.Checkpointer(ini.global_train_state_shape, part, d, save_dtype=jnp.dtype(sd)).save(st)
  return m, part, d, jax.tree.map(np.asarray, flax_unfreeze(st.params))

def flax_unfreeze(x): import flax; return flax.core.unfreeze(x)
def flax_freeze(x): import flax; return flax.core.freeze(x)

def cut(toks):
  """The text of decoded tokens: up to EOS."""
  out = []
  for t in toks:
    t = list(map(int, t)); t = t[:t.index(1)] if 1 in t else t; out.append(bytes(x - 3 for x in t if 3 <= x < 259).decode('utf-8', 'ignore'))
  return out

def export(i):
  kind = ['t5', 'decoder_only', 'scalable'][int(rng.choice(3, p=[.5, .3, .2]))]; mode = ['predict', 'score'][i % 2]; tok = bool(rng.random() < .4); sd = str(rng.choice(['float32', 'bfloat16'])); rd = [None, 'float32', 'bfloat16'][int(rng.choice(3, p=[.5, .3, .2]))]; feats = {k: seqio.Feature(byte, add_eos=bool(rng.random() < .6)) for k in ('inputs', 'targets')}
  lens = dict(inputs=int(rng.integers(4, 9)), targets=int(rng.integers(4, 8))); bs = [None, 1, 2, 3][int(rng.integers(0, 4))]; batching = bool(rng.random() < .5); sep = '|' if mode == 'score' and kind != 'decoder_only' and not tok and rng.random() < .7 else None; by_part = bool(rng.random() < .6); feature = 'targets' if kind == 'decoder_only' and mode == 'score' else 'inputs'
  if not feats['inputs'].add_eos and not tok: pass
  seed = int(rng.integers(1 << 30)); m, part, d, params = saved(kind, seed, sd); where = str(rng.choice(['latest', 'specific'])) if by_part else 'specific'; names = None if rng.random() < .5 else (['first', 'second'] if mode == 'predict' else ['only']); use_params = kind == 't5' and mode == 'predict' and not batching and rng.random() < .6; sizes = sorted({int(x) for x in rng.integers(1, 6, 2)}) if batching and bs is None else None
  det = dict(kind=kind, mode=mode, tokenized=tok, save=sd, restore=rd, eos={k: f.add_eos for k, f in feats.items()}, lengths=lens, batch_size=bs, sizes=sizes, separator=sep, partitioner=by_part, seed=seed, decoder_params=use_params, where=where, names=names)
  if use_params: m = type(m)(m.module, byte, byte, m.optimizer_def, decode_fn=decoding.temperature_sample)
  if kind == 'decoder_only': base = lambda output_features, task_feature_lengths, tokenized_inputs: E.create_decoder_preprocessor(output_features, task_feature_lengths, tokenized_inputs, feature)
  else: base = functools.partial(E.create_preprocessor, split_separator=sep)
  spec = [('temperature', tf.float32, ()), ('max_decode_steps', tf.int32, ())]
  pp = functools.partial(E.create_preprocessor_with_decoder_params, create_preprocessor_fn=base, decoder_params_spec=spec) if use_params else base
  out = os.path.join(c.dir(), 'model', str(int(rng.integers(1, 99)))); decode = None if rng.random() < .6 else bool(rng.random() < .5); warm = texts(int(rng.integers(1, 4))) if not tok else token_rows(2, lens['inputs']).tolist()
  cls = functools.partial(E.ExportableModule, use_batch_function=batching, allowed_batch_sizes=sizes, batch_timeout_micros=20000, jit_compile=bool(rng.random() < .8), num_batch_threads=2)
  dirs = out if rng.random() < .5 else {'cpu': os.path.join(os.path.dirname(out) + '_cpu', os.path.basename(out))}
  ok, _ = c.attempt('export', lambda: E.save(model=m, inference_mode=mode, restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=d if where == 'latest' else d + '/checkpoint_7', mode=where, dtype=rd), exportable_module_cls=cls, create_preprocessor_fn=pp, create_postprocessor_fn=functools.partial(E.create_postprocessor, output_feature_names=names), partitioner=part if by_part else None,
    output_features=feats, task_feature_lengths=lens, batch_size=bs, output_dir=dirs, model_name='given/name', native_lowering_platforms=['cpu'], warmup_examples=list(warm), tokenized_inputs=tok, decode_outputs=decode, write_warmup_example_fn=functools.partial(E.write_warmup_examples, decoder_params_spec=spec if use_params else None), create_polymorphic_shapes_fn=E.create_batch_polymorphic_shapes))
  if not ok: return
  where_ = os.path.join(os.path.dirname(out) + '_cpu', os.path.basename(out)); c.event('exports'); c.beat()
  lm = tf.saved_model.load(where_); f = lm.signatures['serving_default']; kt = rd or sd
  # Parameters: each once, in the type asked for.
  eff = jax.tree.map(lambda x: np.asarray(jnp.asarray(jnp.asarray(x).astype(sd)).astype(kt)), params); import flax
  flat = {'__'.join(k): v for k, v in flax.traverse_util.flatten_dict(eff).items()}; have = {v.name.split(':')[0]: v.numpy() for v in lm._variables}
  if c.check(set(flat) == set(have), 'parameters:names', missing=sorted(set(flat) - set(have))[:4], extra=sorted(set(have) - set(flat))[:4], **det):
    for k, w in flat.items(): c.event('parameters'); c.check(have[k].dtype == w.dtype and have[k].shape == w.shape and np.array_equal(have[k].astype(np.float32), w.astype(np.float32)), 'parameters:value', leaf=k, got=(str(have[k].dtype), have[k].shape), want=(str(w.dtype), w.shape), **det)
  decode_out = (not tok) if decode is None else decode; name = 'text_batch'; rk = list(f.structured_input_signature[1])
  jit = jax.jit(lambda b, dp: m.predict_batch_with_aux(eff, b, **({'decoder_params': dp} if dp else {}))) if mode == 'predict' else jax.jit(lambda b, dp: m.score_batch(eff, b))
  def direct(xs, dp):
    # One row at a time: rows must not depend on each other.
    b = want_decoder(xs, feats, lens, feature, tok) if kind == 'decoder_only' else want_encdec(xs, feats, lens, sep, None, tok)
    r = [jit({k: v[j:j + 1] for k, v in b.items()}, {k: v[j:j + 1] for k, v in dp.items()}) for j in range(len(xs))]
    if mode == 'score': return None, np.concatenate([np.asarray(x) for x in r])
    return np.concatenate([np.asarray(x[0]) for x in r]), np.concatenate([np.asarray(x[1]['scores']) for x in r])
  def judge(got, xs, dp, label):
    toks, sc = direct(xs, dp); keys = names or (['output_0', 'output_1'] if mode == 'predict' else ['output_0'])
    if not c.check(set(got) == set(keys), label + ':names', got=sorted(got), want=keys, **det): return
    g = np.asarray(got[keys[-1]]); low = kt == 'bfloat16'
    c.check(g.shape == sc.shape and np.allclose(g, sc, rtol=2e-2 if low else 1e-4, atol=5e-2 if low else 1e-3), label + ':scores', given=xs, got=g, want=sc, **det); c.event('scores', len(xs))
    if mode == 'predict':
      # Where two tokens are all but equally likely rounding may decide.
      g = got[keys[0]].numpy(); c.event('predictions', len(xs))
      if decode_out: w = cut(toks); g = [x.decode('utf-8', 'ignore') for x in g]; bad = [j for j in range(len(xs)) if g[j] != w[j]] if len(g) == len(w) else 'count'
      else: w = toks; bad = [j for j in range(len(xs)) if not np.array_equal(g[j], w[j])] if g.shape == w.shape else 'shape'
      c.check(not bad or (bad not in ('count', 'shape') and low), label + ':predictions', given=xs, got=g, want=w, rows=bad, **det)
  def given(n): return token_rows(n, lens['inputs'], full=False) if tok else texts(n)
  def params_for(n): return dict(temperature=np.zeros(n, np.float32), max_decode_steps=rng.integers(1, lens['targets'] + 1, n).astype(np.int32)) if use_params else {}
  def call(xs, dp): return f(**{name: tf.constant(xs)}, **{k: tf.constant(v) for k, v in dp.items()})
  for n in ([bs] * 3 if bs else [1, 2, 5] if not sizes else [1, max(sizes)]):
    xs, dp = given(n), params_for(n); ok, got = c.attempt('call', call, xs, dp); c.event('calls')
    if ok: judge(got, xs, dp, 'call'); c.event('decoder-params', n if use_params else 0)
  if batching:
    # Concurrent callers share batches and each gets its own answers.
    top = bs or max(sizes); jobs = []
    for _ in range(6): n = bs or int(rng.integers(1, top + 1)); jobs.append((given(n), params_for(n)))
    res = [None] * len(jobs); go = threading.Barrier(len(jobs))
    def one(j):
      go.wait()
      try: res[j] = (True, call(*jobs[j]))
      except Exception as e: res[j] = (False, e)
    ts = [threading.Thread(target=one, args=(j,)) for j in range(len(jobs))]; [t.start() for t in ts]; [t.join() for t in ts]
    for (xs, dp), (ok, got) in zip(jobs, res):
      c.event('concurrent-calls')
      if c.check(ok, 'concurrent:raised', error=repr(got)[:600] if not ok else '', **det): judge(got, xs, dp, 'concurrent')
    if len(jobs) > 1 and top > 1: c.event('merged-batches')
  # Requests to warm up a server.
  path = os.path.join(where_, 'assets.extra', 'tf_serving_warmup_requests')
  if c.check(os.path.exists(path), 'warmup:missing', **det):
    logs = [prediction_log_pb2.PredictionLog.FromString(r.numpy()).predict_log.request for r in tf.data.TFRecordDataset(path)]; want_sizes = sizes or [bs]; w = list(warm)
    if bs: w = (w[:bs] + [[0] * lens['inputs'] if tok else ''] * bs)[:bs]
    if c.check(len(logs) == len(want_sizes), 'warmup:count', got=len(logs), want=want_sizes, **det):
      for r, n in zip(logs, want_sizes):
        g = tf.make_ndarray(r.inputs['text_batch']); x = [w[j % len(w)] for j in range(n or len(w))]; x = np.array(x, np.int32) if tok else np.array([s.encode() for s in x], object); c.event('warmups')
        c.check((r.model_spec.name, r.model_spec.signature_name) == ('given/name', 'serving_default') and g.shape == x.shape and np.array_equal(g, x), 'warmup:request', got=g, want=x, spec=str(r.model_spec), **det)
        if use_params: c.check({k: tuple(d.size for d in v.tensor_shape.dim) for k, v in r.inputs.items() if k != 'text_batch'} == {'temperature': (len(x),), 'max_decode_steps': (len(x),)}, 'warmup:decoder-params', **det)
        # What is recorded is what the model accepts.
        ok, got = c.attempt('warmup:call', lambda: f(**{k: tf.constant(tf.make_ndarray(v)) for k, v in r.inputs.items()}))
  c.case(('export', str(det)), True, det if i == 0 else None)

def helpers(i):
  """Postprocessing, warm-up texts, names and signatures."""
  # Token counts.
  n, l = int(rng.integers(1, 5)), int(rng.integers(1, 9)); t = rng.choice([0, 1, 1, 5, 70, 100], (n, l)).astype(np.int32); s = rng.standard_normal(n).astype(np.float32)
  out = E.create_postprocessor(byte, 'predict', add_token_length_to_output=True)((tf.constant(t), tf.constant(s))); first = [list(r).index(1) if 1 in r else l for r in t]
  c.check(np.array_equal(out[1], s) and out[2].numpy().tolist() == [l] * n and out[3].numpy().tolist() == first and [x.decode('utf-8', 'ignore') for x in out[0].numpy()] == cut(t), 'postprocess', given=t, got=[np.asarray(x) for x in out], want=(cut(t), first))
  for fn, names in ((lambda: E._maybe_name_outputs((1, 2), ['a', 'b']), {'a': 1, 'b': 2}), (lambda: E._maybe_name_outputs((1, 2), None), (1, 2))): c.check(fn() == names, 'names', got=fn(), want=names)
  try: E._maybe_name_outputs((1, 2), ['a']); c.violation('names:mismatch-accepted')
  except ValueError: pass
  lengths = [int(x) for x in rng.integers(1, 12, 3)]; room = bool(rng.random() < .5); up = int(rng.choice([1, 2, 10])); ok, ex = c.attempt('warm-texts', lambda: E.generate_examples_with_sequence_lengths(list(lengths), vocabulary=byte, leave_room_for_eos=room, chars_per_token_upper_bound=up))
  if ok: c.check([len(byte.encode(x[0])) + room for x in ex] == lengths and all(len(x) == 1 for x in ex), 'warm-texts', got=ex, want=lengths, room=room)
  ok, ex = c.attempt('warm-tokens', lambda: E.generate_examples_with_sequence_lengths(list(lengths), single_token_example='Q'))
  if ok: c.check([x[0] for x in ex] == ['Q' * k for k in lengths], 'warm-tokens', got=ex, want=lengths)
  ver = str(int(rng.integers(0, 99))); got = E._standardize_output_dirs('/x/y/' + ver); c.check(got == {'tpu': '/x/y/' + ver, 'cpu': '/x/y_cpu/' + ver}, 'directories', got=got)
  try: E._standardize_output_dirs('/x/y/z'); c.violation('directories:no-version-accepted')
  except ValueError: pass
  c.case(('helpers', str(t.tolist()), str(lengths)), True)

for i in range(c.n(12, 40)): c.section('features', features, i)
for i in range(c.n(2, 6)): c.section('from-task', from_task, i)
for i in range(c.n(3, 10)): c.section('helpers', helpers, i)
c.beat()
for i in range(c.n(4, 8)): c.section('export', export, i); c.beat()
c.finish()
