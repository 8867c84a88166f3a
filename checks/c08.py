import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, t5xshim
import asyncio, threading
import numpy as np
import jax, jax.numpy as jnp, ml_dtypes
import tensorflow as tf
from flax import traverse_util
from flax.core import freeze, unfreeze
import ckptlib as K, netlib
from t5x import adafactor, checkpoint_importer as ci, checkpoints, train_state as ts_lib, utils
c = vlib.Check('C08', rule='one case = one random legacy model (towers, depth, feed-forward, embedding and position-bias variants, optimizer slots, types) written as a TensorFlow checkpoint with unique values and imported; distinct by model')
rng = c.rng
BF = ml_dtypes.bfloat16

# --- the legacy naming, written down independently ---------------------------
def legacy(arch):
  """[(legacy variable, path of the parameter in the new model, role)]."""
  out = []
  E = {'q': 'query', 'k': 'key', 'v': 'value', 'o': 'out'}
  norm = arch['norm']; fin = {'layer_norm': 'final_layer_norm', 'rms_norm': 'rms_norm'}[norm]
  if arch['towers'] == 'both' and arch['shared_emb']: out.append(('shared/embedding', 'token_embedder/embedding', 'emb'))
  for tower, n in (('encoder', arch['enc']), ('decoder', arch['dec'])):
    old = 'transformer' if arch['towers'] == 'lm' else tower
    if arch['towers'] == 'lm' and tower == 'encoder': continue
    if arch['towers'] == 'enc' and tower == 'decoder': continue
    if not (arch['towers'] == 'both' and arch['shared_emb']): out.append((old + '/embedding', tower + '/token_embedder/embedding', 'emb'))
    for b in range(n):
      o, t = '%s/block_%03d' % (old, b), '%s/layers_%d' % (tower, b); sub = 0
      self_name = 'attention' if tower == 'encoder' else 'self_attention'
      for k in 'qkvo': out.append(('%s/layer_000/SelfAttention/%s' % (o, k), '%s/%s/%s/kernel' % (t, self_name, E[k]), 'attn_' + k))
      if arch['relpos'] == 'shared' and b == 0: out.append((o + '/layer_000/SelfAttention/relative_attention_bias', tower + '/relpos_bias/rel_embedding', 'rel'))
      if arch['relpos'] == 'each': out.append((o + '/layer_000/SelfAttention/relative_attention_bias', t + '/relpos_bias/rel_embedding', 'rel'))
      out.append(('%s/layer_000/%s/scale' % (o, norm), '%s/%s/scale' % (t, 'pre_attention_layer_norm' if tower == 'encoder' else 'pre_self_attention_layer_norm'), 'norm'))
      sub = 1
      if tower == 'decoder' and arch['towers'] == 'both':
        for k in 'qkvo': out.append(('%s/layer_001/EncDecAttention/%s' % (o, k), '%s/encoder_decoder_attention/%s/kernel' % (t, E[k]), 'attn_' + k))
        out.append(('%s/layer_001/%s/scale' % (o, norm), t + '/pre_cross_attention_layer_norm/scale', 'norm')); sub = 2
      for w in (['wi', 'wo'] if arch['gates'] == 1 else ['wi_%d' % j for j in range(arch['gates'])] + ['wo']):
        out.append(('%s/layer_%03d/DenseReluDense/%s/kernel' % (o, sub, w), '%s/mlp/%s/kernel' % (t, w), 'wo' if w == 'wo' else 'wi'))
      out.append(('%s/layer_%03d/%s/scale' % (o, sub, norm), t + '/pre_mlp_layer_norm/scale', 'norm'))
    out.append(('%s/%s/scale' % (old, fin), '%s/%s_norm/scale' % (tower, tower), 'norm'))
    if tower == 'decoder' and arch['logits']: out.append((old + '/logits/kernel', 'decoder/logits_dense/kernel', 'logits'))
  return out

def random_arch():
  a = dict(towers=str(rng.choice(['both', 'both', 'lm', 'enc'])), gates=int(rng.integers(1, 4)), norm=str(rng.choice(['layer_norm', 'rms_norm'])), relpos=str(rng.choice(['shared', 'each', 'none'])),
           shared_emb=bool(rng.random() < .6), logits=bool(rng.random() < .5), enc=int(rng.choice([1, 2, 3, 11, 12])), dec=int(rng.choice([1, 2, 3, 10, 13])))
  # With one block in every tower the two position-bias conventions are written alike.
  if a['relpos'] == 'each':
    n = {'both': max(a['enc'], a['dec']), 'lm': a['dec'], 'enc': a['enc']}[a['towers']]
    if n == 1: a['relpos'] = 'shared'
  return a

def shape_of(role, d):
  return {'emb': (d['v'], d['m']), 'attn_q': (d['m'], d['h']), 'attn_k': (d['m'], d['h']), 'attn_v': (d['m'], d['h']), 'attn_o': (d['h'], d['m']), 'rel': (d['n'], d['b']), 'norm': (d['m'],), 'wi': (d['m'], d['f']),
          'wo': (d['f'], d['m']), 'logits': (d['m'], d['v'])}[role]

def unique(shape, dtype):
  """Values that tell every element of every variable apart (as far as the type allows)."""
  return np.asarray(rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 3), np.float32).astype(dtype)

def write(path, named, shards=1):
  names = list(named); rng.shuffle(names)
  parts = [names[j::shards] for j in range(shards)] if shards > 1 and len(names) >= shards else [names]
  pre = []
  for j, ns in enumerate(parts):
    p = path if len(parts) == 1 else path + '_part%d' % j
    tf.raw_ops.SaveV2(prefix=p, tensor_names=ns, shape_and_slices=[''] * len(ns), tensors=[tf.convert_to_tensor(named[n]) for n in ns]); pre.append(p)
  if len(parts) > 1: tf.raw_ops.MergeV2Checkpoints(checkpoint_prefixes=pre, destination_prefix=path, delete_old_dirs=False)
  with open(os.path.join(os.path.dirname(path), 'checkpoint'), 'w') as f: f.write('model_checkpoint_path: "%s"\nall_model_checkpoint_paths: "%s"\n' % ((os.path.basename(path),) * 2))

def build(arch):
  """(variables of the legacy checkpoint, expected flat state)."""
  d = dict(m=int(rng.choice([2, 3, 4])), h=int(rng.choice([2, 4, 5])), f=int(rng.choice([3, 6])), v=int(rng.choice([5, 7])), n=2, b=4)
  pt = [np.float32, BF][int(rng.integers(0, 2))]
  step = int(rng.choice([0, 1, 1000000, 2**31 - 1, int(rng.integers(0, 10**6))]))
  var, want = {'global_step': np.asarray(step, np.int64)}, {'state/step': np.asarray(step, np.int32)}
  factored = str(rng.choice(['none', 'matrices', 'big']))
  for old, new, role in legacy(arch):
    s = shape_of(role, d); var[old] = unique(s, pt); want['target/' + new] = var[old]
    st = 'state/param_states/' + new; one = np.zeros((1,), np.float32)
    want[st + '/m'] = one
    if len(s) == 2 and (factored == 'matrices' or factored == 'big' and role in ('emb', 'logits')):
      vr, vc = unique(s[:1], np.float32), unique(s[1:], np.float32)
      var[old + '_slot_vr'], var[old + '_slot_vc'] = vr, vc
      want[st + '/v_row'], want[st + '/v_col'], want[st + '/v'] = vr, vc, one; c.event('slots-factored')
    else:
      var[old + '_slot_v'] = unique(s, np.float32); want[st + '/v'] = var[old + '_slot_v']; want[st + '/v_row'] = want[st + '/v_col'] = one; c.event('slots-full')
  return var, want, dict(arch=arch, dims=d, dtype=np.dtype(pt).name, factored=factored, step=step)

def bits(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()

def flat(sd): return {'/'.join(k): v for k, v in traverse_util.flatten_dict(unfreeze(freeze(sd))).items()}

def outcome(fn, *a, **k):
  try: return 'ok', fn(*a, **k)
  except Exception as e: return 'raise', e

def compare(got, want, mech, **det):
  g = flat(got)
  missing, extra = sorted(set(want) - set(g)), sorted(set(g) - set(want))
  if not c.check(not missing and not extra, mech + ':names', missing=missing[:8], extra=extra[:8], **det): return False
  bad = [k for k in want if not bits(K.host(g[k]), want[k])]
  c.event('variables', len(want))
  return c.check(not bad, mech + ':values', wrong=[(k, np.shape(K.host(g[k])), str(K.host(g[k]).dtype), want[k].shape, str(want[k].dtype)) for k in bad[:5]],
                 found=[(k, [q for q in want if bits(K.host(g[k]), want[q])][:3]) for k in bad[:5]], **det)

def template(want):
  return traverse_util.unflatten_dict({tuple(k.split('/')): jax.ShapeDtypeStruct(v.shape, v.dtype) for k, v in want.items()})

def names(i):
  arch = random_arch(); var, want, det = build(arch)
  d = c.dir('tf'); path = os.path.join(d, 'model.ckpt-%d' % det['step']); shards = int(rng.choice([1, 1, 2, 3])); write(path, var, shards); det['shards'] = shards
  before = K.snapshot(d)
  src = path if rng.random() < .7 else d
  tmpl = template(want)
  for k in ('towers', 'relpos', 'gates'): c.event('%s-%s' % (k, arch[k]))
  ok, got = c.attempt('import', ci.restore_from_t5_checkpoint, tmpl, src, strict=True)
  if ok: compare(got, want, 'import', **det); c.check(not any(isinstance(x, ci.LazyArray) for x in jax.tree.leaves(got, is_leaf=lambda x: isinstance(x, ci.LazyArray))), 'import:left-lazy', **det)
  ok, lazy = c.attempt('import-lazy', ci.restore_from_t5_checkpoint, tmpl, src, lazy_parameters=True)
  if ok:
    f = flat(lazy)
    c.check(all(isinstance(f[k], ci.LazyArray) for k in f if k.startswith('target')), 'import-lazy:not-lazy', **det)
    c.check(all(tuple(f[k].shape) == want[k].shape and np.dtype(f[k].dtype) == want[k].dtype for k in want if k in f), 'import-lazy:declared', **det)
    compare(lazy, want, 'import-lazy', **det); c.event('lazy')
  # One thing wrong.
  params = [k for k in want if k.startswith('target')]
  k = str(rng.choice(params)); t2 = flat(tmpl); sh = t2[k].shape
  t2[k] = jax.ShapeDtypeStruct(sh[::-1] if len(sh) == 2 and sh[0] != sh[1] and rng.random() < .5 else sh[:-1] + (sh[-1] + 1,), t2[k].dtype)
  r = outcome(ci.restore_from_t5_checkpoint, traverse_util.unflatten_dict({tuple(q.split('/')): v for q, v in t2.items()}), src, strict=bool(rng.random() < .5))
  c.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'wrong-shape:accepted', variable=k, got=repr(r[1])[:200], **det); c.event('rejected')
  drop = [str(x) for x in rng.choice(params, min(len(params) - 1, int(rng.integers(1, 4))), replace=False)]
  gone = set(drop) | {q for q in want for p in drop if q.startswith('state/param_states' + p[len('target'):] + '/')}
  t3 = traverse_util.unflatten_dict({tuple(q.split('/')): v for q, v in flat(tmpl).items() if q not in gone})
  r = outcome(ci.restore_from_t5_checkpoint, t3, src, strict=True)
  c.check(r[0] == 'raise', 'strict:extra-variable-accepted', extra=drop, **det); c.event('rejected')
  ok, got = c.attempt('not-strict', ci.restore_from_t5_checkpoint, t3, src, strict=False)
  if ok: compare(got, {q: v for q, v in want.items() if q not in gone}, 'not-strict', dropped=drop, **det); c.event('not-strict')
  # A variable without a counterpart is never dropped silently.
  alien = str(rng.choice(['encoder/block_000/layer_000/SelfAttention/z', 'encoder/block_000/layer_000/CrossAttention/q', 'decoder/bias', 'encoder/logits/kernel', 'transformer/block_000/layer_000/SelfAttention', 'global_step_2',
                         'encoder/block_000/layer_001/DenseReluDense/wx/kernel', 'decoder/block_000/layer_000/rms_norm/offset', 'beta1_power', 'sharedX/embedding', 'encoder/block_000/layer_000/SelfAttention/q/more']))
  r = outcome(ci.t5_importer.apply, {**{q: v for q, v in var.items()}, alien: np.zeros(3)})
  c.check(r[0] == 'raise' and isinstance(r[1], ValueError) and alien in str(r[1]), 'unmapped:accepted', variable=alien, got=repr(r[1])[:200]); c.event('rejected')
  c.check(K.snapshot(d) == before, 'import:modifies-checkpoint', **det)
  c.case(('names', str(det)), True, det if i < 2 else None); c.drop(d)

def rules(i):
  """User-made translators: first matching rule, whole-name match, optional drop, options."""
  t = ci.CheckpointTranslator(); log = []
  words = ['a', 'b', 'ab', 'abc', 'x']
  pats = [str(rng.choice(['a', 'b', 'ab', 'a(b*)', '(a|b)(c?)', 'x', r'(\w)b', '.*'])) for _ in range(int(rng.integers(1, 5)))]
  keep = [bool(rng.random() < .75) for _ in pats]
  def add(j):
    @t.add(pats[j])
    def f(opts, key, val, *groups):
      log.append((j, key, groups, dict(opts)))
      return ('n%d/%s' % (j, key) if keep[j] else None), (val, j)
    return f
  for j in range(len(pats)): add(j)
  import re
  want, un = {}, []
  for w in words:
    j = next((j for j, p in enumerate(pats) if re.fullmatch('(?:%s)' % p, w)), None)
    if j is None: un.append(w)
    elif keep[j]: want['n%d/%s' % (j, w)] = (w.upper(), j)
  r = outcome(t.apply, {w: w.upper() for w in words}, size=3)
  det = dict(patterns=pats, keep=keep)
  # A pattern with a top-level alternative is out of scope: only whole-name patterns are used.
  if un: c.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'translator:unmatched-accepted', unmatched=un, **det)
  else: c.check(r == ('ok', want), 'translator:result', got=repr(r)[:400], want=want, **det)
  for j, key, groups, opts in log:
    c.check(groups == re.fullmatch(pats[j], key).groups() and opts == {'size': 3}, 'translator:arguments', rule=pats[j], key=key, got=groups)
  c.event('translators'); c.case(('rules', str(det)), True)

def lazy(i):
  """Arrays read on demand."""
  a = K.fill(rng, tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(0, 3)))), [np.float32, np.int32, BF][i % 3]); reads = []
  async_kind = i % 2
  def get(): reads.append(threading.get_ident()); return a
  async def aget(): reads.append(0); return a
  L = ci.LazyAwaitableArray(a.shape, a.dtype, aget) if async_kind else ci.LazyThreadPoolArray(a.shape, a.dtype, get)
  types = [np.float32, BF, np.float16, np.int32] if a.dtype != np.int32 else [np.int64, np.int32, np.float32, np.int16]
  chain = [types[int(x)] for x in rng.integers(0, 4, int(rng.integers(0, 4)))]
  M = L; want = a
  for t in chain: M = M.astype(t)
  if chain: want = a.astype(chain[-1])
  c.check(not reads, 'lazy:read-early')
  c.check(tuple(M.shape) == a.shape and M.dtype == want.dtype and int(M.nbytes) == want.nbytes and tuple(L.shape) == a.shape and L.dtype == a.dtype, 'lazy:declared', got=(M.shape, str(M.dtype), int(M.nbytes)), want=(a.shape, str(want.dtype), want.nbytes))
  with np.errstate(all='ignore'):
    ok, g = c.attempt('lazy:get', M.get)
    if ok: c.check(bits(g, want), 'lazy:value', chain=[np.dtype(t).name for t in chain], asynchronous=async_kind, got=g, want=want)
    async def many(): return await asyncio.gather(*[x.get_async() for x in (M, L, M)])
    ok, gs = c.attempt('lazy:get-async', lambda: asyncio.run(many()))
    if ok: c.check(bits(gs[0], want) and bits(gs[2], want) and bits(gs[1], a), 'lazy:async-value', got=gs, want=(want, a))
  c.event('lazy-arrays'); c.case(('lazy', i % 6, str(chain), a.shape), True)

def state_of(kind, arch, rngkey=0):
  mod = netlib.module(kind, layers=arch['dec'], acts=[('relu',), ('gelu', 'linear')][arch['gates'] - 1], via_emb=not arch['logits'], vocab_size=8)
  o = jnp.ones((1, 4), jnp.int32); args = (o, o) if kind == 'decoder_only' else (o, o, o)
  od = adafactor.Adafactor(learning_rate=.1, min_dim_size_to_factor=arch['factor'], logical_factor_rules=adafactor.standard_logical_factor_rules() if arch['rules'] else None)
  def mk(): return ts_lib.FlaxOptimTrainState.create(od, freeze(mod.init(jax.random.PRNGKey(0), *args, enable_dropout=False)))
  return jax.eval_shape(mk)

from flax.linen import partitioning as fp
RULES = (('vocab', 'model'), ('embed', None), ('mlp', 'model'), ('heads', 'model'), ('kv', None), ('joined_kv', 'model'), ('relpos_buckets', None), ('stack', None), ('layers', None), ('batch', 'data'), ('length', None))

def model(i):
  """The shipped transformers: every variable of the model comes from its legacy counterpart, through every entry point."""
  kind = ['t5', 'decoder_only'][i % 2]
  arch = dict(towers='both' if kind == 't5' else 'lm', gates=1 + i // 2 % 2, norm=str(rng.choice(['layer_norm', 'rms_norm'])), relpos='shared', shared_emb=True, logits=bool(i % 3), factor=[4, 1000, 8][i % 3], rules=bool(i % 2))
  arch['enc'] = arch['dec'] = int(rng.choice([1, 2] if c.tier == 'quick' else [1, 2, 11]))
  from t5x import partitioning
  p = partitioning.PjitPartitioner(num_partitions=None, model_parallel_submesh=(1, 2), logical_axis_rules=RULES)
  base = state_of(kind, arch)
  shapes = flat(base.state_dict())
  step = int(rng.integers(0, 10**6)); var, want = {'global_step': np.asarray(step, np.int64)}, {'state/step': np.asarray(step, np.int32)}
  pt = [np.float32, BF][i % 2]
  for old, new, role in legacy(arch):
    t = 'target/' + new
    if not c.check(t in shapes, 'model:no-such-parameter', name=t, have=sorted(shapes)[:6], kind=kind): return
    var[old] = unique(shapes[t].shape, pt); want[t] = var[old]
    st = 'state/param_states/' + new
    fac = shapes[st + '/v_row'].shape != (1,)
    for slot, part in (('vr', 'v_row'), ('vc', 'v_col')) if fac else (('v', 'v'),):
      a = unique(shapes[st + '/' + part].shape, np.float32); var[old + '_slot_' + slot] = a; want[st + '/' + part] = a
    for part in ('m', 'v', 'v_row', 'v_col'): want.setdefault(st + '/' + part, np.zeros((1,), np.float32))
    c.event('model-factored' if fac else 'model-full')
  if not c.check(set(want) == set(shapes), 'model:coverage', missing=sorted(set(shapes) - set(want))[:5], extra=sorted(set(want) - set(shapes))[:5], kind=kind): return
  det = dict(kind=kind, arch=arch, dtype=np.dtype(pt).name)
  d = c.dir('tm'); path = os.path.join(d, 'model.ckpt-%d' % step); write(path, var, int(rng.integers(1, 3)))
  dt = [None, 'float32', 'bfloat16'][int(rng.integers(0, 3))]
  w = {k: (v.astype(dt if dt == 'float32' else BF) if dt and k.startswith('target') else v) for k, v in want.items()}
  def how_ck(): return checkpoints.Checkpointer(base, p, c.dir(), restore_dtype=np.dtype(dt if dt == 'float32' else BF) if dt else None).restore_from_tf_checkpoint(path)
  def how_orbax():
    m = checkpoints.OrbaxCheckpointManagerInterface(c.dir(), base, p, restore_dtype=np.dtype(dt if dt == 'float32' else BF) if dt else None)
    try: return m.restore_from_tf_checkpoint(path)
    finally: m.close()
  class Init:
    global_train_state_shape = base
  ini = utils.TrainStateInitializer.__new__(utils.TrainStateInitializer); ini._partitioner = p; ini.global_train_state_shape = base; ini.train_state_axes = p.get_mesh_axes(base)
  def cfg(mode): return utils.RestoreCheckpointConfig(path=path if mode == 'specific' else d, mode=mode, dtype=dt)
  def how_cfg(mode): return ini.from_checkpoint([cfg(mode)])
  def how_mgr(orb): return utils.create_checkpoint_manager_and_restore(ini, p, cfg('specific'), path, None, None, c.dir(), None, orb)[0]
  for name, fn in (('checkpointer', how_ck), ('orbax', how_orbax), ('config', lambda: how_cfg('specific')), ('config-latest', lambda: how_cfg('latest')), ('manager', lambda: how_mgr(False)), ('orbax-manager', lambda: how_mgr(True))):
    ok, got = c.attempt('model:' + name, fn)
    if ok: compare(got.state_dict(), w, 'model:' + name, **det); c.event('model-' + name)
  # Conversion to the native format, then a native restore.
  dd = c.dir('conv'); sd = [None, np.float32, BF][i % 3]; ck = checkpoints.Checkpointer(base, p, dd, save_dtype=sd) if sd is not None else checkpoints.Checkpointer(base, p, dd)
  ok, _ = c.attempt('model:convert', ck.convert_from_tf_checkpoint, path)
  if ok:
    c.check([int(x) for x in checkpoints.all_steps(dd)] == [step], 'model:convert-step', got=list(checkpoints.all_steps(dd)), want=step, **det)
    ok, got = c.attempt('model:converted-restore', checkpoints.Checkpointer(base, p, dd).restore)
    if ok:
      ws = {k: (v.astype(sd) if k.startswith('target') and sd is not None else v) for k, v in want.items()}
      # Conversion stores parameters at the save type.
      g = flat(got.state_dict()); bad = [k for k in ws if not (np.shape(g[k]) == ws[k].shape and np.array_equal(np.asarray(g[k]).astype(np.float64), ws[k].astype(np.float64)))]
      c.check(not bad, 'model:converted-values', wrong=[(k, str(np.asarray(g[k]).dtype), str(ws[k].dtype)) for k in bad[:4]], save_dtype=str(sd), **det); c.event('model-converted')
  # A legacy checkpoint that lacks a variable of the model is not accepted.
  k = [q for q in var if q != 'global_step' and '_slot_' not in q][int(rng.integers(0, 5))]
  d2 = c.dir('t2'); p2 = os.path.join(d2, 'model.ckpt-1'); write(p2, {q: v for q, v in var.items() if not q.startswith(k)}, 1)
  for strict in (True, False):
    r = outcome(checkpoints.Checkpointer(base, p, c.dir()).restore_from_tf_checkpoint, p2, strict=strict)
    c.check(r[0] == 'raise', 'model:missing-variable-accepted', variable=k, strict=strict, **det); c.event('rejected')
  r = outcome(lambda: ini.from_checkpoint([utils.RestoreCheckpointConfig(path=path, mode='specific', state_transformation_fns=[lambda s, t: s])]))
  c.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'model:transformation-accepted', got=repr(r[1])[:200])
  c.case(('model', str(det)), True, det if i < 2 else None)

def shipped():
  """The repository's own Mesh-TensorFlow checkpoint."""
  path = os.path.join(vlib.REPO, 't5x/testdata/mtf_tiny_t5/model.ckpt-0')
  r = tf.train.load_checkpoint(path); have = r.get_variable_to_shape_map()
  arch = dict(towers='both', gates=2, norm='rms_norm', relpos='shared', shared_emb=True, logits=True, enc=2, dec=2)
  # Its data file is not part of the repository: names, shapes and types only.
  dt = r.get_variable_to_dtype_map(); spec = lambda n: (tuple(have[n]), np.dtype(dt[n].as_numpy_dtype)); one = ((1,), np.dtype(np.float32))
  want = {'state/step': ((), np.dtype(np.int32))}; used = {'global_step'}
  for old, new, _ in legacy(arch):
    if old not in have: c.violation('shipped:not-there', name=old); return
    want['target/' + new] = spec(old); used.add(old); st = 'state/param_states/' + new
    for slot, part in (('_slot_vr', 'v_row'), ('_slot_vc', 'v_col'), ('_slot_v', 'v')):
      if old + slot in have: want[st + '/' + part] = spec(old + slot); used.add(old + slot)
    for part in ('m', 'v', 'v_row', 'v_col'): want.setdefault(st + '/' + part, one)
  c.check(used == set(have), 'shipped:coverage', rest=sorted(set(have) - used))
  class Tr:
    def apply(self, data, **kw): data['global_step'] = np.zeros((), np.int32); return ci.t5_importer.apply(data, **kw)
  tmpl = traverse_util.unflatten_dict({tuple(k.split('/')): jax.ShapeDtypeStruct(*v) for k, v in want.items()})
  ok, got = c.attempt('shipped', lambda: flat(ci.restore_from_t5_checkpoint(tmpl, path, lazy_parameters=True, translator=Tr())))
  if ok: g = {k: (tuple(v.shape), np.dtype(v.dtype)) for k, v in got.items()}; c.check(g == want, 'shipped:names', diff=sorted(set(map(str, g.items())) ^ set(map(str, want.items())))[:6]); c.event('shipped')

c.section('shipped', shipped)
for i in range(c.n(300, 8000)): c.section('lazy', lazy, i)
for i in range(c.n(300, 8000)): c.section('rules', rules, i)
for i in range(c.n(60, 1500)):
  if c.out_of_time(.5): break
  c.section('names', names, i)
for i in range(c.n(5, 60)):
  if c.out_of_time(.9): break
  c.section('model', model, i)
for k, n in [('variables', 3000), ('lazy', 20), ('rejected', 60), ('not-strict', 20), ('towers-both', 10), ('towers-lm', 3), ('towers-enc', 3), ('relpos-each', 5), ('relpos-shared', 5), ('gates-1', 5), ('gates-2', 5), ('slots-factored', 50), ('slots-full', 50),
             ('translators', 100), ('lazy-arrays', 100), ('shipped', 1), ('model-checkpointer', 2), ('model-orbax', 2), ('model-converted', 2), ('model-factored', 10), ('model-full', 10)]: c.need(k, n)
c.finish()
