import vlib, t5xshim, re
import numpy as np
import jax, jax.numpy as jnp, flax
from flax import traverse_util
from flax.core import freeze, unfreeze
from flax.linen import partitioning as fp
from t5x import adafactor, optimizers, train_state as ts_lib
P = jax.sharding.PartitionSpec
c = vlib.Check('S01', rule='random variable trees (parameters, axis metadata, mutable collections) x optimizers x '
  'operation histories; distinct by tree and history; non-trivial = the state holds more than parameters')
rng = c.rng

def flat(t, none=False):
  t = unfreeze(t) if not isinstance(t, dict) else t
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(unfreeze(t), keep_empty_nodes=True).items()}

def names_tree(depth=0):
  out = {}
  for i in range(int(rng.integers(1, 4))):
    k = str(rng.choice(['layer_1', 'layer_10', 'kernel', 'bias', 'scale', 'encoder', 'state', 'target', 'step']))
    if depth < 2 and rng.random() < .5:
      out[k] = names_tree(depth + 1)
    else:
      out[k] = tuple(int(x) for x in rng.integers(1, 4, rng.integers(0, 3)))
  return out

def fill(t, dtype=np.float32):
  return {k: fill(v, dtype) if isinstance(v, dict) else jnp.asarray((rng.standard_normal(v) * 3).astype(dtype)) for k, v in t.items()}

def axes_of(t):
  """Axis metadata with the '_axes' leaf suffix that the model emits."""
  out = {}
  for k, v in t.items():
    if isinstance(v, dict):
      out[k] = axes_of(v)
    else:
      out[k + '_axes'] = fp.AxisMetadata(tuple(str(rng.choice(['embed', 'mlp', 'heads', 'joined_kv'])) for _ in v))
  return out

def specs(t):
  return {k[:-5] if isinstance(v, fp.AxisMetadata) else k: P(*v.names) if isinstance(v, fp.AxisMetadata) else specs(v) for k, v in t.items()}

def snap(state):
  """Bytes of everything a state holds."""
  return {jax.tree_util.keystr(p): (np.asarray(v).dtype.str, np.shape(v), np.asarray(v).tobytes()) if v is not None and not isinstance(v, (P, tuple)) else repr(v)
          for p, v in jax.tree_util.tree_flatten_with_path(state, is_leaf=lambda x: x is None)[0]}

def shape_of(s):
  return re.sub(r'0x[0-9a-f]+|<[^<>]*>', '', str(jax.tree.structure(s)))

def defs(kind, params):
  if kind == 'adafactor':
    return adafactor.Adafactor(learning_rate=.1, beta1=.9)
  if kind == 'adafactor-logical':
    return adafactor.Adafactor(learning_rate=.1, min_dim_size_to_factor=2, logical_factor_rules=adafactor.standard_logical_factor_rules())
  if kind == 'adam':
    return optimizers.adam(.1)
  if kind == 'chain':
    import optax
    return optimizers.chain([optax.clip(1.0), optax.scale_by_adam(), optax.scale(-.1)])
  allp = ['/' + k for k in flat(params)]
  a = frozenset(allp[::2])
  return optimizers.MultiOptimizer([(traverse_util.ModelParamTraversal(lambda p, _: p in a), adafactor.Adafactor(learning_rate=.1))])

KINDS = ['adafactor', 'adafactor-logical', 'adam', 'chain', 'multi', 'inference']

def variables(kind):
  while True:
    shapes = names_tree()
    # No factor rule is needed as parameters here have at most two dimensions.
    if flat(shapes): break
  v = {'params': fill(shapes)}
  ax = axes_of(shapes)
  has_axes = kind in ('adafactor-logical', 'multi', 'adafactor') or rng.random() < .6
  if has_axes: v['params_axes'] = ax
  muts, mut_axes = {}, {}
  if rng.random() < .7:
    for m in ('batch_stats', 'intermediates', 'counter')[:int(rng.integers(1, 4))]:
      s = names_tree(1); muts[m] = fill(s)
      if rng.random() < .5:
        mut_axes[m] = axes_of(s); v[m + '_axes'] = mut_axes[m]
      v[m] = muts[m]
  return freeze(v), v['params'], ax if has_axes else None, muts, mut_axes

def create(kind, v, params):
  return ts_lib.InferenceState.create(v) if kind == 'inference' else ts_lib.FlaxOptimTrainState.create(defs(kind, params), v)

def is_state(s, params, muts, step, det, where):
  got = flat(s.params)
  c.check(set(got) == set(flat(params)), where + ':parameter-names', got=sorted(got), **det)
  for k, x in flat(params).items():
    if k in got: c.equal(got[k], x, where + ':parameter-value', param=k, **det)
  gm = flat(s.flax_mutables) if s.flax_mutables else {}
  wm = flat(muts) if muts else {}
  c.check(set(gm) == set(wm), where + ':mutable-names', got=sorted(gm), want=sorted(wm), **det)
  for k, x in wm.items():
    if k in gm: c.equal(gm[k], x, where + ':mutable-value', variable=k, **det)
  c.check(int(s.step) == step, where + ':step', got=int(s.step), want=step, **det)

def others(before, after, allowed, mech, det):
  a, b = snap(before), snap(after)
  diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k) and not any(w in k for w in allowed))
  c.check(not diff, mech, differing=diff[:12], **det)

def histories():
  for i in range(c.n(60, 400)):
    if c.out_of_time(.9): break
    kind = KINDS[i % len(KINDS)]
    v, params, ax, muts, mut_axes = variables(kind)
    det = dict(kind=kind, params=sorted(flat(params)), mutables=sorted(muts), mutable_axes=sorted(mut_axes))
    ok, s = c.attempt('create', create, kind, v, params)
    if not ok: continue
    is_state(s, params, muts, 0, det, 'create')
    step = 0
    cur_p, cur_m = params, muts
    if kind != 'inference':
      model_opt = defs(kind, params)
      if ax is not None and hasattr(model_opt, 'set_param_axes'):
        model_opt.set_param_axes(freeze(specs(ax)))
      ref = model_opt.create(freeze(params))
    for t in range(int(rng.integers(3, 7))):
      op = str(rng.choice(['apply', 'step', 'params', 'mutables', 'roundtrip', 'jit'] if kind != 'inference' else ['step', 'params', 'mutables', 'roundtrip', 'jit']))
      before = snap(s); old = s
      if op == 'apply':
        g = jax.tree.map(lambda x: jnp.asarray(rng.standard_normal(x.shape).astype(np.float32)), params)
        new_m = fill(names_tree(1)) if rng.random() < .7 else None
        lr = float(rng.choice([.1, .01]))
        kw = {} if new_m is None else dict(flax_mutables=freeze(new_m))
        ok, s = c.attempt('apply', s.apply_gradient, freeze(g), lr, **kw)
        if not ok: break
        step += 1
        ref = ref.replace(target=freeze(cur_p)) if not isinstance(ref.target, type(freeze({}))) else ref.replace(target=freeze(cur_p))
        ref = ref.apply_gradient(freeze(g), learning_rate=lr)
        cur_p = unfreeze(ref.target); cur_m = new_m or {}
        gp = flat(s.params)
        for k, x in flat(cur_p).items():
          c.close(gp[k], x, 'apply:parameter-value', rtol=1e-5, atol=1e-6, param=k, **det)
        cur_p = unfreeze(s.params)
        c.event('applied')
      elif op == 'step':
        step = int(rng.integers(0, 10**6))
        ok, s = c.attempt('replace_step', s.replace_step, jnp.asarray(step, jnp.int32))
        if not ok: break
        others(old, s, ['step'], 'replace-step:changes-more', det)
        if kind != 'inference': ref = ref.replace(state=ref.state.replace(step=jnp.asarray(step, jnp.int32)) if hasattr(ref.state, 'replace') else ref.state)
      elif op == 'params':
        cur_p = jax.tree.map(lambda x: x + 1.5, cur_p)
        s = s.replace_params(freeze(cur_p))
        others(old, s, ['target', 'params'], 'replace-params:changes-more', det)
      elif op == 'mutables':
        cur_m = fill(names_tree(1))
        s = s.replace_flax_mutables(freeze(cur_m))
        others(old, s, ['flax_mutables'], 'replace-mutables:changes-more', det)
      elif op == 'jit':
        s = jax.tree.map(lambda x: x, s)
        leaves, td = jax.tree.flatten(s)
        s = jax.tree.unflatten(td, [jnp.asarray(np.array(x)) for x in leaves])
      else:
        sd = s.state_dict()
        want_keys = {'target', 'state'} | ({'flax_mutables'} if cur_m else set())
        c.check(set(sd) == want_keys, 'state-dict:sections', got=sorted(sd), want=sorted(want_keys), **det)
        copy_ = jax.tree.map(lambda x: np.array(x), sd)
        # Changing the returned dict must not reach into the state.
        k0 = sorted(sd['target'])[0]
        sd['target'][k0] = 'overwritten'; sd['state']['step'] = -7
        c.check(snap(s) == before, 'state-dict:aliases-state', **det)
        other = create(kind, freeze({**unfreeze(v), 'params': jax.tree.map(lambda x: x * 0 - 9, params)}), params)
        ok, r = c.attempt('restore', other.restore_state, copy_)
        if not ok: break
        rs = snap(r)
        diff = sorted(k for k in set(rs) | set(before) if rs.get(k) != before.get(k))
        c.check(not diff, 'round-trip:differs', differing=diff[:12], **det)
        c.check(shape_of(r) == shape_of(s), 'round-trip:structure', a=shape_of(r)[:600], b=shape_of(s)[:600], **det)
        if not cur_m:
          c.check(not r.flax_mutables, 'round-trip:mutables-appear', **det)
        s = r; c.event('round-trips')
      c.check(snap(old) == before, 'original-state-modified', op=op, **det)
      is_state(s, cur_p, cur_m, step, det, 'after-' + op)
      c.event('operations')
      c.case((i, t, op), True, dict(kind=kind, op=op, step=step))
    if kind == 'inference':
      for name in ('param_states', 'apply_gradient'):
        try:
          x = getattr(s, name); x = x({}, .1) if callable(x) else x
          c.violation('inference-state:has-optimizer', attribute=name)
        except NotImplementedError:
          c.event('inference-refusals')

def logical():
  for i in range(c.n(50, 300)):
    kind = ('adafactor', 'adafactor-logical', 'multi', 'adam', 'inference')[i % 5]
    v, params, ax, muts, mut_axes = variables(kind)
    if ax is None: continue
    det = dict(kind=kind, params=sorted(flat(params)), mutable_axes=sorted(mut_axes), mutables=sorted(muts))
    s = create(kind, v, params)
    ok, la = c.attempt('logical-axes', s.as_logical_axes)
    if not ok: continue
    want = flat(specs(ax))
    c.check({k: tuple(x) for k, x in flat(la.params).items()} == {k: tuple(x) for k, x in want.items()}, 'logical:parameters', got=repr(flat(la.params)), want=repr(want), **det)
    wm = flat({m: specs(a) for m, a in mut_axes.items()}) if mut_axes else {}
    gm = flat(la.flax_mutables) if la.flax_mutables else {}
    c.check({k: tuple(x) for k, x in gm.items()} == {k: tuple(x) for k, x in wm.items()}, 'logical:mutables', got=repr(gm), want=repr(wm), **det)
    c.check(la.step is None, 'logical:step', got=repr(la.step))
    if set(muts) == set(mut_axes):
      a = set(flat(s.state_dict())); b = set(flat(la.state_dict()))
      # Unselected parameters have no state, so their entries are None on both sides.
      c.check(a == b, 'logical:structure', only_state=sorted(a - b)[:10], only_axes=sorted(b - a)[:10], **det)
      c.event('mirrored')
    c.event('logical-states'); c.case(('logical', i, tuple(sorted(want))))

def rejects():
  for i in range(c.n(20, 100)):
    kind = ('adafactor', 'inference', 'adam')[i % 3]
    shapes = names_tree(); p = fill(shapes); ax = axes_of(shapes)
    keys = sorted(flat(ax)); victim = str(rng.choice(keys))
    bad = traverse_util.unflatten_dict({tuple(k.split('/')): x for k, x in flat(ax).items() if k != victim})
    for where in ('params', 'mutable'):
      v = {'params': p, 'params_axes': bad} if where == 'params' else {'params': p, 'params_axes': ax, 'stats': p, 'stats_axes': bad}
      try:
        create(kind, freeze(v), p); c.violation('missing-axes-accepted', kind=kind, where=where, missing=victim)
      except ValueError:
        c.event('missing-axes-rejected')
    if kind == 'adafactor':
      try:
        create(kind, freeze({'params': p}), p); c.violation('no-axes-accepted')
      except ValueError:
        c.event('no-axes-rejected')
    c.case(('reject', i, victim))

for name, fn in (('histories', histories), ('logical', logical), ('rejects', rejects)):
  c.section(name, fn)
for e, n in (('operations', 100), ('applied', 15), ('round-trips', 15), ('logical-states', 20), ('mirrored', 8), ('missing-axes-rejected', 20), ('no-axes-rejected', 5), ('inference-refusals', 10)):
  c.need(e, n)
c.finish()
