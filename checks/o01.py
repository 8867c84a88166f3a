import vlib, t5xshim
import numpy as np, functools
import jax, jax.numpy as jnp, flax
from flax.core import freeze, unfreeze
from t5x import adafactor
from adalib import Ref
FD, HPM = adafactor.FactorDim, adafactor.HParamMap
c = vlib.Check('O01', rule='random parameter trees x rules x hyper-parameters x gradient trajectories; distinct by '
  'configuration and gradients; non-trivial = some factored or batched parameter, or a non-default option')
rng = c.rng
CODE = {'B': FD.BATCH, 'R': FD.ROW, 'C': FD.COLUMN, 'N': FD.NONE}

def rand_rule(n):
  """A complete rule of rank n: all ROW/COLUMN (+BATCH) or all NONE (+BATCH)."""
  nb = int(rng.integers(0, 2)) if n < 3 else int(rng.integers(0, min(3, n - 1)))
  nb = min(nb, n)
  rest = n - nb
  if rest >= 2 and rng.random() < .75:
    core = ['R', 'C'] + [str(rng.choice(['R', 'C'])) for _ in range(rest - 2)]
  else:
    core = ['N'] * rest
  rule = ['B'] * nb + core
  return tuple(str(x) for x in rng.permutation(rule))

def tree(flat, frozen):
  t = flax.traverse_util.unflatten_dict({tuple(k.split('/')): v for k, v in flat.items()})
  return freeze(t) if frozen else t

def flat(t):
  return {'/'.join(k): v for k, v in flax.traverse_util.flatten_dict(unfreeze(t)).items()}

NAMES = ['enc/l0/wi/kernel', 'enc/l0/wo/kernel', 'enc/norm/scale', 'dec/l_10/q/kernel', 'dec/l_1/q/kernel', 'emb', 'dec/rel']

def config(i):
  mode = ('heuristic', 'rules', 'logical', 'rules', 'logical', 'off')[i % 6]
  names = [str(x) for x in rng.permutation(NAMES)[:rng.integers(2, 5)]]
  shapes, rules, axes = {}, None, None
  min_dim = int(rng.choice([1, 2, 4, 6, 128]))
  if mode == 'heuristic':
    for n in names:
      shapes[n] = tuple(int(x) for x in rng.integers(1, 9, rng.integers(0, 3)))
  elif mode == 'off':
    for n in names:
      shapes[n] = tuple(int(x) for x in rng.integers(1, 6, rng.integers(0, 5)))
  elif mode == 'rules':
    rules = {}
    for n in names:
      r = rand_rule(int(rng.integers(1, 6))); rules[n] = r
      shapes[n] = tuple(int(x) for x in rng.integers(1, 6, len(r)))
  else:
    pool = {'R': ['embed'], 'C': ['vocab', 'mlp', 'heads', 'kv', 'joined_kv', 'q_wi_fused', 'o_wo_fused',
            'multiquery_heads', 'kv_fused', 'mlp_activations'], 'N': ['relpos_buckets', 'layer_norm_scale'], 'B': ['layers', 'stack']}
    rules, axes = {}, {}
    for n in names:
      while True:
        raw = [str(rng.choice(['R', 'C', 'C', 'B', 'N'])) for _ in range(rng.integers(1, 5))]
        if not {'R', 'C', 'N'} <= set(raw): break
      ax = [str(rng.choice(pool[r])) for r in raw]
      axes[n] = tuple(ax)
      rules[n] = tuple(raw) if {'R', 'C'} <= set(raw) else tuple('B' if r == 'B' else 'N' for r in raw)
      shapes[n] = tuple(int(x) for x in rng.integers(1, 6, len(raw)))
  kw = dict(factored=mode != 'off', min_dim=min_dim, decay=float(rng.choice([.8, .5, 1.0])),
            clip=[1.0, None, .3, 2.0][int(rng.integers(0, 4))],
            beta1=[None, None, .9, .5, 0.0][int(rng.integers(0, 5))],
            wd=[None, None, .01, .2][int(rng.integers(0, 4))], wd_exp=[None, None, 2.0, 1.0][int(rng.integers(0, 4))],
            gclip=[None, None, 1.0, .05][int(rng.integers(0, 4))], max_scale=[None, None, .5][int(rng.integers(0, 3))],
            eps1=float(rng.choice([1e-30, 1e-8])), eps2=float(rng.choice([1e-3, .5])),
            skip_nan=bool(rng.random() < .3), offset=int(rng.choice([0, 0, 3])))
  sc = rng.random()
  scale = True if sc < .5 else False if sc < .7 else 'map'
  return mode, shapes, rules, axes, kw, scale

def build(mode, rules, axes, kw, scale, scale_map, frozen):
  a = dict(factored=kw['factored'], beta1=kw['beta1'], decay_rate=kw['decay'], step_offset=kw['offset'],
           clipping_threshold=kw['clip'], weight_decay_rate=kw['wd'], min_dim_size_to_factor=kw['min_dim'],
           epsilon1=kw['eps1'], epsilon2=kw['eps2'], weight_decay_rate_lr_exponent=kw['wd_exp'],
           global_norm_clip_threshold=kw['gclip'], max_parameter_scale=kw['max_scale'], skip_nan_updates=kw['skip_nan'])
  a['multiply_by_parameter_scale'] = scale if scale != 'map' else HPM([(k + '$', v) for k, v in scale_map.items()] + [('.*', 'unreachable')])
  if mode == 'rules':
    rl = []
    for k, r in rules.items():
      # A later, contradicting rule must lose to the first match.
      rl.append(('^' + k + '$', tuple(CODE[x] for x in r)))
    rl.append(('.*', tuple([FD.BATCH] * 7)))
    a['factor_map'] = HPM(rl)
  if mode == 'logical':
    a['logical_factor_rules'] = adafactor.standard_logical_factor_rules()
  d = adafactor.Adafactor(learning_rate=None, **a)
  if mode == 'logical':
    d.set_param_axes(tree({k: jax.sharding.PartitionSpec(*v) for k, v in axes.items()}, frozen))
  return d

def trajectories():
  for i in range(c.n(48, 260)):
    if c.out_of_time(.85): break
    mode, shapes, rules, axes, kw, scale = config(i)
    frozen = bool(rng.random() < .3)
    smap = {k: bool(rng.random() < .5) for k in shapes}
    det = dict(mode=mode, shapes=shapes, rules=rules, axes=axes, options=kw, scale=scale if scale != 'map' else smap)
    opt_def = build(mode, rules, axes, kw, scale, smap, frozen)
    p0 = {k: np.asarray(rng.standard_normal(s) * rng.choice([.05, 1.0, 1e-4]), np.float32) for k, s in shapes.items()}
    start = kw['offset'] if kw['offset'] else 0
    ref = Ref(p0, rules, scale=(lambda k: smap[k]) if scale == 'map' else scale, **kw)
    ok, opt = c.attempt('create', opt_def.create, tree({k: jnp.asarray(v) for k, v in p0.items()}, frozen))
    if not ok: continue
    if start:
      ref.step = start
      opt = opt.replace(state=opt.state.replace(step=jnp.asarray(start, jnp.int32)))
    fn = jax.jit(lambda o, g, lr: o.apply_gradient(g, learning_rate=lr))
    gs = float(rng.choice([1.0, 1e-3, 30.0]))
    nt = any(ref.lay[k][1] or ref.lay[k][0][0] for k in shapes)
    c.event('parameters', len(shapes)); c.event('factored-parameters', sum(bool(ref.lay[k][1]) for k in shapes))
    c.event('batched-parameters', sum(bool(ref.lay[k][0][0]) for k in shapes))
    c.event('mode-' + mode)
    for t in range(c.n(4, 6)):
      lr = float(rng.choice([.1, .01, .5]))
      g = {k: (rng.standard_normal(s) * gs).astype(np.float32) for k, s in shapes.items()}
      if rng.random() < .3:
        k = list(g)[0]
        g[k] = np.zeros_like(g[k])       # a parameter without gradient
      if kw['skip_nan'] and rng.random() < .5:
        k = list(g)[-1]
        gf = g[k].reshape(-1).copy(); gf[rng.integers(0, gf.size)] = np.nan
        g[k] = gf.reshape(g[k].shape); c.event('nan-gradients')
      if t == 1 and i % 4 == 1:  # outside jit, where dictionaries keep their own order
        gr = {k: g[k] for k in reversed(list(g))}; c.event('eager-steps')
        ok, opt = c.attempt('apply', lambda o, g, lr: o.apply_gradient(g, learning_rate=lr), opt, tree({k: jnp.asarray(v) for k, v in gr.items()}, frozen), lr)
      else:
        ok, opt = c.attempt('apply', fn, opt, tree({k: jnp.asarray(v) for k, v in g.items()}, frozen), lr)
      if not ok: break
      prev = {k: v.copy() for k, v in ref.p.items()}
      want = ref.apply(g, lr)
      got = flat(opt.target)
      c.check(set(got) == set(want), 'parameter-set', **det)
      bad = False
      for k in want:
        s = max(np.abs(want[k]).max(), np.abs(prev[k]).max(), 1e-7)
        bad |= not c.close(np.asarray(got[k]) / s, want[k] / s, 'update:value', rtol=2e-3, atol=3e-4, param=k, step=t, lr=lr, **det)
        if kw['skip_nan'] or all(np.isfinite(v).all() for v in g.values()):
          c.check(np.isfinite(np.asarray(got[k])).all(), 'update:non-finite', param=k, **det)
      c.check(int(opt.state.step) == ref.step, 'step-count', got=int(opt.state.step), want=ref.step, **det)
      # Second-moment statistics, whatever the orientation they are stored in.
      sts = flat_states(opt.state.param_states)
      for k in want:
        st, rs = sts[k], ref.st[k]
        if ref.lay[k][1]:
          c.check(np.size(st.v) == 1, 'statistics:dense-second-moment-kept', param=k, **det)
          have = sorted([np.sort(np.asarray(st.v_row).ravel()), np.sort(np.asarray(st.v_col).ravel())], key=lambda a: (a.size, a.tolist()))
          exp = sorted([np.sort(rs['r'].ravel()), np.sort(rs['c'].ravel())], key=lambda a: (a.size, a.tolist()))
          if [a.size for a in have] != [a.size for a in exp]:
            c.violation('statistics:factored-shape', param=k, have=[a.size for a in have], want=[a.size for a in exp], **det)
          elif have[0].size != have[1].size:
            for a, b in zip(have, exp):
              m = max(np.abs(b).max(), 1e-37); c.close(a / m, b / m, 'statistics:factored', rtol=2e-3, atol=1e-4, param=k, **det)
        else:
          b = ref.join(k, rs['v']); m = max(np.abs(b).max(), 1e-37)
          c.close(np.asarray(st.v) / m, b / m, 'statistics:dense', rtol=2e-3, atol=1e-4, param=k, **det)
        if kw['beta1'] is not None:
          b = ref.join(k, rs['m']); m = max(np.abs(b).max(), 1e-30)
          c.close(np.asarray(st.m) / m, b / m, 'statistics:momentum', rtol=5e-3, atol=1e-3, param=k, **det)
      c.event('updates')
      c.case((i, t, tuple(sorted(shapes.items()))), nt or mode != 'heuristic' or kw['beta1'] is not None, dict(mode=mode, shapes=shapes, rules=rules, step=t))
      if bad: break

def flat_states(ps):
  return {'/'.join(k): v for k, v in flax.traverse_util.flatten_dict(unfreeze(ps)).items()}

def dtypes():
  """bfloat16 parameters and momentum keep their type; update stays close."""
  for i in range(c.n(6, 30)):
    r = ('B', 'R', 'C')
    p0 = {'w': rng.standard_normal((2, 3, 4)).astype(np.float32), 'b': rng.standard_normal((5,)).astype(np.float32)}
    rules = {'w': r, 'b': ('N',)}
    d = adafactor.Adafactor(learning_rate=.1, beta1=.9, dtype_momentum=jnp.bfloat16,
                            factor_map=HPM([('w', tuple(CODE[x] for x in r)), ('b', (FD.NONE,))]))
    o = d.create({k: jnp.asarray(v, jnp.bfloat16) for k, v in p0.items()})
    ref = Ref({k: np.asarray(jnp.asarray(v, jnp.bfloat16), np.float64) for k, v in p0.items()}, rules, beta1=.9)
    for t in range(3):
      g = {k: rng.standard_normal(v.shape).astype(np.float32) for k, v in p0.items()}
      g = {k: np.array(jnp.asarray(v, jnp.bfloat16).astype(jnp.float32)) for k, v in g.items()}
      o = o.apply_gradient({k: jnp.asarray(v, jnp.bfloat16) for k, v in g.items()})
      want = ref.apply(g, .1)
      for k in p0:
        c.check(o.target[k].dtype == jnp.bfloat16, 'dtype:parameter', param=k, got=str(o.target[k].dtype))
        st = o.state.param_states[k]
        c.check(st.m.dtype == jnp.bfloat16, 'dtype:momentum', got=str(st.m.dtype))
        c.check(st.v.dtype == st.v_row.dtype == jnp.float32, 'dtype:statistics')
        c.close(np.asarray(o.target[k], np.float32), want[k], 'update:bfloat16', rtol=.03, atol=.03)
    c.case(('bf16', i))

def rejects():
  """Configurations that cannot be factored as asked are reported."""
  def bad(mech, fn):
    try:
      fn()
    except (ValueError, TypeError, KeyError):
      c.event('rejections'); c.check(True, mech); return
    c.violation(mech)
  w = {'a': {'w': jnp.ones((3, 4, 5))}}
  bad('rejects:rank3-without-rule', lambda: adafactor.Adafactor(.1).create(w))
  bad('rejects:rule-rank', lambda: adafactor.Adafactor(.1, factor_map=HPM([('.*', (FD.ROW, FD.COLUMN))])).create(w))
  bad('rejects:uncovered-parameter', lambda: adafactor.Adafactor(.1, factor_map=HPM([('zzz', (FD.ROW, FD.COLUMN, FD.COLUMN))])).create(w))
  bad('rejects:unfactored-with-map', lambda: adafactor.Adafactor(.1, factored=False, factor_map=HPM([])))
  def incomplete():
    d = adafactor.Adafactor(.1, logical_factor_rules=adafactor.standard_logical_factor_rules())
    d.set_param_axes({'w': jax.sharding.PartitionSpec('embed', 'mlp', 'relpos_buckets')})
  bad('rejects:incomplete-logical-rule', incomplete)
  def unknown():
    d = adafactor.Adafactor(.1, logical_factor_rules=adafactor.standard_logical_factor_rules())
    d.set_param_axes({'w': jax.sharding.PartitionSpec('embed', 'nonsense')})
  bad('rejects:unknown-logical-axis', unknown)
  # Without logical rules, setting axes changes nothing.
  d = adafactor.Adafactor(.1); d.set_param_axes({'w': jax.sharding.PartitionSpec('embed', 'mlp')})
  c.check(d.hyper_params.factor_map is None, 'axes-without-rules')

def scanned():
  """Metamorphic: a stacked parameter updates as its layers would separately."""
  for i in range(c.n(14, 80)):
    L = int(rng.integers(2, 5)); a, b = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    axis = int(rng.integers(0, 3))
    kw = dict(beta1=[None, .9][i % 2], clipping_threshold=[1.0, .4, None][i % 3], min_dim_size_to_factor=1)
    rule = [FD.ROW, FD.COLUMN]; rule.insert(axis, FD.BATCH)
    ds = adafactor.Adafactor(.1, factor_map=HPM([('.*', tuple(rule))]), **kw)
    dl = adafactor.Adafactor(.1, **kw)
    w = rng.standard_normal((L, a, b)).astype(np.float32) * rng.choice([.01, 1, 10], (L, 1, 1))
    so = ds.create({'w': jnp.asarray(np.moveaxis(w, 0, axis))})
    lo = [dl.create({'w': jnp.asarray(w[l])}) for l in range(L)]
    for t in range(3):
      g = rng.standard_normal((L, a, b)).astype(np.float32) * rng.choice([.01, 1, 100], (L, 1, 1))
      so = so.apply_gradient({'w': jnp.asarray(np.moveaxis(g, 0, axis))})
      lo = [o.apply_gradient({'w': jnp.asarray(g[l])}) for l, o in enumerate(lo)]
      got = np.moveaxis(np.asarray(so.target['w']), axis, 0)
      want = np.stack([np.asarray(o.target['w']) for o in lo])
      c.close(got, want, 'scanned-differs-from-layers', rtol=1e-4, atol=1e-5, layers=L, axis=axis)
    c.event('stacked-updates'); c.case(('scan', w.tobytes()))

def axes():
  """Logical axes derived for the optimizer state."""
  P = jax.sharding.PartitionSpec
  for i in range(c.n(16, 80)):
    beta1 = [None, .9][i % 2]
    ax = {'enc/wi': ('embed', 'mlp'), 'enc/s': ('layer_norm_scale',), 'dec/wi': ('embed', 'layers', 'mlp'), 'dec/s': ('layers', 'embed'), 'dec/q': ('embed', 'heads', 'kv')}
    shapes = {k: tuple(int(x) for x in rng.integers(2, 9, len(v))) for k, v in ax.items()}
    d = adafactor.Adafactor(.1, beta1=beta1, min_dim_size_to_factor=5, logical_factor_rules=adafactor.standard_logical_factor_rules())
    pax = tree({k: P(*v) for k, v in ax.items()}, i % 3 == 0)
    d.set_param_axes(pax)
    o = d.create(tree({k: jnp.zeros(s) for k, s in shapes.items()}, i % 3 == 0))
    ok, la = c.attempt('axes', d.derive_logical_axes, o, pax)
    if not ok: continue
    st, ls = flat_states(o.state.param_states), flat_states(la.state.param_states)
    c.check(la.state.step is None, 'axes:step')
    lt = flat(la.target)
    for k, v in ax.items():
      c.check(lt[k] == P(*v), 'axes:parameter', param=k, got=repr(lt.get(k)))
      for f in ('v_row', 'v_col', 'v', 'm'):
        leaf, a = getattr(st[k], f), getattr(ls[k], f)
        full = leaf.shape == shapes[k] and leaf.shape != (1,) and (f != 'm' or beta1)
        c.check(a == P(*v) if full else a is None, 'axes:state', param=k, slot=f, shape=leaf.shape, got=repr(a))
        c.event('state-axes')
    c.case(('axes', i, tuple(shapes.items())))

for name, fn in (('trajectories', trajectories), ('dtypes', dtypes), ('rejects', rejects), ('scanned', scanned), ('axes', axes)):
  c.section(name, fn)
for e, n in (('updates', 60), ('factored-parameters', 10), ('batched-parameters', 10), ('nan-gradients', 2), ('rejections', 6), ('stacked-updates', 10), ('state-axes', 100), ('mode-logical', 3), ('mode-heuristic', 3)):
  c.need(e, n)
c.finish()
