import vlib, t5xshim
import numpy as np, functools, copy
import jax, jax.numpy as jnp, flax, optax
from flax import traverse_util
from flax.core import freeze, unfreeze
from t5x import adafactor, optimizers
P = jax.sharding.PartitionSpec
c = vlib.Check('O02', rule='random parameter trees split over sub-optimizers, and every wrapped optax constructor '
  'and combinator, driven over random gradient histories; distinct by optimizer, tree and gradients')
rng = c.rng

def flat(t):
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(unfreeze(t)).items()}

def tree(f, frozen=False):
  t = traverse_util.unflatten_dict({tuple(k.split('/')): v for k, v in f.items()})
  return freeze(t) if frozen else t

LEAVES = ['enc/l0/kernel', 'enc/l0/bias', 'enc/l1/kernel', 'enc/l1/bias', 'dec/l0/kernel', 'dec/l10/kernel', 'dec/l1/bias', 'emb/table']

def params(n=None):
  names = [str(x) for x in rng.permutation(LEAVES)[:n or rng.integers(3, 8)]]
  out = {}
  for k in names:
    s = (int(rng.integers(2, 6)),) if 'bias' in k else tuple(int(x) for x in rng.integers(2, 6, 2))
    out[k] = rng.standard_normal(s).astype(np.float32)
  return out

@flax.struct.dataclass
class MHyper: learning_rate: float = .1; decay: float = .5
@flax.struct.dataclass
class MState: v_row: object; v_col: object; v: object; m: object

class Momentum(optimizers.OptimizerDef):
  """An optimizer of a user, with hyper-parameters of its own type."""
  def __init__(self, **kw): super().__init__(MHyper(**kw))
  def init_state(self, params):
    z = jnp.zeros((1,)); return optimizers.OptimizerState(jnp.asarray(0, jnp.int32), jax.tree.map(lambda p: MState(z, z, z, jnp.zeros_like(p)), params))
  def apply_gradient(self, hp, params, state, grads):
    new = jax.tree.map(lambda s, g: s.replace(m=hp.decay * s.m + g), state.param_states, grads, is_leaf=lambda x: isinstance(x, MState))
    return jax.tree.map(lambda p, s: p - hp.learning_rate * s.m, params, new), optimizers.OptimizerState(state.step + 1, new)
  def derive_logical_axes(self, opt, axes): return opt.replace(target=axes, state=optimizers.OptimizerState(None, jax.tree.map(lambda a: MState(None, None, None, a), axes, is_leaf=lambda x: isinstance(x, P))))

def sub_def(i):
  """A sub-optimizer factory; each call gives an independent instance."""
  kw = [dict(learning_rate=.1), dict(learning_rate=.03, beta1=.9), dict(learning_rate=.2, multiply_by_parameter_scale=False, clipping_threshold=None),
        dict(learning_rate=.05, factored=False, weight_decay_rate=.1), dict(learning_rate=.1, min_dim_size_to_factor=2),
        dict(learning_rate=.1, global_norm_clip_threshold=.2), dict(learning_rate=.3, step_offset=0, decay_rate=.5, logical_factor_rules=adafactor.standard_logical_factor_rules()), dict(learning_rate=.15, decay=.7)][i]
  return (lambda: Momentum(**kw)) if i == 7 else lambda: adafactor.Adafactor(**kw)

def trav(names):
  s = frozenset('/' + n for n in names)
  return traverse_util.ModelParamTraversal(lambda path, _: path in s)

def state_leaves(st):
  return {} if st is None else {f: np.asarray(getattr(st, f)) for f in ('v_row', 'v_col', 'v', 'm')}

def multi():
  for i in range(c.n(18, 90)):
    if c.out_of_time(.6): break
    p = params(); names = list(p); frozen = bool(i % 2)
    ng = int(rng.integers(1, min(4, len(names)) + 1))
    if i % 3 == 1: ng = max(ng, 2)
    assign = {n: int(rng.integers(-1, ng)) for n in names}
    for g in range(ng):
      assign[names[g]] = g
    groups = [[n for n in names if assign[n] == g] for g in range(ng)]
    kinds = [int(x) for x in rng.integers(0, 8, ng)]
    if i % 3 == 1: kinds[int(rng.integers(0, ng))] = 7
    c.event('mixed-optimizers', ng > 1 and 7 in kinds and set(kinds) != {7})
    det = dict(groups=groups, kinds=kinds, shapes={k: v.shape for k, v in p.items()}, frozen=frozen)
    md = optimizers.MultiOptimizer([(trav(g), sub_def(k)()) for g, k in zip(groups, kinds)])
    axes = {k: P(*(('embed', 'mlp')[:v.ndim])) for k, v in p.items()}
    solo_defs = [sub_def(k)() for k in kinds]
    if rng.random() < .7:
      md.set_param_axes(tree(axes, frozen)); c.event('axes-set')
      for g, d in zip(groups, solo_defs):
        if hasattr(d, 'set_param_axes'): d.set_param_axes(tree({k: axes[k] for k in g}, frozen))
      md.hyper_params = [d.hyper_params for d in md.sub_optimizers]
    ok, mo = c.attempt('multi:create', md.create, tree({k: jnp.asarray(v) for k, v in p.items()}, frozen))
    if not ok: continue
    solo = [d.create(tree({k: jnp.asarray(p[k]) for k in g}, frozen)) for d, g in zip(solo_defs, groups)]
    unopt = [n for n in names if assign[n] < 0]
    c.event('unselected', len(unopt))
    for t in range(4):
      g = {k: (rng.standard_normal(v.shape) * 3).astype(np.float32) for k, v in p.items()}
      mode = int(rng.integers(0, 4)) if rng.random() < .7 else 1
      gt = tree({k: jnp.asarray(v) for k, v in g.items()}, frozen)
      if mode == 0:
        lrs = [None] * ng; kw = {}
      elif mode == 1:
        lrs = [.07] * ng; kw = dict(learning_rate=.07)
      else:
        lrs = [float(x) for x in rng.choice([.0, .01, .2, .5], ng)]
        kw = dict(hyper_params=[hp.replace(learning_rate=lr) for hp, lr in zip(md.hyper_params, lrs)])
        c.event('per-group-learning-rates')
      ok, mo = c.attempt('multi:apply', mo.apply_gradient, gt, **kw)
      if not ok: break
      got, sts = flat(mo.target), flat(mo.state.param_states)
      c.check(set(got) == set(p), 'multi:parameter-set', **det)
      for gi, gr in enumerate(groups):
        k = {} if lrs[gi] is None else dict(learning_rate=lrs[gi])
        solo[gi] = solo[gi].apply_gradient(tree({n: jnp.asarray(g[n]) for n in gr}, frozen), **k)
        want, ws = flat(solo[gi].target), flat(solo[gi].state.param_states)
        for n in gr:
          c.close(got[n], want[n], 'multi:differs-from-own-optimizer', rtol=1e-5, atol=1e-6, param=n, step=t, lrs=lrs, **det)
          a, b = state_leaves(sts[n]), state_leaves(ws[n])
          for f in b:
            c.close(a.get(f), b[f], 'multi:state', rtol=1e-5, atol=1e-9, param=n, slot=f, **det)
      for n in unopt:
        c.equal(got[n], p[n], 'multi:unselected-changed', param=n, **det)
        c.check(sts.get(n) is None, 'multi:unselected-has-state', param=n, **det)
      c.check(int(mo.state.step) == t + 1, 'multi:step', got=int(mo.state.step), want=t + 1, **det)
      c.event('multi-steps')
      c.case(('multi', i, t), ng > 1 or bool(unopt), dict(groups=groups, learning_rates=lrs, step=t))
      if t == 1:   # state-dict round trip in the middle of the history
        sd = jax.tree.map(np.asarray, mo.state_dict())
        fresh = md.create(tree({k: jnp.zeros_like(v) for k, v in p.items()}, frozen))
        ok, mo = c.attempt('multi:restore', fresh.restore_state, sd)
        if not ok: break
        c.event('round-trips')
    ok, la = c.attempt('multi:axes', md.derive_logical_axes, mo, tree(axes, frozen)) if mo is not None else (False, None)
    if ok:
      lt, ls = flat(la.target), flat(la.state.param_states)
      sts = flat(mo.state.param_states)
      for n in names:
        c.check(lt.get(n) == axes[n], 'multi:axes-parameter', param=n, **det)
        st = sts[n]
        if st is None:
          c.check(ls.get(n) is None, 'multi:axes-unselected', param=n, got=repr(ls.get(n)), **det); continue
        for f in ('v_row', 'v_col', 'v', 'm'):
          leaf = np.asarray(getattr(st, f)); a = getattr(ls[n], f)
          want = axes[n] if leaf.shape == p[n].shape and f in ('v', 'm') else None
          c.check(a == want, 'multi:axes-state', param=n, slot=f, got=repr(a), want=repr(want), **det)
      c.check(la.state.step is None, 'multi:axes-step')
      c.event('multi-axes')

def overlap():
  for i in range(c.n(12, 60)):
    p = params(); names = list(p)
    a = [names[0]] + [n for n in names[1:] if rng.random() < .5]
    b = [n for n in names if rng.random() < .5 and n not in a]
    clash = bool(i % 2)
    if clash: b = b + [str(rng.choice(a))]
    if not b: continue
    d = optimizers.MultiOptimizer([(trav(a), sub_def(0)()), (trav(b), sub_def(1)())])
    try:
      d.create(tree(p)); raised = False
    except ValueError:
      raised = True
    c.check(raised == clash, 'multi:overlap-detection', first=a, second=b, raised=raised)
    c.event('overlap-clash' if clash else 'overlap-none'); c.case(('overlap', tuple(a), tuple(b)))

# ---- optax ------------------------------------------------------------
S = optax.linear_schedule(.2, .01, 4)
NAMED = [  # constructor name, args
  ('adam', dict(learning_rate=.1)), ('adam', dict(learning_rate=S, b1=.5)), ('adamw', dict(learning_rate=.1, weight_decay=.1)),
  ('adabelief', dict(learning_rate=.1)), ('adagrad', dict(learning_rate=.1)), ('fromage', dict(learning_rate=.1)),
  ('lars', dict(learning_rate=.1, weight_decay=.01)), ('lamb', dict(learning_rate=.1, weight_decay=.01)), ('lion', dict(learning_rate=.1)),
  ('noisy_sgd', dict(learning_rate=.1, seed=3)), ('radam', dict(learning_rate=.1)), ('rmsprop', dict(learning_rate=.1)),
  ('rmsprop', dict(learning_rate=.1, centered=True, momentum=.9)), ('sgd', dict(learning_rate=.1)),
  ('sgd', dict(learning_rate=S, momentum=.9, nesterov=True)), ('yogi', dict(learning_rate=.1)),
]

def combos(p):
  names = list(p)
  mask = tree({k: bool(rng.random() < .6) for k in names})
  lab = tree({k: str(rng.choice(['x', 'y'])) for k in names})
  A = optax
  return [
    ('chain', lambda: A.chain(A.clip_by_global_norm(1.), A.scale_by_adam(), A.scale_by_schedule(lambda s: -.1 / (s + 1)))),
    ('masked', lambda: A.masked(A.adam(.1), mask)),
    ('masked-chain', lambda: A.chain(A.masked(A.trace(.9), mask), A.add_decayed_weights(.1, mask), A.scale(-.1))),
    ('multi_transform', lambda: A.multi_transform({'x': A.adam(.1), 'y': A.sgd(.2, momentum=.5)}, lab)),
    ('multi_steps', lambda: A.MultiSteps(A.adam(.1), 2).gradient_transformation()),
    ('apply_if_finite', lambda: A.apply_if_finite(A.adam(.1), 3)),
    ('ema', lambda: A.chain(A.ema(.9), A.scale(-.1))),
    ('zero_nans', lambda: A.chain(A.zero_nans(), A.sgd(.1, momentum=.9))),
    ('nested', lambda: A.chain(A.apply_if_finite(A.chain(A.masked(A.scale_by_rms(), mask), A.trace(.5)), 2), A.scale_by_trust_ratio(), A.scale(-.05))),
    ('nadam', lambda: A.nadam(.1)),
  ]

def arr(x):
  """Typed PRNG keys compare by their data."""
  if hasattr(x, 'dtype') and jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
    return np.asarray(jax.random.key_data(x))
  return x

def leaves_with_path(t, none=False):
  is_leaf = (lambda x: x is None or isinstance(x, P)) if none else None
  return [('/'.join(_k(q) for q in path), v if none else arr(v)) for path, v in jax.tree_util.tree_flatten_with_path(t, is_leaf=is_leaf)[0]]

def _k(q):
  for a in ('key', 'name', 'idx'):
    if hasattr(q, a): return str(getattr(q, a))
  return str(q)

def run_optax(label, wrapped, plain, p, seed_case):
  det = dict(optimizer=label, shapes={k: v.shape for k, v in p.items()})
  frozen = bool(rng.integers(0, 2)) and label not in ('masked', 'masked-chain', 'multi_transform', 'nested')
  pt = tree({k: jnp.asarray(v) for k, v in p.items()}, frozen)
  ok, o = c.attempt('optax:create', wrapped.create, pt)
  if not ok: return
  st = plain.init(pt); q = pt
  upd = jax.jit(plain.update)
  app = jax.jit(lambda o, g: o.apply_gradient(g, learning_rate=123.0))
  T = 6; cut = int(rng.integers(1, T - 1))
  for t in range(T):
    gf = {k: rng.standard_normal(v.shape).astype(np.float32) for k, v in p.items()}
    if label in ('apply_if_finite', 'zero_nans', 'nested') and t in (1, 3):
      k = list(gf)[0]; gf[k].reshape(-1)[0] = np.nan
    g = tree({k: jnp.asarray(v) for k, v in gf.items()}, frozen)
    ok, o = c.attempt('optax:apply', app, o, g)
    if not ok: return
    u, st = upd(g, st, q); q = optax.apply_updates(q, u)
    for k, v in flat(q).items():
      c.close(flat(o.target)[k], v, 'optax:trajectory', rtol=1e-5, atol=1e-6, param=k, step=t, **det)
    a, b = leaves_with_path(o.state.param_states), leaves_with_path(st)
    c.check([x[0] for x in a] == [x[0] for x in b], 'optax:state-structure', **det)
    for (n1, x), (_, y) in zip(a, b):
      c.close(x, y, 'optax:state', rtol=1e-5, atol=1e-6, leaf=n1, step=t, **det)
    c.check(int(o.state.step) == t + 1, 'optax:step', got=int(o.state.step), want=t + 1, **det)
    c.event('optax-steps'); c.case((label, seed_case, t), True, dict(optimizer=label, step=t))
    if t == cut and label != 'noisy_sgd':  # its key is not serialisable
      sd = o.state_dict()
      empties = [k for k, v in traverse_util.flatten_dict(sd, keep_empty_nodes=True, sep='/').items() if v is traverse_util.empty_node]
      c.check(not empties, 'optax:empty-dicts-in-state-dict', paths=empties, **det)
      sd = jax.tree.map(np.asarray, flax.serialization.msgpack_restore(flax.serialization.msgpack_serialize(jax.tree.map(np.asarray, unfreeze(sd)))))
      fresh = wrapped.create(jax.tree.map(jnp.zeros_like, pt))
      ok, o2 = c.attempt('optax:restore', fresh.restore_state, sd)
      if not ok: return
      c.check(jax.tree.structure(o2) == jax.tree.structure(o), 'optax:restored-structure', **det)
      for (n1, x), (_, y) in zip(leaves_with_path(o2), leaves_with_path(o)):
        c.equal(x, y, 'optax:restored-value', leaf=n1, **det)
      o = o2; c.event('round-trips')
      # A state dict that lacks a value is refused, not silently defaulted.
      fl = traverse_util.flatten_dict(sd['state'], sep='/')
      victim = str(rng.choice(list(fl)))
      fl2 = {k: v for k, v in fl.items() if k != victim}
      try:
        wrapped.create(pt).restore_state({'target': sd['target'], 'state': traverse_util.unflatten_dict(fl2, sep='/')})
        c.violation('optax:missing-entry-accepted', entry=victim, **det)
      except Exception:  # pylint: disable=broad-except
        c.event('missing-rejected')
  # Logical axes.
  names = {}
  for k, v in p.items():
    names[k] = P(*['%s_%d' % (k.replace('/', '.'), d) for d in range(v.ndim)])
  ok, la = c.attempt('optax:axes', wrapped.derive_logical_axes, o, tree(names, frozen))
  if not ok: return
  for k, v in flat(la.target).items():
    c.check(v == names[k], 'optax:axes-parameter', param=k, **det)
  a = leaves_with_path(o.state.param_states)
  b = dict(leaves_with_path(la.state.param_states, none=True))
  for path, leaf in a:
    par = [k for k in p if path == k or path.endswith('/' + k)]
    want = names[par[0]] if par and np.shape(leaf) == p[par[0]].shape else None
    c.check(path in b, 'optax:axes-leaf-missing', leaf=path, have=list(b)[:30], **det)
    if path in b:
      c.check(b[path] == want, 'optax:axes-leaf', leaf=path, shape=np.shape(leaf), got=repr(b[path]), want=repr(want), **det)
    c.event('optax-axes')
  c.check(set(b) == {x[0] for x in a}, 'optax:axes-extra-leaf', extra=sorted(set(b) - {x[0] for x in a}), **det)
  c.check(la.state.step is None, 'optax:axes-step', **det)

def optax_named():
  for rep in range(c.n(1, 4)):
    for name, kw in NAMED:
      if c.out_of_time(.8): return
      run_optax(name, getattr(optimizers, name)(**kw), getattr(optax, name)(**kw), params(int(rng.integers(2, 5))), rep)

def optax_combined():
  for rep in range(c.n(1, 4)):
    p = params(int(rng.integers(2, 5)))
    for label, mk in combos(p):
      if c.out_of_time(.9): return
      run_optax(label, optimizers.OptaxWrapper(mk()), mk(), p, ('combo', rep))
    ch = [optax.clip(0.5), optax.trace(.9), optax.scale(-.1)]
    run_optax('t5x.chain', optimizers.chain(ch), optax.chain(*ch), p, ('chain', rep))

for name, fn in (('multi', multi), ('overlap', overlap), ('optax_named', optax_named), ('optax_combined', optax_combined)):
  c.section(name, fn)
for e, n in (('multi-steps', 30), ('per-group-learning-rates', 5), ('unselected', 5), ('round-trips', 15), ('overlap-clash', 3), ('optax-steps', 80), ('missing-rejected', 10), ('optax-axes', 60), ('axes-set', 3)):
  c.need(e, n)
c.finish()
