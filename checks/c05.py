import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import vlib, t5xshim
import functools, re, shutil
import numpy as np
import jax, jax.numpy as jnp
from flax import traverse_util
from flax.core import freeze
import ckptlib as K, trainlib as TL
from t5x import checkpoints, state_utils, utils
c = vlib.Check('C05', rule='random checkpoint/model tree pairs and rule lists with unique values; helpers compared with their definition on flat dictionaries, and real restores through both back ends compared '
  'leaf by leaf with the named source; distinct by (trees, rules, options); non-trivial = at least one rule moved, dropped or kept something')
rng = c.rng
PARTS = {}
def part(mesh, on=True):
  if (mesh, on) not in PARTS: PARTS[mesh, on] = K.part(mesh, on)
  return PARTS[mesh, on]

# --- definitions -------------------------------------------------------------
SPEC = {'driver', 'kvstore', 'metadata'}
def rflat(d, keep_empty, pre=()):
  out = {}
  for k, v in d.items():
    q = pre + (k,)
    if isinstance(v, dict) and not SPEC <= set(v):
      if v: out.update(rflat(v, keep_empty, q))
      elif keep_empty: out['/'.join(q)] = 'EMPTY'
    else: out['/'.join(q)] = v
  return out

def nest(flat):
  out = {}
  for k, v in flat.items():
    d = out
    *h, t = k.split('/')
    for x in h: d = d.setdefault(x, {})
    d[t] = v
  return out

class Bad(Exception): pass

def reference(ckpt, opt, rules, require):
  """The documented rules 1-5 on flat dictionaries."""
  used, taken, res, skip = set(), set(), {}, set()
  for k in opt:
    for i, (p, r) in enumerate(rules):
      m = re.fullmatch(p, k)
      if not m: continue
      used.add(p)
      if r is None: skip.add(k)
      else:
        old = m.expand(r)
        if old not in ckpt: raise Bad('missing source')
        taken.add(old); res[k] = ckpt[old]
      break
  mapped = set(res)
  for k, v in ckpt.items():
    if k in mapped or k in skip: continue
    if k not in taken: res[k] = v                 # 2. unmatched old keys stay
    elif k in opt: res[k] = v                     # 4. new key not mapped, present in the checkpoint
  if require and len(used) != len(rules): raise Bad('unused rule')
  return res

WORDS = ['a', 'b', 'c', 'layers_0', 'layers_1', 'layers_10', 'kernel', 'bias', 'scale', 'a.b']
_uid = [0]
def uid():
  _uid[0] += 1
  return _uid[0]

def rtree(n, spec_p=.2, empty_p=.1):
  flat = {}
  while len(flat) < n:
    k = tuple(str(rng.choice(WORDS)) for _ in range(int(rng.integers(1, 4))))
    if any(k[:len(q)] == q or q[:len(k)] == k for q in flat): continue
    r = rng.random()
    if r < spec_p: v = {'driver': 'zarr', 'kvstore': {'driver': 'file', 'path': 'p%d' % uid()}, 'metadata': {'shape': [uid()]}}
    elif r < spec_p + empty_p: v = {}
    elif r < spec_p + empty_p + .05: v = None
    else: v = uid()
    flat[k] = v
  return traverse_util.unflatten_dict(flat)

def as_is(x):
  return 'EMPTY' if isinstance(x, type(traverse_util.empty_node)) else x

def helpers(i):
  a, b = rtree(int(rng.integers(1, 8))), rtree(int(rng.integers(1, 8)))
  if rng.random() < .7:     # share part of the names
    fa = rflat(a, True); keep = {k: uid() for k in fa if rng.random() < .6}
    fb = dict(rflat(b, False))
    for k, v in keep.items():
      if not any(k == q or k.startswith(q + '/') or q.startswith(k + '/') for q in fb): fb[k] = v
    b = nest(fb)
  import copy
  a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
  for keep in (False, True):
    got = {k: as_is(v) for k, v in state_utils.flatten_state_dict(a, keep_empty_nodes=keep).items()}
    c.check(got == rflat(a, keep), 'flatten', tree=a, got=got)
  plain = rtree(int(rng.integers(1, 8)), spec_p=0)
  nt = state_utils.get_name_tree(plain, keep_empty_nodes=True)
  fl = traverse_util.flatten_dict(nt)
  c.check({'/'.join(k): v for k, v in fl.items()} == {k: k for k in rflat(plain, True)}, 'name-tree', tree=plain, got=nt)
  fa, fb = rflat(a, False), rflat(b, False)
  got = rflat(dict(state_utils.intersect_state(a, b)), False)
  c.check(got == {k: v for k, v in fa.items() if k in fb}, 'intersect', a=a, b=b, got=got)
  for ow in (False, True):
    clash = any(x.startswith(y + '/') for x in list(fa) + list(fb) for y in list(fa) + list(fb))
    if clash: continue
    got = rflat(dict(state_utils.merge_state(a, b, overwrite=ow)), False)
    want = {**fb, **fa} if not ow else {**fa, **fb}
    c.check(got == want, 'merge', a=a, b=b, overwrite=ow, got=got, want=want); c.event('merges')
  c.check(a == a0 and b == b0, 'helper-modifies-input', a=a0, now=a)
  c.case(('helpers', str(a), str(b)), set(fa) & set(fb) != set() and set(fa) != set(fb))

def rule_for(k, src):
  """A rule that sends key k (or its whole module) to src."""
  r = rng.random()
  if r < .3: return (re.escape(k), src.replace('\\', '\\\\'))
  kp, sp = k.split('/'), src.split('/')
  n = 0
  while n < min(len(kp), len(sp)) - 1 and kp[-1 - n] == sp[-1 - n]: n += 1
  if n:
    return (re.escape('/'.join(kp[:len(kp) - n])) + '/(.*)', '/'.join(sp[:len(sp) - n]) + r'/\1')
  if len(kp) > 1 and len(sp) > 1 and kp[0] == sp[0]:
    return ('(%s)/' % re.escape(kp[0]) + re.escape('/'.join(kp[1:])), r'\1/' + '/'.join(sp[1:]))
  return (re.escape(k), src)

def rules_for(opt, ckpt, n):
  rules = []
  for _ in range(n):
    k = str(rng.choice(sorted(opt))); r = rng.random()
    if r < .2: rules.append((re.escape(k), None))
    elif r < .28: rules.append((re.escape(k.split('/')[0]) + '.*', None))
    elif r < .33: rules.append(('no_such_name_%d' % uid(), 'x'))
    elif r < .37: rules.append((re.escape(k), 'absent/%d' % uid()))
    elif r < .42: rules.append((re.escape(k[:-1]) if len(k) > 1 else 'zz', 'x'))      # a prefix is no match
    elif r < .5: rules.append((r'(.*)', r'\1'))
    else: rules.append(rule_for(k, str(rng.choice(sorted(ckpt)))))
  return rules

def assignment(i):
  ck = rflat(rtree(int(rng.integers(1, 7)), empty_p=0), False)
  opt = {}
  for k in ck:
    if rng.random() < .6: opt[k] = uid()
  for k in rflat(rtree(int(rng.integers(1, 5)), 0, 0), False):
    if not any(k == q or k.startswith(q + '/') or q.startswith(k + '/') for q in list(opt) + list(ck)): opt[k] = uid()
  if not opt: return
  rules = rules_for(opt, ck, int(rng.integers(0, 4))); require = bool(rng.random() < .5)
  try: want = reference(ck, opt, rules, require); bad = None
  except Bad as e: want, bad = None, str(e)
  if want is not None and any(x.startswith(y + '/') for x in want for y in want): return
  n0 = nest(ck)
  try:
    got = rflat(dict(state_utils.apply_assignment_map(nest(ck), nest(opt), rules, require)), False); err = None
  except ValueError as e: got, err = None, str(e)[:200]
  det = dict(ckpt=ck, model=sorted(opt), rules=rules, require_all=require)
  if bad: c.check(err is not None, 'assignment:accepted', why=bad, got=got, **det); c.event('assignment-rejected')
  else:
    c.check(err is None and got == want, 'assignment:values', got=got if err is None else err, want=want, **det); c.event('assignment-applied')
    if any(k in want and want[k] is not ck.get(k) for k in opt): c.event('assignment-moved')
  same = state_utils.apply_assignment_map(n0, nest(opt), rules, require, is_resuming=True)
  c.check(same == nest(ck), 'assignment:resuming', got=same, **det)
  c.case(('assign', str(det)), bool(rules))

# --- real restores -------------------------------------------------------------
def renamed(tree):
  """A model tree made from the checkpoint tree by renaming, dropping and adding."""
  flat = traverse_util.flatten_dict(tree, is_leaf=lambda _, v: K.is_spec(v)) if False else {k: v for k, v in K.flat(tree).items()}
  out, moves = {}, {}
  for k, v in flat.items():
    r = rng.random()
    if r < .45: out[k] = v
    elif r < .8:
      n = '/'.join(['new_%d' % uid()] + k.split('/')[1:]) if rng.random() < .5 or '/' not in k else k.rsplit('/', 1)[0] + '/renamed_%d' % uid()
      out[n] = v; moves[n] = k
    # else dropped
    if r > .7 and rng.random() < .5:   # one source used twice
      n = 'copy_%d/w' % uid(); out[n] = v; moves[n] = k
  added = []
  for _ in range(int(rng.integers(0, 3))):
    n = 'added_%d/kernel' % uid(); out[n] = ((4, 4), np.float32, ('mod', 'nul1')); added.append(n)
  if not out: k = next(iter(flat)); out[k] = flat[k]
  return nest(out), moves, added

def compare(got, want, mech, **det):
  g = K.flat(got)
  if not c.check(set(g) == set(want), mech + ':structure', missing=sorted(set(want) - set(g))[:5], extra=sorted(set(g) - set(want))[:5], **det): return
  for k, w in want.items():
    if w is None: c.check(g[k] is None, mech + ':none', name=k, **det); continue
    if not c.check(K.same(K.host(g[k]), K.host(w)), mech + ':value', name=k, got=K.host(g[k]), want=K.host(w), **det): return
    c.event('restored-leaves')

def restore(i):
  kind = ['sgd', 'adafactor_plain', 'adam', 'multi', 'sgd', 'inference'][i % 6]
  backend = 'orbax' if (i // 6) % 3 == 2 and kind != 'multi' else 't5x'
  tree = K.random_tree(rng, int(rng.integers(2, 6)), rank=2, names=['encoder', 'decoder', 'layers_0', 'layers_10', 'kernel', 'bias', 'wi'])
  mesh = [(1, 1), (1, 2)][int(rng.integers(0, 2))]; p = part(mesh)
  src_kind = 'sgd' if kind == 'inference' else kind
  base = K.make_state(rng, tree, src_kind)
  new_tree, moves, added = renamed(tree)
  model = K.make_state(rng, new_tree, kind)
  d = c.dir(); step = int(rng.integers(1, 50))
  saved = K.refill(rng, base, step)
  if backend == 't5x': checkpoints.Checkpointer(base, p, d, save_dtype=None).save(K.place(saved, p, str(rng.choice(['single', 'sharded']))))
  else:
    m = checkpoints.OrbaxCheckpointManagerInterface(d, base, p); m.save(K.place(saved, p, 'sharded')); m.wait_until_finished()
  fresh = K.refill(rng, model, 0)
  ck, opt = K.flat(saved), K.flat(model)
  keep_none = {k for k, v in opt.items() if v is None}
  # Rules: whole-parameter moves (target and slots), some forgotten, some extra.
  rules = []
  for n, o in moves.items():
    if rng.random() < .85:
      if kind == 'inference' or rng.random() < .3: rules.append((r'(target)/%s(|/.*)' % re.escape(n), r'\1/%s\2' % o))
      else: rules.append((r'(target|state/param_states)/%s(|/.*)' % re.escape(n), r'\1/%s\2' % o)) if kind in ('sgd', 'adafactor_plain') else rules.append((r'(.*)%s(|/.*)' % re.escape(n), r'\g<1>%s\2' % o))
  if rng.random() < .3: rules.insert(int(rng.integers(0, len(rules) + 1)), (r'state.*', None))
  if rng.random() < .2: rules.append((r'.*/%s(|/.*)' % re.escape(str(rng.choice(sorted(K.flat(new_tree))))), None))
  if rng.random() < .1: rules.append(('unused_rule', None))
  if rng.random() < .3: rng.shuffle(rules); rules = [tuple(r) for r in rules]
  require = bool(rng.random() < .4)
  use_fn = bool(rules) or rng.random() < .5
  fallback = bool(rng.random() < .65)
  if fallback and not use_fn: use_fn = True
  det = dict(kind=kind, backend=backend, rules=rules, require_all=require, fallback=fallback, ckpt=sorted(ck)[:12], model=sorted(opt)[:14])
  try: mapped = reference({k: v for k, v in ck.items()}, opt, rules, require) if use_fn else dict(ck); bad = None
  except Bad as e: mapped, bad = None, str(e)
  if bad is None:
    missing = [k for k in opt if k not in mapped and opt[k] is not None]
    if missing and not fallback: bad = 'unmatched parameters'
    elif not fallback and any(k not in mapped for k in opt): c.event('skipped-none'); c.drop(d); return
    # A value of another shape is not a valid source.
    wrong = [k for k in opt if k in mapped and opt[k] is not None and mapped[k] is not None and np.shape(opt[k]) != np.shape(mapped[k])]
    if wrong or any((mapped[k] is None) != (opt[k] is None) for k in opt if k in mapped): c.event('skipped-shape'); c.drop(d); return
  fns = [functools.partial(state_utils.apply_assignment_map, assignment_map=rules, require_all_rules_match=require)] if use_fn else []
  def go():
    C = checkpoints.Checkpointer(K.abstract(model), p, d) if backend == 't5x' else checkpoints.OrbaxCheckpointManagerInterface(d, K.abstract(model), p)
    return C.restore(step=step, state_transformation_fns=fns, fallback_state=fresh.state_dict() if fallback else None)
  if bad:
    try: got = go(); c.violation('restore:accepted', why=bad, **det)
    except Exception as e:
      if vlib.blame(e) == 'harness': raise
      c.event('restore-rejected')
  else:
    n0 = len(c.violations); ok, got = c.attempt('restore', go)
    if not ok and len(c.violations) > n0: c.violations[-1][1].update(det)
    if ok:
      want = {}
      for k in opt:
        want[k] = mapped[k] if k in mapped else K.flat(fresh)[k]
        c.event('leaf-moved' if k in mapped and k not in ck else 'leaf-fallback' if k not in mapped else 'leaf-same')
      if kind == 'inference': want = {k: want[k] for k in opt}
      compare(got, want, 'restore', **det); c.event('restores-' + backend)
  c.case(('restore', str(det)), bool(rules) or fallback)
  c.drop(d)

# --- through the train state initializer -------------------------------------
class Model:
  def __init__(self, tree): self.tree = tree
  def get_initial_variables(self, rng, input_shapes, input_types=None):
    flat = K.flat(self.tree); keys = jax.random.split(rng, len(flat))
    vals = {k: jax.random.normal(keys[j], s[0], jnp.float32) for j, (k, s) in enumerate(sorted(flat.items()))}
    from flax.linen import partitioning as fp
    return {'params': nest(vals), 'params_axes': nest({k + '_axes': fp.AxisMetadata(s[2]) for k, s in flat.items()})}

def initializer(i):
  tree = K.random_tree(rng, int(rng.integers(1, 4)), rank=2); p = part([(1, 1), (1, 4)][i % 2])
  kind = ['sgd', 'adafactor_plain', 'adam'][i % 3]
  base = K.make_state(rng, tree, kind); step = int(rng.integers(0, 40)); d = c.dir(); saved = K.refill(rng, base, step)
  checkpoints.Checkpointer(base, p, d).save(K.place(saved, p, 'sharded'))
  big = dict(K.flat(tree)); new = ['added_%d/w' % j for j in range(int(rng.integers(1, 3)))]
  for n in new: big[n] = ((4, 3), np.float32, ('mod', 'nul1'))
  init = utils.TrainStateInitializer(K.opt_def(kind), Model(nest(big)).get_initial_variables, {}, p)
  key = jax.random.PRNGKey(int(rng.integers(0, 1000)))
  fn = functools.partial(state_utils.apply_assignment_map, assignment_map=[], require_all_rules_match=False)
  path = os.path.join(d, 'checkpoint_%d' % step)
  def cfg(**kw): return utils.RestoreCheckpointConfig(path=path, mode='specific', dtype=None, **kw)
  def state(how, **kw):
    if how == 'cfg': return init.from_checkpoint([cfg(**kw)], init_rng=key)
    return utils.create_checkpoint_manager_and_restore(init, p, cfg(**kw), path, key)[0]
  scratch = K.flat(init.from_scratch(key))
  for how in ('cfg', 'manager'):
    kw = {} if how == 'cfg' else dict(use_orbax=False) if False else {}
    try: state(how, state_transformation_fns=[fn], **kw); c.violation('initializer:accepted-missing', how=how)
    except ValueError: c.event('initializer-rejected')
    try: state(how, state_transformation_fns=[], fallback_to_scratch=True, **kw); c.violation('initializer:accepted-fallback-without-fn', how=how)
    except ValueError: c.event('initializer-rejected')
    ok, got = c.attempt('initializer', state, how, state_transformation_fns=[fn], fallback_to_scratch=True, **kw)
    if ok:
      if isinstance(got, (tuple, list)): got = got[0]
      want = {k: K.flat(saved)[k] if k in K.flat(saved) else v for k, v in scratch.items()}
      compare(got, want, 'initializer', how=how, kind=kind, new=new); c.event('initializer-restores')
  c.case(('initializer', i, str(tree)), True)
  c.drop(d)

for i in range(c.n(400, 8000)): c.section('helpers', helpers, i)
for i in range(c.n(1500, 40000)):
  if c.out_of_time(.4): break
  c.section('assignment', assignment, i)
for i in range(c.n(120, 1500)):
  if c.out_of_time(.8): break
  c.section('restore', restore, i)
for i in range(c.n(4, 30)):
  if c.out_of_time(.95): break
  c.section('initializer', initializer, i)
c.need('merges', 200); c.need('assignment-rejected', 100); c.need('assignment-moved', 100); c.need('restores-t5x', 20); c.need('restores-orbax', 5); c.need('restore-rejected', 15)
c.need('leaf-moved', 30); c.need('leaf-fallback', 30); c.need('initializer-restores', 4)
c.finish()
