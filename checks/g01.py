"""G01: a run does what its gin files and command line say, and the config.gin it writes says the same."""
import os
os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '') + ' --xla_force_host_platform_device_count=1'
import vlib, t5xshim
import copy, glob, json, subprocess, sys, time
import numpy as np
import gin, jax
import fiddle as fdl
from fiddle.experimental import serialization
import gincases, looplib as LL
from t5x import config_utils, gin_utils
c = vlib.Check('G01', rule='random gin files (several per configuration, in several search directories, with includes, macros, scopes, references) and bindings parsed by the real code and read back by calling what they configure, '
  'command lines of the real train / eval / infer programs in processes of their own against the run written down in Python; distinct by configuration; non-trivial = some value is set more than once')
rng = c.rng
def pick(xs): return xs[int(rng.integers(0, len(xs)))]

TEXT = ['', 'a', "it's", 'say "x"', 'key = value', 'a=b', 'line\nbreak', 'tab\t', 'back\\slash', 'Übung', '# no comment', '%percent', '@at', '{}', 'x' * 90, ' lead', 'trail ', '\u65e5\u672c', 'a,b', '--gin.x=1']
def value(depth=0):
  k = int(rng.integers(0, 9 if depth < 2 else 6))
  if k == 0: return int(rng.integers(-10**9, 10**9))
  if k == 1: return float(pick([0.1, -2.5e-9, 1e30, 3.0, 1e-8, 1 / 3]))
  if k == 2: return bool(rng.integers(0, 2))
  if k == 3: return None
  if k in (4, 5): return pick(TEXT)
  if k == 6: return [value(depth + 1) for _ in range(int(rng.integers(0, 4)))]
  if k == 7: return tuple(value(depth + 1) for _ in range(int(rng.integers(0, 4))))
  return {pick(['a', 'b', 'long key', 3, (1, 2)]): value(depth + 1) for _ in range(int(rng.integers(0, 4)))}

class Ref:
  """@scope/name or @scope/name()"""
  def __init__(self, scope, name, call): self.scope, self.name, self.call = scope, name, call
  def text(self): return '@' + (self.scope + '/' if self.scope else '') + self.name + ('()' if self.call else '')
class Mac:
  def __init__(self, name): self.name = name
  def text(self): return '%' + self.name

NAMES = ['gv_one', 'gv_two', 'gv_three']     # a configurable refers only to later ones
PARAMS = ['p', 'q', 'r']
SCOPES = ['', 'train', 'eval', 'train/inner']
MACROS = ['GV_A', 'GV_B', 'GV_C']

def right(i):
  x = rng.random()
  if x < .15: return Mac(pick(MACROS))
  if x < .3 and i + 1 < len(NAMES): return Ref(pick(SCOPES), NAMES[int(rng.integers(i + 1, len(NAMES)))], True)
  return value()

def text(v): return v.text() if hasattr(v, 'text') else repr(v)

def statements(n):
  """[(key, value)]: key = ('macro', name) or (scope, configurable, parameter)"""
  out = []
  for _ in range(n):
    if rng.random() < .25: out.append((('macro', pick(MACROS)), value()))
    else: i = int(rng.integers(0, len(NAMES))); out.append(((pick(SCOPES), NAMES[i], pick(PARAMS)), right(i)))
  return out

def line(k, v, name=None): return ('%s = %s' % (k[1], text(v))) if k[0] == 'macro' else '%s%s.%s = %s' % (k[0] + '/' if k[0] else '', name or k[1], k[2], text(v))

def resolve(cfg, v, scope):
  if isinstance(v, Mac): return resolve(cfg, cfg[('macro', v.name)], scope)
  if isinstance(v, Ref): return call(cfg, v.name, v.scope or scope)   # the scope of the caller, if it names none
  return v

def call(cfg, name, scope):
  """What the configurable returns when called in the scope: outer scopes apply first, inner ones override."""
  parts = scope.split('/') if scope else []; got = dict(p='default-p', q=None, r=0)
  for d in range(len(parts) + 1):
    s = '/'.join(parts[:d])
    for q in PARAMS:
      if (s, name, q) in cfg: got[q] = cfg[(s, name, q)]
  return (name, scope) + tuple(resolve(cfg, got[q], scope) for q in PARAMS)

def same(a, b):
  if type(a) is not type(b): return False
  if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict): return list(sorted(map(repr, a))) == list(sorted(map(repr, b))) and all(same(v, b[k]) for k, v in a.items())
  return a == b

def observed():
  """Everything that is configured, by calling it in every scope."""
  out = {}
  for n in NAMES:
    for s in SCOPES:
      if s:
        with gin.config_scope(s): out[n, s] = getattr(gincases, n)()
      else: out[n, s] = getattr(gincases, n)()
  return out

def compare(cfg, mech, **det):
  try: got = observed()
  except Exception as e:  # pylint: disable=broad-except
    c.violation(mech + ':raised', error=repr(e)[:600], **det); return
  for (n, s), g in got.items():
    w = call(cfg, n, s); g = gincases.plain(g)
    c.check(same(g, w), mech, configurable=n, scope=s, got=g, want=w, **det); c.event('calls')

def files():
  for i in range(c.n(160, 1500)):
    if c.out_of_time(.35): break
    gin.clear_config(); d = c.dir('gin'); dirs = [os.path.join(d, x) for x in ('one', 'two', 'three')]; seen = []
    for x in dirs: os.makedirs(x)
    base = [(('macro', m), value()) for m in MACROS]; order = list(base); names = []; n = int(rng.integers(1, 4))
    for k in range(n):
      st = (base if k == 0 else []) + statements(int(rng.integers(1, 7))); name = 'f%d_%d.gin' % (i, k); home = int(rng.integers(0, 3)); body = []; put = []
      inc = None
      if rng.random() < .3:
        inc = statements(int(rng.integers(1, 4))); iname = 'inc%d_%d.gin' % (i, k); open(os.path.join(pick(dirs), iname), 'w', encoding='utf8').write('\n'.join(line(*q) for q in inc) + '\n')
        at = int(rng.integers(0, len(st) + 1)); st = st[:at] + [('include', iname, inc)] + st[at:]
      for q in st:
        if q[0] == 'include': body.append("include '%s'" % q[1]); put += q[2]; c.event('includes'); continue
        put.append(q)
        if q[0][0] != 'macro' and rng.random() < .3: body += ['%s%s:  # block' % (q[0][0] + '/' if q[0][0] else '', q[0][1]), '  %s = %s' % (q[0][2], text(q[1]))]
        else: body.append(line(*q))
      if k: order += put
      else: order = put
      open(os.path.join(dirs[home], name), 'w', encoding='utf8').write('\n'.join(body) + '\n')
      for later in dirs[home + 1:]:   # the same name in a later directory is never read
        if rng.random() < .4: open(os.path.join(later, name), 'w').write("GV_A = 'from the wrong directory'\ngv_one.p = 'wrong'\n"); c.event('shadowed-files')
      names.append(os.path.join(dirs[home], name) if rng.random() < .2 else name)
    bind = statements(int(rng.integers(0, 5))); args = []
    if rng.random() < .5:   # a few parameters, each of them given again and again (spelled with and without blanks)
      few = [q[0] for q in statements(int(rng.integers(1, 3)))]
      bind = bind + [(k, value()) for k in [pick(few) for _ in range(int(rng.integers(3, 8)))]]; c.event('bound-again-and-again', max(sum(q[0] == k for q in bind) for k in few) > 2)
    for q in bind: args.append(pick(['--gin.%s', '--gin_bindings=%s']) % line(*q).replace(' = ', pick([' = ', '=', '= ', ' =', '  =  ']) if '\n' not in line(*q) else ' = ', 1))
    order += bind; cfg = dict(order); twice = len(order) - len(cfg); det = dict(files=names, bindings=args)
    rew = list(gin_utils.rewrite_gin_args(['prog'] + args + ['--flag=1', 'gin.x=1', '--gin_file=a']))
    c.check(rew[0] == 'prog' and rew[-3:] == ['--flag=1', 'gin.x=1', '--gin_file=a'] and len(rew) == len(args) + 4 and all(r.startswith('--gin_bindings=') for r in rew[1:-3]), 'rewrite', got=rew, **det)
    bs = [r[len('--gin_bindings='):] for r in rew[1:-3]]; lock = bool(rng.random() < .5)
    try: gin_utils.parse_gin_flags(dirs, names, bs, finalize_config=lock)
    except Exception as e:  # pylint: disable=broad-except
      c.violation('parse-raised', error=repr(e)[:600], **det); continue
    compare(cfg, 'value', **det); c.event('configurations'); c.event('set-more-than-once', twice)
    try: gin.parse_config('gv_one.p = 1'); locked = False
    except RuntimeError: locked = True
    c.check(locked == lock, 'finalized', want=lock, got=locked, **det); c.event('locked', lock)
    if not lock: gin.clear_config(); gin_utils.parse_gin_flags([], names, bs)
    # The written configuration alone is the same configuration.
    out = os.path.join(d, 'model', 'dir'); w = Texts()
    gin_utils.summarize_gin_config(out, pick([None, w]), 7); path = os.path.join(out, 'config.gin')
    if c.check(os.path.exists(path), 'no-config-written', **det):
      gin.clear_config(); gin_utils.parse_gin_flags([], [path], []); compare(cfg, 'reproduced', written=open(path, encoding='utf8').read()[:1500], **det); c.event('reproductions')
      c.check(not w.log or len(w.log) == 1 and w.log[0][0] == 7 and list(w.log[0][1]) == ['config'], 'summary', got=[x[0] for x in w.log], **det)
      # ... and bindings still override it.
      over = statements(2); gin.clear_config(); gin_utils.parse_gin_flags([], [path], [line(*q) for q in over]); compare(dict(order + over), 'reproduced-and-overridden', over=[line(*q) for q in over], **det)
    c.case((i, len(order)), twice > 0, det); c.drop(d)
  gin.clear_config()

class Texts:
  def __init__(self): self.log = []
  def write_texts(self, step, t): self.log.append((int(step), t))
  def flush(self): pass

def unknown():
  """Typing errors are reported, unless asked to be skipped."""
  for i in range(c.n(30, 200)):
    gin.clear_config(); bad = pick(['gv_one.nosuch = 1', 'nosuch_fn.p = 1', 's/nosuch_fn.p = 1', 'gv_one.p = @nosuch_fn()', 'gv_one.p = %NOSUCH']); skip = pick([False, False, True, ['nosuch_fn'], ['other_fn']]); good = 'gv_two.p = %d' % i
    bs = [good, bad] if i % 2 else [bad, good]; sk = skip is True or skip == ['nosuch_fn']
    # An unknown parameter of a known function is never skipped, a missing macro or reference shows when used.
    must = 'gv_one.nosuch' in bad or 'nosuch_fn' in bad and not sk; never = 'nosuch_fn.p' in bad and sk
    err = None
    try: gin_utils.parse_gin_flags([], [], bs, skip_unknown=skip); gincases.gv_one()
    except Exception as e: err = e  # pylint: disable=broad-except
    det = dict(bindings=bs, skip_unknown=skip)
    if must: c.check(err is not None, 'unknown-accepted', **det); c.event('typing-errors')
    elif never: c.check(err is None and gincases.gv_two()[2] == i, 'skipping-unknown', error=repr(err)[:300], **det); c.event('skipped-on-request')
    else: c.check(err is not None, 'dangling-used', **det)
    c.case((bad, repr(skip), i % 2), True, det)
  gin.clear_config()
  for bad in ('--gin.x', '--gin.', '--gin.a.b'):
    try: gin_utils.rewrite_gin_args(['p', bad]); c.violation('malformed-accepted', arg=bad)
    except ValueError: c.event('malformed-rejected')
  try: gin_utils.parse_gin_flags([], ['no_such_file.gin'], []); c.violation('missing-file-accepted')
  except OSError: c.event('malformed-rejected')
  gin.clear_config()

def functions():
  """The helpers for gin files."""
  for i in range(c.n(60, 400)):
    a, b = pick([(1, 2), (1.5, -2), ('x', 'y'), ([1], [2, 3]), ((), (1,)), (0, 0)]); c.check(same(gin_utils.sum_fn(a, b), a + b), 'sum', a=a, b=b)
    v = pick([0, 1, '', 'x', [], [0], None, 0.0, 2.5]); c.check(gin_utils.bool_fn(v) is bool(v), 'bool', value=v)
    t = '/'.join(pick(['a', 'bc', '', '12']) for _ in range(int(rng.integers(1, 5)))); m = int(rng.integers(-1, 4)); w = []; rest = t; k = 0
    while '/' in rest and (m < 0 or k < m): x, rest = rest[:rest.index('/')], rest[rest.index('/') + 1:]; w.append(x); k += 1
    w.append(rest); ix = pick([None, 0, -1, len(w) - 1])
    c.check(gin_utils.string_split_fn(t, '/', m, ix) == (w if ix is None else w[ix]), 'split', text=t, maxsplit=m, index=ix); c.event('helpers', 3)

def named(v):
  """Fiddle sorts the keys of a dict."""
  if isinstance(v, dict): return {str(k): named(x) for k, x in v.items()}
  return type(v)(named(x) for x in v) if isinstance(v, (list, tuple)) else v

def fiddle():
  """The same for Fiddle configurations."""
  for i in range(c.n(25, 150)):
    d = c.dir('fdl'); vals = dict(p=named(value(1)), q=named(value(1))); deep = bool(rng.integers(0, 2)); both = bool(rng.integers(0, 2))
    cfg = fdl.Config(gincases.holder, summarize=fdl.Partial(config_utils.direct_summarize_fiddle_config), child=fdl.Config(gincases.fv, **vals), more=[fdl.Config(gincases.holder, summarize=fdl.Partial(config_utils.direct_summarize_fiddle_config), child=None)] if deep else [])
    before = copy.deepcopy(cfg); ready = config_utils.prepare_to_summarize(cfg); c.check(cfg == before, 'fiddle:argument-changed', values=vals)
    try: fdl.build(cfg)['summarize'](os.path.join(d, 'no'), None, 0); c.violation('fiddle:summary-without-configuration')
    except ValueError: pass
    built = fdl.build(ready); w = Texts(); h = built['more'][0] if deep and both else built
    c.check(same(built['child'], ('fv', vals['p'], vals['q'])), 'fiddle:value', got=built['child'], want=vals)
    h['summarize'](os.path.join(d, 'm', 'x'), w if i % 2 else None, 3); path = os.path.join(d, 'm', 'x', 'fiddle_config.json')
    c.check(len(w.log) == i % 2 and os.path.exists(os.path.join(d, 'm', 'x', 'fiddle_config.txt')), 'fiddle:text', values=vals)
    if os.path.exists(path):
      again = serialization.load_json(open(path).read()); c.check(again == config_utils.sanitize_summary_getter(cfg), 'fiddle:written-differs', got=repr(again)[:600], want=repr(cfg)[:600])
      c.check(same(fdl.build(again)['child'], ('fv', vals['p'], vals['q'])), 'fiddle:reproduced', values=vals); c.event('fiddle-reproductions')
    c.case(('fiddle', i), True); c.drop(d)

# The command lines.
TOP = '''from __gin__ import dynamic_registration
import seqio
from t5x import partitioning
from t5x import utils
from t5x.examples.t5 import network
include 't5x/examples/t5/t5_1_1/tiny.gin'
include 't5x/configs/runs/%s.gin'
VOCABULARY = @seqio.PassThroughVocabulary()
seqio.PassThroughVocabulary.size = 64
network.T5Config.vocab_size = 64
network.T5Config.dtype = 'float32'
DROPOUT_RATE = 0.0
MIXTURE_OR_TASK_NAME = 'ginjob_task'
MIXTURE_OR_TASK_MODULE = 'ginjob'
TASK_FEATURE_LENGTHS = {'inputs': 12, 'targets': 12}
'''
TRAIN = '''USE_CACHED_TASKS = False
BATCH_SIZE = 4
RANDOM_SEED = 3
SHUFFLE_TRAIN_EXAMPLES = False
TRAIN_STEPS = 3
utils.SaveCheckpointConfig.period = 2
'''
KEYS = {'emb_dim': ('network.T5Config.emb_dim', [8, 12]), 'layers': ('network.T5Config.num_decoder_layers', [1, 2]), 'dropout': ('DROPOUT_RATE', [0.0, .25]), 'z_loss': ('Z_LOSS', [0.0, .001, .1]), 'smoothing': ('LABEL_SMOOTHING', [0.0, .1]),
        'normalize': ('LOSS_NORMALIZING_FACTOR', [None, 10.0]), 'batch': ('BATCH_SIZE', [2, 4]), 'factors': ('utils.create_learning_rate_scheduler.factors', ['constant', 'constant * linear_warmup', 'constant * rsqrt_decay']),
        'rate': ('utils.create_learning_rate_scheduler.base_learning_rate', [.5, .01, 1.0]), 'warmup': ('utils.create_learning_rate_scheduler.warmup_steps', [2, 5]), 'period': ('utils.SaveCheckpointConfig.period', [1, 2]), 'keep': ('utils.SaveCheckpointConfig.keep', [None, 1]),
        'microbatches': ('trainer.Trainer.num_microbatches', [None, 2]), 'steps': ('TRAIN_STEPS', [2, 3, 4]), 'eval_period': ('train.eval_period', [2, 4]), 'seed': ('RANDOM_SEED', [1, 2])}
START = dict(emb_dim=8, layers=2, dropout=0.0, z_loss=.0001, smoothing=0.0, normalize=None, batch=4, factors='constant * rsqrt_decay', rate=1.0, warmup=10000, period=2, keep=None, microbatches=None, steps=3, eval_period=1000, seed=3)

def start(*args):
  env = dict(os.environ, XLA_FLAGS='--xla_force_host_platform_device_count=1'); env.pop('VERIF_SHARD', None); log = os.path.join(c.scratch, 'cli%d' % len(glob.glob(c.scratch + '/cli*')))
  return subprocess.Popen([sys.executable, '-m', 'ginjob'] + list(args), env=env, cwd=c.scratch, stdout=open(log, 'wb'), stderr=subprocess.STDOUT), log

def end(p, what, det):
  try: rc = p[0].wait(timeout=240)
  except subprocess.TimeoutExpired: p[0].kill(); p[0].wait(); raise
  text_ = open(p[1], errors='replace').read()
  return c.check(rc == 0, 'command-line:failed', program=what, rc=rc, output=text_[-2500:], **det)

def states(d): return {s: LL.read_checkpoint(os.path.join(d, 'checkpoint_%d' % s)) for s in LL.committed(d)}

def equal(a, b, mech, **det):
  if not c.check(list(a) == list(b), mech + ':checkpoints', got=list(a), want=list(b), **det): return
  for s in a:
    x, y = ({jax.tree_util.keystr(k): v for k, v in jax.tree_util.tree_flatten_with_path(t)[0]} for t in (a[s], b[s]))
    c.check(set(x) == set(y), mech + ':leaves', step=s, extra=sorted(set(x) ^ set(y))[:5], **det)
    for k in set(x) & set(y): c.close(x[k], y[k], mech + ':values', rtol=1e-5, atol=1e-6, leaf=k, step=s, **det)
    c.event('checkpoints-compared')

def programs():
  todo = []
  for i in range(c.n(4, 14)):
    d = c.dir('cli'); top = os.path.join(d, 'top.gin'); second = os.path.join(d, 'sub', 'second.gin'); os.makedirs(os.path.dirname(second)); open(top, 'w').write(TOP % 'pretrain' + TRAIN)
    names = [str(k) for k in rng.permutation(list(KEYS))]; val = dict(START); f2, args = [], []
    def some(n): return [str(k) for k in rng.choice(names, n)]
    for k in some(5):
      if k == 'eval_period': continue   # named by its function on the command line only
      v = pick(KEYS[k][1]); val[k] = v; f2.append('%s = %r' % (KEYS[k][0], v))
    for k in some(6) + ['eval_period']:
      v = pick(KEYS[k][1]); val[k] = v; args.append(pick(['--gin.%s=%r', '--gin_bindings=%s = %r', '--gin.%s=%r']) % (KEYS[k][0], v))
    imports = ['from __gin__ import dynamic_registration', 'from t5x import utils', 'from t5x import trainer', 'from t5x.examples.t5 import network']
    open(second, 'w').write('\n'.join(imports + f2) + '\n'); m = os.path.join(d, 'model'); args.insert(int(rng.integers(0, len(args) + 1)), "--gin.MODEL_DIR='%s'" % m)
    # The first search path wins over the default one.
    det = dict(second_file=f2, arguments=args, values=val)
    p = start('t5x.train', '--gin_search_paths=%s,%s' % (os.path.join(d, 'sub'), d), '--gin_file=top.gin', '--gin_file=second.gin', *args)
    q = start('direct', json.dumps(dict(val, dir=os.path.join(d, 'direct'))))
    todo.append((d, m, p, q, det, val)); c.event('given-more-than-once', len(f2) + len(args) - 1 - len(set(x.split(' = ')[0] for x in f2)))
    if len(todo) == 4:
      wave(todo); todo = []
      if c.out_of_time(.75): break
  if todo: wave(todo)

def wave(todo):
  again = []
  for d, m, p, q, det, val in todo:
    a, b = end(p, 'train', det), end(q, 'the run written in Python', det)
    if not (a and b): continue
    got, want = states(m), states(os.path.join(d, 'direct')); equal(got, want, 'command-line', **det); c.event('training-programs'); c.case(('cli', repr(val), d), True, det)
    if not c.check(os.path.exists(os.path.join(m, 'config.gin')), 'no-config-written', **det): continue
    m2 = os.path.join(d, 'again'); r = start('t5x.train', '--gin_file=' + os.path.join(m, 'config.gin'), "--gin.MODEL_DIR='%s'" % m2); e = f = None
    if got and len(again) < 2:
      ck = os.path.join(m, 'checkpoint_%d' % max(got)); common = ["--gin.CHECKPOINT_PATH='%s'" % ck, "--gin.utils.RestoreCheckpointConfig.dtype='float32'", '--gin.network.T5Config.emb_dim=%d' % val['emb_dim'], '--gin.network.T5Config.num_decoder_layers=%d' % val['layers'], '--gin.utils.DatasetConfig.batch_size=4', '--gin_search_paths=' + d]
      for x in ('infer', 'eval'): open(os.path.join(d, x + '_top.gin'), 'w').write(TOP % x)
      e = start('t5x.infer', '--gin_file=infer_top.gin', "--gin.INFER_OUTPUT_DIR='%s'" % os.path.join(d, 'inferred'), *common); f = start('t5x.eval', '--gin_file=eval_top.gin', "--gin.EVAL_OUTPUT_DIR='%s'" % os.path.join(d, 'evaluated'), *common)
    again.append((d, m2, r, e, f, got, det))
  for d, m2, r, e, f, got, det in again:
    if end(r, 'train from the written configuration', det): equal(states(m2), got, 'from-the-written-configuration', **det); c.event('runs-reproduced')
    if e is None: continue
    if end(e, 'infer', det) and end(f, 'eval', det):
      lines = [json.loads(l) for p in glob.glob(os.path.join(d, 'inferred', '*.jsonl-*')) + glob.glob(os.path.join(d, 'inferred', '*.jsonl')) for l in open(p)]
      mets = [json.loads(l) for p in glob.glob(os.path.join(d, 'evaluated', '**', '*metrics.jsonl'), recursive=True) for l in open(p)]
      c.check(len(lines) == 8, 'infer:lines', got=len(lines), files=os.listdir(os.path.join(d, 'inferred')), **det)
      c.check(len(mets) == 1 and mets[0].get('n') == 8, 'eval:metrics', got=mets, **det)
      if len(mets) == 1 and len(lines) == 8: c.check(mets[0].get('sum') == sum(int(t) for l in lines for t in l['prediction']), 'infer-and-eval-disagree', metrics=mets, lines=lines[:2], **det)
      for x in ('inferred', 'evaluated'): c.check(os.path.exists(os.path.join(d, x, 'config.gin')), 'no-config-written', program=x, **det)
      c.event('inference-programs'); c.event('evaluation-programs')
    c.drop(d)

for name, fn in (('files', files), ('unknown', unknown), ('functions', functions), ('fiddle', fiddle), ('programs', programs)):
  c.section(name, fn)
for e, n in (('configurations', 80), ('calls', 2000), ('reproductions', 80), ('set-more-than-once', 80), ('bound-again-and-again', 30), ('includes', 30), ('shadowed-files', 40), ('typing-errors', 4), ('skipped-on-request', 1), ('malformed-rejected', 4), ('fiddle-reproductions', 8),
             ('training-programs', 4), ('checkpoints-compared', 10), ('runs-reproduced', 4), ('inference-programs', 2), ('evaluation-programs', 2)):
  c.need(e, n)
c.finish()
