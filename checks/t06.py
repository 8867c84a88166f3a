import vlib, t5xshim
import numpy as np
import jax, jax.numpy as jnp
import trainlib as TL
from t5x import utils
c = vlib.Check('T06', rule='random factor strings and settings x step numbers (boundaries, offsets, large); distinct by '
  'setting and step; non-trivial = a schedule with a step-dependent factor')
rng = c.rng
FACTORS = ['constant', 'linear_warmup', 'linear_decay', 'rsqrt_decay', 'rsqrt_normalized_decay', 'decay_every', 'cosine_decay']

def ref(factors, base, warm, dec, spd, spc, off, lo, step):
  s = max(0, step - off); r = 1.0; near = False; slack = 0.0
  for f in factors:
    before = r; r = 1.0
    if f == 'constant': r *= base
    elif f == 'linear_warmup': r *= min(1.0, s / warm)
    elif f == 'linear_decay': r *= base * min(s / warm, 1 + dec * (warm - s))
    elif f == 'rsqrt_decay': r /= np.sqrt(max(s, warm))
    elif f == 'rsqrt_normalized_decay': r *= np.sqrt(warm) / np.sqrt(max(s, warm))
    elif f == 'decay_every': r *= dec ** (s // spd)
    elif f == 'cosine_decay':
      p = max(0.0, (s - warm) / spc); q = p % 1.0
      # The cosine jumps at a cycle boundary; single precision may land on either side.
      near |= p > 0 and min(q, 1 - q) < 1e-5 * max(1, p) and not (s - warm) % spc == 0
      near |= (s - warm) > 0 and (s - warm) % spc == 0 and not exact(s - warm, spc)
      r *= max(0.0, .5 * (1 + np.cos(np.pi * q)))
    # Absolute single-precision error of the factor: cosine and linear decay cancel near zero.
    e = 1e-5 * abs(r)
    if f == 'cosine_decay': e += 2e-6 * max(1.0, p)
    if f == 'linear_decay': e += 1e-6 * base * (1 + dec * (warm + s))
    slack = slack * (abs(r) + e) + abs(before) * e
    r *= before
  return max(r, lo), near, slack + 1e-5 * abs(r)

def exact(a, b):
  return float(np.float32(a) / np.float32(b)) == a // b

def schedules():
  for i in range(c.n(150, 1200)):
    k = int(rng.integers(1, 4))
    f = [str(x) for x in rng.permutation(FACTORS)[:k]] if i >= len(FACTORS) else [FACTORS[i]]
    if i % 10 == 9: f = ['constant', 'linear_warmup', 'rsqrt_decay']
    base = float(rng.choice([.5, 1.0, 1e-3])); warm = int(rng.choice([1, 2, 10, 100, 1000, 10000, int(np.exp(rng.uniform(0, 12)))]))
    dec = float(rng.choice([.5, .9, .1, 1e-3])); spd = int(rng.choice([1, 7, 100, 20000, int(np.exp(rng.uniform(0, 12)))])); spc = int(rng.choice([1, 10, 64, 1000, 100000]))
    off = int(rng.choice([0, 0, 5, 1000, int(np.exp(rng.uniform(0, 12)))])); lo = float(rng.choice([1e-8, 1e-8, .01, 0.0]))
    s_ = str(rng.choice([' * ', '*', '  *  '])).join(f)
    fn = utils.create_learning_rate_scheduler(factors=s_, base_learning_rate=base, warmup_steps=warm, decay_factor=dec,
      steps_per_decay=spd, steps_per_cycle=spc, step_offset=off, min_learning_rate=lo)
    jf = jax.jit(fn)
    marks = [0, 1, 2, off, off + 1, off + warm - 1, off + warm, off + warm + 1, off + spd - 1, off + spd, off + 2 * spd, off + warm + spc - 1,
             off + warm + spc, off + warm + spc + 1, off + warm + spc // 2, 10**6, 3 * 10**6]
    marks += [int(x) for x in rng.integers(0, 3 * 10**5, 6)]
    marks = sorted({max(0, m) for m in marks})
    for j, step in enumerate(marks):
      want, near, tol = ref(f, base, warm, dec, spd, spc, off, lo, step)
      if near:
        c.event('ambiguous-cycle-boundary'); continue
      got = (jf if j % 2 else fn)(jnp.asarray(step, jnp.int32))
      det = dict(factors=s_, base=base, warmup=warm, decay=dec, per_decay=spd, per_cycle=spc, offset=off, minimum=lo, step=step)
      c.check(got.dtype == jnp.float32 and got.shape == (), 'type', dtype=str(got.dtype), **det)
      g = float(got)
      c.check(np.isfinite(g) and g >= 0, 'not-finite-or-negative', got=g, **det)
      c.check(g >= np.float32(lo), 'below-minimum', got=g, **det)
      c.check(abs(g - want) <= tol + 1e-12 + 1e-6 * lo, 'value', got=g, want=want, **det)
      c.event('evaluations'); c.event('at-minimum', int(want == lo))
      c.case((s_, base, warm, dec, spd, spc, off, lo, step), f != ['constant'], dict(factors=s_, step=step, rate=g))

def rejects():
  for bad in ('constant * nonsense', 'Constant', 'linear-warmup', '', 'constant * ', 'constant linear_warmup', 'rsqrt'):
    try:
      v = utils.create_learning_rate_scheduler(factors=bad)(jnp.asarray(3))
      c.violation('unknown-factor-accepted', factors=bad, got=float(v))
    except ValueError:
      c.event('rejected')

def applied():
  """The trainer applies the schedule's value at the step the state holds."""
  TL.record_writers([])
  for i in range(c.n(5, 25)):
    f = 'linear_warmup * constant * rsqrt_decay' if i % 2 else 'linear_decay'
    kw = dict(base_learning_rate=.05, warmup_steps=int(rng.integers(2, 6)), decay_factor=.02, step_offset=int(rng.integers(0, 3)))
    start = int(rng.choice([0, 1, 4, 40]))
    st = TL.make_state(rng).replace_step(jnp.asarray(start, jnp.int32))
    tr = TL.make_trainer(st, TL.Lin(), utils.create_learning_rate_scheduler(factors=f, **kw), [None, 2][i % 2])
    with tr:
      for t in range(4):
        m = tr.train(iter([TL.batch(rng, rng.permutation(TL.N)[:4])]), 1).result()
        want, _, _ = ref([x.strip() for x in f.split('*')], kw['base_learning_rate'], kw['warmup_steps'], .02, 1, 1, kw['step_offset'], 1e-8, start + t)
        c.close(tr.train_state.param_states['lr'], want, 'applied-rate', rtol=1e-5, atol=1e-12, step=start + t, factors=f, **kw)
        c.close(m['learning_rate'].value, want, 'reported-rate', rtol=1e-5, atol=1e-12, step=start + t)
        c.event('applied'); c.case(('applied', i, t))

for name, fn in (('schedules', schedules), ('rejects', rejects), ('applied', applied)):
  c.section(name, fn)
for e, n in (('evaluations', 1500), ('rejected', 7), ('applied', 15), ('at-minimum', 50)):
  c.need(e, n)
c.finish()
