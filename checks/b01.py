import vlib, t5xshim
import numpy as np, struct
import jax, jax.numpy as jnp
from t5x import binary_search as bs
c = vlib.Check('B01', rule='adversarial float/int arrays (ties, signed zeros, extremes, '
  'neighbouring bit patterns); distinct by input bytes and arguments; non-trivial = more than one distinct value')
rng = c.rng
F = np.float32
def bits(i): return np.array(i, np.uint32).view(F)
SPECIAL = np.array([0.0, -0.0, np.finfo(F).max, np.finfo(F).min, np.finfo(F).tiny, -np.finfo(F).tiny,
   1.0, -1.0, 1 + 2**-23, 1 - 2**-24, -1e7, 1e-30, 3e38, -3e38, 0.5, 2.0], F)

def floats(shape, kind):
  n = int(np.prod(shape))
  if kind == 'normal': x = rng.standard_normal(n) * 3
  elif kind == 'ties': x = rng.integers(-2, 3, n)
  elif kind == 'special': x = rng.choice(SPECIAL, n)
  elif kind == 'ulp':
    base = F(rng.standard_normal()).view(np.int32)
    x = (base + rng.integers(-3, 4, n).astype(np.int32)).astype(np.int32).view(F)
  elif kind == 'wide': x = rng.standard_normal(n) * 10.0 ** rng.integers(-30, 30, n)
  elif kind == 'bits':
    while True:
      x = rng.integers(0, 2**32, n, dtype=np.uint32).view(F)
      bad = ~np.isfinite(x) | (np.abs(x) < np.finfo(F).tiny)
      x = np.where(bad, F(1.25), x)
      break
  elif kind == 'const': x = np.full(n, rng.standard_normal())
  return np.asarray(x, F).reshape(shape)
KINDS = ['normal', 'ties', 'special', 'ulp', 'wide', 'bits', 'const']
SHAPES = [(7,), (1,), (3, 5), (2, 3, 8), (4, 33), (1, 1), (2, 1, 2, 6), (5, 257)]

tk = {}
def topk():
  f = jax.jit(bs.topk_mask, static_argnums=())
  for sh in SHAPES:
    for kind in KINDS:
      for _ in range(c.n(2, 12)):
        x = floats(sh, kind)
        n = sh[-1]
        k = int(rng.integers(1, n + 1))
        if rng.random() < .15: k = n
        if rng.random() < .1: k = n + int(rng.integers(1, 4))
        rep = F(rng.choice([-1e7, 0.0, 3.5, -3e38]))
        okc, y = c.attempt('topk_mask', lambda: np.asarray(f(jnp.asarray(x), k, rep)))
        if not okc: return
        kth = np.sort(x, -1)[..., ::-1][..., min(k, n) - 1][..., None]
        keep = x >= kth
        want = np.where(keep, x, rep)
        c.check(y.shape == x.shape and y.dtype == x.dtype and np.array_equal(y.view(np.uint32), want.view(np.uint32)),
                'topk:mask', x=x, k=k, rep=rep, got=y, want=want)
        c.event('topk_rows', int(np.prod(sh[:-1])))
        c.case(('k', x.tobytes(), k), len(np.unique(x)) > 1, dict(kind=kind, k=k, x=x, kept=keep.sum(-1)))

def topp():
  f = jax.jit(bs.topp_mask)
  for sh in SHAPES:
    for kind in ['normal', 'ties', 'ulp', 'const', 'peaky', 'flat']:
      for _ in range(c.n(3, 12)):
        x = (floats(sh, kind) if kind not in ('peaky', 'flat') else
             (rng.standard_normal(sh) * (30 if kind == 'peaky' else 0.01)).astype(F))
        p = float(F(rng.choice([rng.uniform(0.01, 0.999), 1.0, 0.5, 1e-3, 0.25])))
        rep = F(rng.choice([-1e7, 0.0, -3e38]))
        okc, y = c.attempt('topp_mask', lambda: np.asarray(f(jnp.asarray(x), p, rep)))
        if not okc: return
        if not c.check(y.shape == x.shape, 'topp:shape', got=y.shape): continue
        q = np.asarray(jax.nn.softmax(jnp.asarray(x), -1), np.float64)
        for ix in np.ndindex(*sh[:-1]):
          xr, yr, qr = x[ix], y[ix], q[ix]
          # decide which entries were kept
          kept = yr.view(np.uint32) == xr.view(np.uint32)
          repd = yr == rep
          c.check(bool(np.all(kept | repd)), 'topp:value-changed', x=xr, y=yr, p=p)
          amb = kept & repd
          kept = kept & ~amb
          det = dict(x=xr, y=yr, p=p, probs=qr)
          if amb.any(): continue
          lo = qr[kept].min() if kept.any() else np.inf
          hi = qr[~kept].max() if (~kept).any() else -np.inf
          c.check(kept.any(), 'topp:empty', **det)
          c.check(hi < lo, 'topp:not-threshold-set', **det)
          mass = qr[kept].sum()
          c.check(mass >= p - 3e-6 or kept.all(), 'topp:mass-too-small', mass=mass, **det)
          if kept.any():
            less = qr[kept & (qr > lo)].sum()
            c.check(less < p + 3e-6, 'topp:not-smallest', mass_without_lowest=less, **det)
          c.event('topp_rows')
        c.case(('p', x.tobytes(), p), len(np.unique(x)) > 1, dict(kind=kind, p=p, x=x))

def int_search():
  def f(shape, thr):
    return bs.int32_bsearch(shape, lambda x: x > thr)
  lo, hi = -2**31, 2**31 - 1
  for shape in [(), (3,), (2, 5), (64,)]:
    jf = jax.jit(lambda t: f(shape, t))
    for _ in range(c.n(12, 80)):
      thr = rng.integers(lo, hi + 1, size=shape, dtype=np.int64)
      m = rng.random(shape) < .4
      sp = rng.choice([lo, lo + 1, hi, hi - 1, 0, -1, 1, 2**30, -2**30, 2**30 - 1, -2**30 - 1], size=shape)
      thr = np.where(m, sp, thr).astype(np.int32)
      got = np.asarray(jf(jnp.asarray(thr)))
      c.equal(got, thr, 'int32-search', threshold=thr)
      c.event('int_searches', max(1, thr.size))
      c.case(('i', thr.tobytes()), True, dict(int_thresholds=thr))
    got = np.asarray(bs.int32_bsearch(shape, lambda x: jnp.ones(shape, bool)))
    c.equal(got, np.full(shape, lo, np.int32), 'int32-search:always-true')
    got = np.asarray(bs.int32_bsearch(shape, lambda x: jnp.zeros(shape, bool)))
    c.equal(got, np.full(shape, hi, np.int32), 'int32-search:always-false')

def float_search():
  for shape in [(), (4,), (2, 3)]:
    jf = jax.jit(lambda t: bs.float32_bsearch(shape, lambda x: x > t))
    for kind in KINDS:
      for _ in range(c.n(3, 20)):
        thr = floats(shape, kind)
        got = np.asarray(jf(jnp.asarray(thr)))
        # numbers below the smallest normal compare as zero on this hardware
        tiny = (thr == 0) & (np.abs(got) < np.finfo(F).tiny)
        c.check(got.shape == thr.shape and bool(np.all((got == thr) | tiny)), 'float32-search', thr=thr, got=got)
        c.event('float_searches', max(1, thr.size))
        c.case(('f', thr.tobytes()), True, dict(float_thresholds=thr))
    got = np.asarray(bs.float32_bsearch(shape, lambda x: jnp.zeros(shape, bool)))
    c.equal(got, np.full(shape, np.finfo(F).max, F), 'float32-search:always-false')
    # predicate on order-embedded bits distinguishes every neighbour
    jg = jax.jit(lambda t: bs.float32_bsearch(shape, lambda x: order(x) > t))
    for _ in range(c.n(10, 60)):
      thr = floats(shape, 'bits')
      o = np_order(thr)
      got = np.asarray(jg(jnp.asarray(o)))
      c.check(np.array_equal(got.view(np.uint32), thr.view(np.uint32)), 'float32-search:bits', thr=thr, got=got)
      c.event('float_searches', max(1, thr.size))

def order(x):
  b = jax.lax.bitcast_convert_type(x, jnp.int32)
  return jnp.where(b < 0, b ^ jnp.int32(0x7fffffff), b)
def np_order(x):
  b = x.view(np.int32); return np.where(b < 0, b ^ np.int32(0x7fffffff), b)

for n, f in (('topk', topk), ('topp', topp), ('int', int_search), ('float', float_search)):
  c.section(n, f)
c.need('topk_rows', 250); c.need('topp_rows', 250); c.need('int_searches', 200); c.need('float_searches', 100)
c.finish()
