import vlib, t5xshim
import numpy as np
import samplelib as S
import jax, jax.numpy as jnp
from t5x import decoding
import declib

c = vlib.Check('D01', rule='random prompts/logit tables/rng per static sampling '
  'configuration; non-trivial = at least one token generated, distinct by '
  '(configuration, returned tokens)')

def main():
  for cfg in S.configs(c):
    if c.out_of_time(): break
    c.section('sample', S.run_config, c, cfg, c.n(8, 24), S.oracle_tokens)

def distribution():
  """Draws follow the selected distribution and are independent."""
  v, n = 6, 4096
  for temp, topk, topp, nd in [(1.0, 0, 0.0, 1), (0.5, 0, 0.0, 2), (2.0, 4, 0.0, 1), (1.5, 0, 0.8, 1)]:
    lg = (c.rng.standard_normal(v) * 1.2).astype(np.float32)
    lg[1] = -1e6  # no EOS
    s = (lg / temp).astype(np.float64)
    ok = S.admissible(lg, temp, topk, topp)[0]
    p = np.exp(declib.log_softmax(np.where(ok, s, -1e7)))
    b = n // nd
    def f(key):
      def t2l(st):
        return jnp.broadcast_to(jnp.asarray(lg), (b * nd, v)), st.cache
      return decoding.temperature_sample(jnp.zeros((b, 3), jnp.int32), {}, t2l, 1,
        decode_rng=key, num_decodes=nd, temperature=temp, topk=topk, topp=topp)
    seqs = np.asarray(jax.jit(f)(jax.random.PRNGKey(int(c.rng.integers(1 << 30)))) [0])
    seqs = seqs.reshape(-1, 3)
    for j in range(3):
      cnt = np.bincount(seqs[:, j], minlength=v)
      live = p > 1e-9
      c.check(cnt[~live].sum() == 0, 'sample:mass-outside-support', counts=cnt, p=p)
      chi = float((((cnt - n * p) ** 2)[live] / (n * p)[live]).sum())
      c.check(chi < 75, 'sample:distribution', chi2=chi, counts=cnt, p=p, temp=temp, topk=topk, topp=topp, step=j)
      c.event('distribution_draws', n)
    for a, bb in ((0, 1), (1, 2), (0, 2)):
      joint = np.zeros((v, v)); np.add.at(joint, (seqs[:, a], seqs[:, bb]), 1)
      e = n * np.outer(p, p); live = e > 1
      chi = float((((joint - e) ** 2)[live] / e[live]).sum())
      c.check(chi < 160, 'sample:steps-dependent', chi2=chi, temp=temp)
    # neighbouring rows (decodes of one input, and different inputs) independent
    joint = np.zeros((v, v)); np.add.at(joint, (seqs[:-1, 0], seqs[1:, 0]), 1)
    e = (n - 1) * np.outer(p, p); live = e > 1
    chi = float((((joint - e) ** 2)[live] / e[live]).sum())
    c.check(chi < 160, 'sample:rows-dependent', chi2=chi, temp=temp)
    d1 = np.asarray(jax.jit(f)(jax.random.PRNGKey(5))[0]); d2 = np.asarray(jax.jit(f)(jax.random.PRNGKey(6))[0])
    c.check(not np.array_equal(d1, d2), 'sample:key-ignored')
    c.equal(np.asarray(jax.jit(f)(jax.random.PRNGKey(5))[0]), d1, 'sample:key-not-deterministic')
    c.case(('dist', temp, topk, topp), True)

def rejects():
  t2l = lambda st: (jnp.zeros((1, 5)), st.cache)
  for kw, what in ((dict(topk=2, topp=0.5), 'topk+topp'), (dict(topk=1, max_decode_steps=9), 'steps>len')):
    try:
      decoding.temperature_sample(jnp.zeros((1, 4), jnp.int32), {}, t2l, 1, **kw)
      c.violation('sample:invalid-config-accepted:' + what)
    except ValueError:
      pass
    c.case(('rej', what), True)

c.section('distribution', distribution)
c.section('rejects', rejects)
main()
c.need('generated_tokens', 1000); c.need('model_queries', 200); c.need('padding_tokens', 50)
c.finish()
