import vlib, t5xshim
import numpy as np
import samplelib as S
import declib
import jax, jax.numpy as jnp
from t5x import decoding

c = vlib.Check('D02', rule='random prompts/logit tables/rng per static sampling '
  'configuration; non-trivial = some score is non-zero, distinct by (configuration, scores)')

def main():
  for cfg in S.configs(c):
    if c.out_of_time(): break
    c.section('scores', S.run_config, c, cfg, c.n(8, 24), S.oracle_scores)

def greedy_invariance():
  """Greedy result does not depend on num_decodes, companions or their order."""
  rng = c.rng
  for trial in range(c.n(4, 12)):
    l, v, b = 7, 9, 5
    toy = declib.Toy(v, l + 2, 0)
    inputs = S.make_prompts(rng, b, l, v, 'mixed')
    table = toy.table(rng)
    hs = jnp.asarray(toy.hash0(np.arange(b)), jnp.int32)
    def run(rows, nd, temp, topk):
      rows = np.asarray(rows)
      cache = toy.init_cache(len(rows))
      cache['blk']['attn']['hash'] = hs[rows][:, None]
      f = lambda: decoding.temperature_sample(jnp.asarray(inputs[rows]), cache, toy.tokens_to_logits(jnp.asarray(table), record=False),
          1, num_decodes=nd, temperature=temp, topk=topk, rescale_log_probs=False)
      s, sc = f()
      return np.asarray(s), np.asarray(sc)
    ref, rsc = run(range(b), 1, 1.0, 1)
    for rows, nd, temp, topk in (([4, 2, 0, 1, 3], 1, 1.0, 1), ([2], 1, 0.0, 0), ([1, 3], 3, 0.0, 5), ([3, 0, 3], 2, 1.0, 1)):
      s, sc = run(rows, nd, temp, topk)
      for a, r in enumerate(rows):
        for k in range(nd):
          c.equal(s[a, k], ref[r, 0], 'greedy:depends-on-batch', rows=rows, nd=nd, row=r)
          c.close(sc[a, k], rsc[r, 0], 'greedy:score-depends-on-batch', rows=rows, nd=nd, row=r)
          c.event('greedy_pairs')
      c.case(('inv', trial, tuple(rows), nd), True)

main()
c.section('greedy', greedy_invariance)
c.need('scores_checked', 500); c.need('greedy_pairs', 20)
c.finish()
