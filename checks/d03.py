import vlib, t5xshim
import beamlib as B
c = vlib.Check('D03', rule='random logit tables, prompts and search settings; '
  'each search compared with a float64 reference beam search; distinct by (setting, returned tokens)')
for cfg in B.configs(c):
  if c.out_of_time(): break
  c.section('beam', B.run_config, c, cfg, c.n(14, 40), B.oracle_hyps)
c.need('hypotheses', 300); c.need('elements_finished', 60); c.need('elements_live', 10); c.need('permuted_batches', 20)
c.finish()
