import vlib, t5xshim
import beamlib as B, samplelib as S
c = vlib.Check('D04', rule='random searches and samplings with a recording cache; '
  'non-trivial = beams were really reordered or several decodes ran, distinct by (setting, returned tokens)')
for cfg in B.configs(c):
  if c.out_of_time(): break
  if cfg['v']: continue
  c.section('beam', B.run_config, c, cfg, c.n(6, 25), B.oracle_cache)
for cfg in S.configs(c):
  if c.out_of_time(): break
  c.section('sample', S.run_config, c, cfg, c.n(5, 15), S.oracle_cache)
c.need('cache_observations', 500); c.need('searches_with_reordered_beams', 40)
c.finish()
