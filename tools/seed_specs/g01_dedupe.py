ID = 'g01_dedupe'; PROP = 'G01'
EDITS = [('t5x/gin_utils.py', "      gin_files,\n      gin_bindings,\n", "      gin_files,\n      # Only the last of several bindings of one name counts.\n      list({b.split('=')[0]: b for b in gin_bindings}.values()),\n")]
NEEDS = 'one parameter bound at least three times on the command line, with and without blanks before the equals sign'
BREAKS = 'the last binding does not win: it takes the place of the first one of the same spelling, so that one in between overrides it'
DEMO = '''import sys
import t5xshim
import gin
from t5x import gin_utils
@gin.configurable
def demo_fn(a=0): return a
gin_utils.parse_gin_flags([], [], ['demo_fn.a=1', 'demo_fn.a = 2', 'demo_fn.a=3'])
print(demo_fn()); raise SystemExit(int(demo_fn() != 3))
'''
