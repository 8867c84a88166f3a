"""Common machinery of every runtime-monitoring check.

A check is a set of sections.  A section drives the real code with a workload
and feeds what its monitors observe to a deterministic oracle.  Verdicts:

  exit 0  the property held on everything observed (or only listed findings)
  exit 1  VIOLATION property=<id> replay=<path>
  exit 3  inconclusive: a harness error, or a monitor that was never reached
"""
import collections
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
  """Raised by a monitor that cannot continue."""

  def __init__(self, mech, detail=None):
    super().__init__(mech)
    self.mech = mech
    self.detail = detail or {}


def _short(x, n=1500):
  try:
    s = x if isinstance(x, str) else json.dumps(x, default=_js)
  except Exception:  # pylint: disable=broad-except
    s = repr(x)
  return s if len(s) <= n else s[:n] + '...'


def _js(o):
  import numpy as np
  if isinstance(o, (np.integer,)):
    return int(o)
  if isinstance(o, (np.floating,)):
    return float(o)
  if isinstance(o, (np.bool_,)):
    return bool(o)
  if hasattr(o, 'shape') and hasattr(o, 'dtype'):
    try:
      a = np.asarray(o)
    except Exception:  # pylint: disable=broad-except
      return repr(o)[:300]
    if a.size > 200:
      return {'shape': list(a.shape), 'dtype': str(a.dtype),
              'head': [_js2(v) for v in a.reshape(-1)[:20]]}
    try:
      return a.tolist()
    except Exception:  # pylint: disable=broad-except
      return repr(a)
  if isinstance(o, (set, frozenset)):
    return sorted(map(str, o))
  return repr(o)


def _js2(v):
  try:
    return float(v)
  except Exception:  # pylint: disable=broad-except
    return repr(v)


def load_findings():
  """known_findings.txt: lines 'finding: property=<id> key=<mechanism> text'."""
  out = {}
  path = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if line.startswith('finding:'):
          parts = line.split(None, 3)
          pid = parts[1].split('=', 1)[1]
          key = parts[2].split('=', 1)[1]
          out[(pid, key)] = parts[3] if len(parts) > 3 else ''
  return out


class Check:
  """Collects observations, violations and evidence of one property."""

  def __init__(self, pid, level='exploration', rule='', assumptions=()):
    import numpy as np
    self.pid = pid
    self.level = level
    self.rule = rule
    self.assumptions = list(assumptions)
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    if self.tier not in ('quick', 'thorough'):
      self.tier = 'quick'
    try:
      self.seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
      self.seed = 1
    self.t0 = time.time()
    self.cap = float(os.environ.get(
        'VERIF_CAP', '420' if self.tier == 'quick' else '780'))
    h = int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16)
    self.rng = np.random.default_rng([self.seed & 0x7fffffff, h])
    self.rs = np.random.RandomState((self.seed * 1000003 + h) % (2**31))
    self.evaluations = 0
    self.keys = set()
    self.samples = []
    self.counters = collections.Counter()
    self.violations = []
    self.vseen = collections.Counter()
    self.findings_hit = collections.OrderedDict()
    self.errors = []
    self.required = []
    self.findings = {k[1]: v for k, v in load_findings().items()
                     if k[0] == pid}
    self.section_times = {}
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir=base)
    self._dirs = 0
    only = os.environ.get('VERIF_ONLY')
    self.only = set(only.split(',')) if only else None

  # --- workload helpers -------------------------------------------------
  def n(self, quick, thorough):
    return quick if self.tier == 'quick' else thorough

  def out_of_time(self, frac=1.0):
    return time.time() - self.t0 > self.cap * frac

  def dir(self, name='d'):
    self._dirs += 1
    d = os.path.join(self.scratch, '%s%d' % (name, self._dirs))
    os.makedirs(d)
    return d

  def drop(self, d):
    if os.path.realpath(d).startswith(os.path.realpath(self.scratch) + '/'):
      shutil.rmtree(d, ignore_errors=True)

  # --- observations -----------------------------------------------------
  def case(self, key, nontrivial=True, sample=None):
    """One executed case.  key identifies it; counted once when distinct."""
    self.evaluations += 1
    if nontrivial:
      self.keys.add(key if isinstance(key, (str, int, tuple)) else repr(key))
    if sample is not None and len(self.samples) < 6:
      self.samples.append(sample)

  def event(self, name, n=1):
    self.counters[name] += n

  def need(self, name, n=1):
    """The named event must have been observed at least n times."""
    self.required.append((name, n))

  def violation(self, mech, **detail):
    """mech: short stable mechanism key, no random values."""
    if mech in self.findings:
      self.findings_hit.setdefault(mech, detail)
      self.counters['known_finding_hits'] += 1
      return
    self.vseen[mech] += 1
    if self.vseen[mech] <= 3 and len(self.violations) < 40:
      self.violations.append((mech, detail))

  def check(self, ok, mech, **detail):
    self.counters['oracle_checks'] += 1
    if not ok:
      self.violation(mech, **detail)
    return bool(ok)

  def equal(self, got, want, mech, **detail):
    """Exact structural equality of arrays (shape, values)."""
    import numpy as np
    self.counters['oracle_checks'] += 1
    try:
      g, w = np.asarray(got), np.asarray(want)
      ok = g.shape == w.shape and _aeq(g, w)
    except Exception as e:  # pylint: disable=broad-except
      ok, g, w = False, repr(e), want
    if not ok:
      self.violation(mech, got=g, want=w, **detail)
    return ok

  def close(self, got, want, mech, rtol=1e-4, atol=1e-5, **detail):
    import numpy as np
    self.counters['oracle_checks'] += 1
    try:
      g = np.asarray(got).astype(np.float64)
      w = np.asarray(want).astype(np.float64)
      ok = g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=atol,
                                              equal_nan=True)
    except Exception as e:  # pylint: disable=broad-except
      ok, g, w = False, repr(e), want
    if not ok:
      self.violation(mech, got=g, want=w, **detail)
    return ok

  # --- running ----------------------------------------------------------
  def section(self, name, fn, *args, **kw):
    """Runs one workload section; classifies anything it raises."""
    if self.only and name not in self.only:
      return None
    t = time.time()
    try:
      return fn(*args, **kw)
    except Violation as v:
      self.violation(v.mech, **v.detail)
    except Exception as e:  # pylint: disable=broad-except
      self.classify(name, e)
    finally:
      self.section_times[name] = round(
          self.section_times.get(name, 0) + time.time() - t, 2)
    return None

  def attempt(self, mech, fn, *args, **kw):
    """Runs one operation that the property says must succeed.

    Returns (True, result), or (False, None) after recording a violation if
    the code under test raised.  Harness errors propagate.
    """
    try:
      return True, fn(*args, **kw)
    except Violation as v:
      self.violation(v.mech, **v.detail)
    except Exception as e:  # pylint: disable=broad-except
      if blame(e) != 'repo':
        raise
      self.violation(mech + ':raised', error=repr(e)[:500],
                     traceback=traceback.format_exc()[-2500:])
    return False, None

  def classify(self, name, e):
    tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if blame(e) == 'repo':
      self.violation('unexpected-exception:%s:%s' % (name, type(e).__name__),
                     error=repr(e)[:800], traceback=tb[-3500:])
    else:
      self.errors.append((name, tb))

  def finish(self):
    """Writes the evidence, prints the verdict and exits."""
    wall = round(time.time() - self.t0, 2)
    shutil.rmtree(self.scratch, ignore_errors=True)
    missing = []
    if not self.only:
      for name, n in self.required:
        if self.counters[name] < n:
          missing.append('%s: observed %d, needed %d' % (
              name, self.counters[name], n))
    cov = dict(
        evaluations=int(self.evaluations),
        distinct_nontrivial=len(self.keys),
        rule=self.rule,
        samples=[json.loads(json.dumps(s, default=_js)) for s in self.samples],
        observed={k: int(v) for k, v in sorted(self.counters.items())},
        section_wall_s=self.section_times,
        known_findings_observed=list(self.findings_hit),
    )
    ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
              level=self.level, coverage=cov, assumptions=self.assumptions,
              wall_s=wall, violations=int(sum(self.vseen.values())))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=_js)
      f.write('\n')
    for mech in self.findings_hit:
      print('KNOWN-FINDING: property=%s %s (%s)' % (
          self.pid, self.findings.get(mech, ''), mech))
    print('%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %s' % (
        self.pid, self.tier, self.seed, self.evaluations, len(self.keys), wall,
        json.dumps(cov['observed'])))
    if os.environ.get('VERIF_VERBOSE'):
      print('sections', self.section_times)
    code = 0
    if self.violations:
      rd = os.path.join(VERIF, 'replay')
      os.makedirs(rd, exist_ok=True)
      for i, (mech, detail) in enumerate(self.violations):
        path = os.path.join(rd, '%s-%d.json' % (self.pid, i))
        rec = dict(property=self.pid, mechanism=mech, seed=self.seed,
                   tier=self.tier, detail=detail,
                   replay='VERIF_SEED=%d VERIF_TIER=%s /verif/run.sh %s' %
                   (self.seed, self.tier, self.pid))
        try:
          text = json.dumps(rec, indent=1, default=_js)
        except Exception:  # pylint: disable=broad-except
          rec['detail'] = repr(detail)[:20000]
          text = json.dumps(rec, indent=1)
        with open(path, 'w') as f:
          f.write(text + '\n')
        if i < 10:
          print('VIOLATION property=%s replay=%s mechanism=%s %s' % (
              self.pid, path, mech, _short(detail, 900).replace('\n', '\\n')))
      code = 1
    if self.errors or missing:
      for name, tb in self.errors[:4]:
        print('HARNESS-ERROR section=%s\n%s' % (name, tb))
      for m in missing:
        print('INCONCLUSIVE monitor not reached: ' + m)
      if code == 0:
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)  # no atexit hang from background threads


def blame(e):
  """'repo' if the innermost frame of /repo or /verif code is in /repo."""
  last = 'other'
  seen = set()
  chain = []
  while e is not None and id(e) not in seen:
    seen.add(id(e))
    chain.append(e)
    e = e.__cause__ or e.__context__
  # The exception that surfaced decides, unless it has no frames of ours.
  for ex in chain:
    last = 'other'
    for fr, _ in traceback.walk_tb(ex.__traceback__):
      fn = fr.f_code.co_filename
      if fn.startswith(REPO + '/'):
        last = 'repo'
      elif fn.startswith(VERIF + '/'):
        last = 'verif'
    if last != 'other':
      return last
  return last


def _aeq(a, b):
  import numpy as np
  if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
    return a.tolist() == b.tolist()
  if a.dtype.kind == 'f' and b.dtype.kind == 'f':
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
  try:
    return bool(np.all((a == b) | ((a != a) & (b != b))))
  except Exception:  # pylint: disable=broad-except
    return bool(np.all(a == b))
