"""Shared machinery of the checks.

The oracle of every check is the TLA+ specification in ../spec, evaluated by
TLC.  This module only runs TLC (on the design models, on generators and on
recorded traces), encodes recorded values as integers and reports verdicts.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.realpath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = ':'.join(['/opt/veriftools/tla/tla2tools.jar',
                 '/opt/veriftools/tla/CommunityModules-deps.jar'])
NAN = 2147483647
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
# what a crash of the code under test looks like, and the seconds of processor
# time one item gets (the slowest ones need less than a tenth of it)
CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT,
           signal.SIGILL, signal.SIGPROF)
ITEM_SECONDS = 100
# and a whole process, which needs at most a quarter of it
RUN_SECONDS = 300 if not THOROUGH else 6 * 3600


class Machinery(Exception):
  """The check itself failed: neither a pass nor a violation."""


_scratch = None


def scratch():
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix='verif_')
  return _scratch


def cleanup():
  if _scratch is not None:
    shutil.rmtree(_scratch, ignore_errors=True)


# --------------------------------------------------------------------- TLC

def run_tlc(module, cfg_text, workers=2, env=None, extra=(), timeout=840,
            heap='3g'):
  """Runs TLC on spec/<module>.tla with the given configuration text."""
  d = tempfile.mkdtemp(prefix=module + '_', dir=scratch())
  cfg = os.path.join(d, module + '.cfg')
  with open(cfg, 'w') as f:
    f.write(cfg_text)
  cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
         '-XX:TieredStopAtLevel=1' if workers == 1 else '-XX:CICompilerCount=2',
         '-Xss64m', '-Djava.io.tmpdir=' + d, '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC',
         '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE',
         '-workers', str(workers), '-config', cfg] + list(extra) + \
      [os.path.join(SPEC, module + '.tla')]
  e = dict(os.environ)
  e.update(env or {})
  t0 = time.time()
  try:
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf8', 'replace')
    rc = p.returncode
  except subprocess.TimeoutExpired as ex:
    out = (ex.stdout or b'').decode('utf8', 'replace')
    rc = -1
  res = {'rc': rc, 'out': out, 'wall': time.time() - t0, 'states': 0,
         'distinct': 0, 'violated': None, 'printed': []}
  m = None
  for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct', out):
    pass
  if m:
    res['states'] = int(m.group(1).replace(',', ''))
    res['distinct'] = int(m.group(2).replace(',', ''))
  else:
    for m in re.finditer(r'The number of states generated: ([\d,]+)', out):
      pass
    if m:
      res['states'] = res['distinct'] = int(m.group(1).replace(',', ''))
  m = re.search(r'(?:Invariant|Action property|Temporal properties|property) '
                r'(\S+) (?:is|was|were) violated', out)
  if m:
    res['violated'] = m.group(1)
  for line in out.splitlines():
    if line.startswith('"{') and line.endswith('}"'):
      try:
        res['printed'].append(json.loads(json.loads(line)))
      except ValueError:
        pass
  res['ok'] = ('No error has been found' in out) or \
      (rc == 0 and '-simulate' in extra)
  return res


def cfg(spec='Spec', constants=None, invariants=(), properties=(),
        constraint=None, deadlock=False, extra=''):
  t = 'SPECIFICATION %s\n' % spec
  if constants:
    t += 'CONSTANTS\n' + ''.join(
        '  %s = %s\n' % (k, v) for k, v in constants.items())
  if invariants:
    t += 'INVARIANTS ' + ' '.join(invariants) + '\n'
  if properties:
    t += 'PROPERTIES ' + ' '.join(properties) + '\n'
  if constraint:
    t += 'CONSTRAINT %s\n' % constraint
  t += 'CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE')
  return t + extra


class Bg(threading.Thread):
  def __init__(self, fn):
    super().__init__(daemon=True)
    self.fn, self.res, self.err = fn, None, None
    self.start()

  def run(self):
    try:
      self.res = self.fn()
    except Exception as ex:  # reported by get()
      self.err = ex

  def get(self):
    self.join()
    if self.err is not None:
      raise Machinery('background job failed: %s: %s' % (
          type(self.err).__name__, self.err))
    return self.res


# ---------------------------------------------------------------- encoding

def q(x, scale=1, tol=2e-3):
  """Exact encoding: the integer x * scale, or NAN if it is none."""
  import numpy as np
  a = np.asarray(x, dtype=np.float64) * scale
  r = np.rint(a)
  with np.errstate(invalid='ignore'):
    bad = ~(np.abs(a - r) <= tol) | ~(np.abs(a) < 2 ** 30)
  r = np.where(bad, NAN, r)
  return np.where(np.isfinite(r), r, NAN).astype(np.int64).tolist()


def qa(x, scale):
  """Approximate encoding: round(x * scale), NAN if it does not fit."""
  import numpy as np
  a = np.asarray(x, dtype=np.float64) * scale
  with np.errstate(invalid='ignore'):
    bad = ~(np.abs(a) < 2 ** 30)
  return np.where(bad, NAN, np.rint(np.where(bad, 0, a))).astype(
      np.int64).tolist()


def ints(x):
  import numpy as np
  a = np.asarray(x)
  if a.dtype.kind not in 'iu':
    r = np.rint(a.astype(np.float64))
    a = np.where(np.abs(r - a) < 1e-6, r, NAN)
  return np.clip(a.astype(np.int64), -NAN, NAN).tolist()


def attempt(fn):
  """Runs a call of the library on valid input; errors are observations."""
  try:
    return fn(), ''
  except Machinery:
    raise
  except Exception as ex:
    return None, type(ex).__name__ + ': ' + \
        str(ex).split('\n')[0].replace('"', "'").replace('\\', '/')[:160]


def attr(obj, *names):
  """Observation point that is not part of the public interface."""
  for n in names:
    if hasattr(obj, n):
      return getattr(obj, n)
  raise Machinery('observation point %s of %s is missing' %
                  ('/'.join(names), type(obj).__name__))


# ------------------------------------------------------------------- check

def known_findings():
  p = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return json.load(f).get('findings', [])


class Endless(BaseException):
  """Raised where the library is after far more time than a check needs."""


def limit(seconds):
  def stop(*_):
    raise Endless('does not end')
  signal.signal(signal.SIGPROF, stop)
  signal.setitimer(signal.ITIMER_PROF, seconds)


class Check:
  def __init__(self, pid):
    self.pid = pid
    self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
    self.t0 = time.time()
    self.jobs = []       # (kind, label, Bg)
    self.records = []    # (trace module, record)
    self.states = 0
    self.transitions = 0
    self.validated = 0
    self.violations = []
    self.samples = []
    self.models = []
    self.clauses = {}
    self.assumptions = []
    self.notes = []

  # -- design level: the specification itself
  def design(self, module, constants, invariants, properties=(), label=None,
             workers=2, constraint=None, spec='Spec', extra=(), view=None):
    c = cfg(spec, constants, invariants, properties, constraint,
            extra='VIEW %s\n' % view if view else '')
    self.jobs.append(('design', label or module,
                      Bg(lambda: run_tlc(module, c, workers, extra=extra))))

  # -- a deliberately wrong design must be rejected (guards against vacuity)
  def mutant(self, module, constants, invariants, properties=(), label=None,
             expect=None, workers=2, constraint=None, spec='Spec', view=None):
    if not THOROUGH:
      return
    c = cfg(spec, constants, invariants, properties, constraint,
            extra='VIEW %s\n' % view if view else '')
    self.jobs.append(('mutant', label, Bg(lambda: run_tlc(module, c, workers)),
                      expect))

  # -- behaviours of the specification, to be replayed in the code
  def generate(self, module, constants, depth, num, invariants=(),
               spec='Spec', constraint=None, key=None):
    c = cfg(spec, constants, invariants, (), constraint)
    ex = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed',
          str(SEED + 17)]
    return Bg(lambda: run_tlc(module, c, 1, extra=ex))

  def take(self, job):
    r = job.get()
    if not r['printed']:
      raise Machinery('generator produced nothing:\n' + r['out'][-2000:])
    self.states += r['states']
    self.transitions += r['states']
    return r['printed']

  def finish_models(self):
    for job in self.jobs:
      r = job[2].get()
      if job[0] == 'design':
        if not r['ok']:
          raise Machinery('design model %s does not pass:\n%s' %
                          (job[1], r['out'][-3000:]))
        self.states += r['distinct']
        self.transitions += r['states']
        self.models.append({'model': job[1], 'distinct_states': r['distinct'],
                            'wall_s': round(r['wall'], 1)})
      else:
        if r['violated'] is None or \
            (job[3] and r['violated'] not in job[3]):
          raise Machinery('wrong design %s is not rejected as expected (%s):'
                          '\n%s' % (job[1], r['violated'], r['out'][-1500:]))
        self.models.append({'wrong_design': job[1],
                            'rejected_by': r['violated']})
    self.jobs = []

  # -- conformance level
  def raised(self, ex, case):
    """The library has raised an error in a call with valid arguments; errors
    of the harness are not observations."""
    where = [os.path.realpath(f.filename) for f in traceback.extract_tb(
        ex.__traceback__)]
    where = [f for f in where if f.startswith((
        HERE + os.sep, os.path.realpath(REPO) + os.sep))]
    if isinstance(ex, Endless):
      where = [f for f in where if not f.startswith(HERE + os.sep)]
    if isinstance(ex, Machinery) or not where or where[-1].startswith(HERE + os.sep):
      raise ex
    traceback.print_exception(ex)
    self.record('TraceCall', kind='call', case=case, err='%s: %s' % (
        type(ex).__name__, str(ex).split('\n')[0].replace('"', "'").replace(
            '\\', '/')[:160]))

  def spread(self, module, function, items, procs=6, crash=None):
    """Runs module.function(check, i, item) for all items in processes of
    their own (also when this process has no room for it) and collects the
    records in the order of the items.  With crash, an item which kills its
    process (or does not end) is judged by the record crash(item, signal);
    without, nothing is decided."""
    items = list(enumerate(items))
    parts = [items[k::procs] for k in range(min(procs, len(items)))]
    got = []

    def start(k, todo, n):
      base = os.path.join(scratch(), 'part%d_%d' % (k, n))
      with open(base + '.in', 'w') as f:
        json.dump([self.pid, module, function, todo, bool(crash)], f)
      env = dict(os.environ, VERIF_CHILD=base, TF_NUM_INTRAOP_THREADS='1',
                 TF_NUM_INTEROP_THREADS='1', OMP_NUM_THREADS='1')
      out = open(base + '.log', 'w')
      return base, subprocess.Popen(
          [sys.executable, os.path.join(HERE, 'main.py'), self.pid],
          stdout=out, stderr=out, env=env)

    jobs = [(k, todo, 0) + start(k, todo, 0) for k, todo in enumerate(parts)]
    while jobs:
      k, todo, n, base, p = jobs.pop(0)
      rc = p.wait()
      done = []
      if os.path.exists(base + '.out'):
        with open(base + '.out') as f:
          done = [json.loads(x) for x in f if x.endswith('\n')]
      for d in done:
        got += d['records']
      if rc != 0:
        if crash is None or -rc not in CRASHES or len(done) == len(todo):
          raise Machinery('child process failed (%d):\n%s' % (
              rc, open(base + '.log').read()[-3000:]))
        i, item = todo[len(done)]
        got.append((i,) + crash(item, signal.Signals(-rc).name))
        if n < 2 and todo[len(done) + 1:]:
          rest = todo[len(done) + 1:]
          jobs.append((k, rest, n + 1) + start(k, rest, n + 1))
    for i, m, r in sorted(got, key=lambda x: x[0]):
      self.records.append((m, r))

  def record(self, module, /, **rec):
    self.records.append((module, rec))

  def validate(self):
    mods = {}
    for m, r in self.records:
      mods.setdefault(m, []).append(r)
    # few TLC processes in parallel, each on a part of the records
    parts = []
    for m, rs in mods.items():
      n = 1 if len(rs) < 24 else (2 if len(rs) < 60 else 4)
      if any(r.get('kind') == 'history' for r in rs) and len(rs) < 60:
        n = 1
      size = (len(rs) + n - 1) // n
      for k in range(0, len(rs), size):
        parts.append((m, rs[k:k + size]))
    jobs = [(m, rs, Bg(lambda m=m, rs=rs: self._trace(m, rs)))
            for m, rs in parts]
    for m, rs, b in jobs:
      b.get()

  def _trace(self, module, recs, again=6):
    path = tempfile.mktemp(suffix='.ndjson', dir=scratch())
    with open(path, 'w') as f:
      for r in recs:
        f.write(json.dumps(r) + '\n')
    res = run_tlc(module, cfg('TraceSpec'), 1, env={'TRACE_FILE': path})
    self.states += res['distinct']
    self.transitions += res['states']
    got = {}
    for v in res['printed']:
      if 'i' in v and 'bad' in v:
        got[v['i']] = v
    for i, r in enumerate(recs, 1):
      v = got.get(i)
      if v is None:
        out = res['out']
        k = out.find('Error:')
        if res['rc'] == 0 or 'TLC threw an unexpected exception' in out \
            or k < 0 or 'Parsing or semantic' in out or 'Could not find' in out:
          raise Machinery('no verdict for record %d of %s:\n%s' %
                          (i, module, out[-3000:]))
        # the values of the record cannot even be evaluated: it has a shape
        # or numbers which no behaviour of the specification can have
        m = re.search(r'(Attempted|Overflow|In evaluation|TLC was unable)'
                      r'[^\n]*', out[k:])
        self.violations.append((module, r, ['unexplainable'],
                                m.group(0) if m else out[k:k + 300]))
        if recs[i:] and again:
          self._trace(module, recs[i:], again - 1)
        return
      self.validated += 1
      for c in v.get('checked', []):
        self.clauses[c] = self.clauses.get(c, 0) + 1
      if v['bad']:
        self.violations.append((module, r, sorted(v['bad']), ''))

  # -- report
  def report(self):
    known = known_findings()
    new, old = [], []
    for module, rec, bad, detail in self.violations:
      k = None
      for f in known:
        if f.get('status') == 'known' and f['property'] == self.pid and \
            f.get('case') == rec.get('case') and set(bad) <= set(f['clauses']):
          k = f
      (old if k else new).append((module, rec, bad, detail, k))
    for kf in {id(o[4]): o[4] for o in old}.values():
      print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
    ev = {
        'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick',
        'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.validated,
            'models': self.models,
            'clauses_evaluated': self.clauses,
            'records_by_kind': self._kinds(),
            'samples': self.samples or
            [r for _, r in self.records[:1]] + [r for _, r in self.records[-1:]],
        },
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    if new:
      os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
      path = os.path.join(VERIF, 'replays', '%s_%s_%d.json' %
                          (self.pid, 'thorough' if THOROUGH else 'quick', SEED))
      with open(path, 'w') as f:
        json.dump([{'module': m, 'clauses': b, 'record': r, 'detail': d}
                   for m, r, b, d, _ in new[:50]], f, indent=1)
      for m, r, b, d, _ in new[:10]:
        print('  %s %s: clauses %s%s' % (
            m, r.get('case', ''), b, (' err=' + r['err']) if r.get('err') else ''))
      print('VIOLATION property=%s replay=%s' % (self.pid, path))
      return 1
    print('OK property=%s records=%d states=%d wall=%.1fs' % (
        self.pid, self.validated, self.states, time.time() - self.t0))
    return 0

  def _kinds(self):
    d = {}
    for m, r in self.records:
      k = m + ':' + str(r.get('kind', ''))
      d[k] = d.get(k, 0) + 1
    return d


def child(base):
  with open(base + '.in') as f:
    pid, module, function, items, limited = json.load(f)
  import importlib
  fn = getattr(importlib.import_module(module), function)
  try:
    with open(base + '.out', 'w') as f:
      for i, item in items:
        c = Check(pid)
        # the choices of an item do not depend on the other items
        c.rng = random.Random(SEED * 1000003 + 7919 * i + sum(map(ord, pid)))
        if limited:
          signal.setitimer(signal.ITIMER_PROF, ITEM_SECONDS)
        else:
          limit(RUN_SECONDS)
        try:
          fn(c, i, item)
        except (Exception, Endless) as ex:
          c.raised(ex, '%s#%d' % (function, i))
        json.dump({'records': [(i, m, r) for m, r in c.records]}, f)
        f.write('\n')
        f.flush()
    return 0
  except Exception:
    traceback.print_exc()
    return 2
  finally:
    cleanup()


def main(registry):
  if 'VERIF_CHILD' in os.environ:
    return child(os.environ['VERIF_CHILD'])
  pid = sys.argv[1]
  if pid not in registry:
    print('unknown property', pid)
    return 2
  try:
    c = Check(pid)
    try:
      limit(RUN_SECONDS)
      registry[pid](c)
    except (Exception, Endless) as ex:
      c.raised(ex, 'unguarded call')
    signal.setitimer(signal.ITIMER_PROF, 0)
    if os.environ.get('VERIF_CPU'):
      print('CPU', pid, time.process_time(), file=sys.stderr)
    c.validate()
    c.finish_models()
    if not c.validated and not c.violations:
      raise Machinery('nothing was validated')
    return c.report()
  except (Exception, Endless):
    traceback.print_exc()
    print('CHECK-ERROR property=%s' % pid)
    return 2
  finally:
    cleanup()
