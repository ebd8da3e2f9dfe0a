"""Driver shared by all checks: sharded exhaustive exploration of the real code.

A check is a module checks/<ID>.py with
  LEVEL    'model_checking' or 'exploration'
  RULE     text: how cases are made and what makes one non-trivial
  ASSUME   list of assumptions
  run(ctx) enumerates its whole bounded space; every case is one ctx.cell(...).

run(ctx) is executed once per shard in its own process (TensorFlow is imported
only there).  ctx.mine() deals the cases out to the shards round robin, so the
union of the shards is the complete enumeration.
"""
import argparse, collections, contextlib, hashlib, importlib, json, os, re
import signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX = int(os.environ.get('MC_MAX', '8'))  # failing cases shown
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class CellTimeout(Exception):
  pass


class Violation(AssertionError):
  """Raised by check code inside a cell: the property does not hold there."""


def require(cond, msg, *args):
  if not cond:
    raise Violation(msg % args if args else msg)


def _h(obj):
  return hashlib.md5(repr(obj).encode()).hexdigest()[:16]


class Ctx:

  def __init__(self, prop, tier, shard, nshards, only=None, progress=None):
    self.prop, self.tier, self.shard, self.nshards = prop, tier, shard, nshards
    self.only, self.progress = only, progress
    self.counter = 0
    self.states = self.transitions = self.traces = self.evaluations = 0
    self.state_hashes = set()
    self.outcomes = set()
    self.samples = []
    self.fails = []
    self.counts = collections.Counter()
    self.truncated = False
    self.start = time.time()
    self.deadline = self.start + float(os.environ.get('VERIF_BUDGET', 640 if tier == 'quick' else 3000))
    self.cell_timeout = 240
    self.cur = ''

  @property
  def thorough(self):
    return self.tier == 'thorough'

  def pick(self, quick, thorough):
    return thorough if self.thorough else quick

  def mine(self):
    """Deals out cases: True if the next case belongs to this shard."""
    self.counter += 1
    return (self.counter - 1) % self.nshards == self.shard

  # ---- coverage
  def state(self, key):
    """Counts a distinct state; True if it is new."""
    k = _h(key)
    if k in self.state_hashes:
      return False
    self.state_hashes.add(k)
    return True

  def trans(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    self.traces += n

  def evald(self, outcome=None, n=1):
    self.evaluations += n
    if outcome is not None:
      self.outcomes.add(_h(outcome))

  def sample(self, obj):
    if len(self.samples) < 3:
      self.samples.append(json.loads(json.dumps(obj, default=str)))

  # ---- one case
  @contextlib.contextmanager
  def cell(self, sig, replay=None, timeout=None, errors=()):
    """Runs one case; any exception in it is a violation with signature sig.

    sig identifies the input/configuration/history exactly.  The failure kind
    is appended, so that a different failure of the same case is different.
    """
    if self.progress:
      with open(self.progress, 'w') as f:
        f.write(sig)
    self.counts['cells'] += 1
    self.cur = sig
    old = signal.signal(signal.SIGALRM, self._alarm)
    signal.alarm(timeout or self.cell_timeout)
    try:
      yield
    except Violation as e:
      signal.alarm(0)
      self.fail(sig, 'property', str(e), replay)
    except (KeyboardInterrupt, SystemExit, MemoryError):
      raise
    except CellTimeout:
      self.fail(sig, 'timeout', 'case did not finish', replay)
    except Exception as e:  # the code under test raised where it must not
      signal.alarm(0)
      tb = traceback.format_exc()
      if isinstance(e, OSError) and e.errno in (12, 24, 28):
        raise  # out of memory, descriptors or disk: not the code's fault
      self.fail(sig, 'raises ' + type(e).__name__, tb[-1500:], replay)
    finally:
      signal.alarm(0)
      signal.signal(signal.SIGALRM, old)

  def over(self):
    """True when the soft deadline has passed (the run is then not exhaustive)."""
    if time.time() > self.deadline:
      self.truncated = True
      return True
    return False

  @staticmethod
  def _alarm(signum, frame):
    raise CellTimeout()

  def fail(self, sig, kind, msg, replay=None):
    full = '%s => %s' % (sig, kind)
    if self.only and self.only != full:
      return
    self.counts['failures'] += 1
    if len(self.fails) < 400:
      self.fails.append({'sig': full, 'msg': msg[:3000],
                         'case': json.loads(json.dumps(replay, default=str))})


def _frames(e):
  tb, out = e.__traceback__, []
  while tb:
    out.append(tb.tb_frame.f_code.co_filename)
    tb = tb.tb_next
  return out


def _from_repo(e):
  return any(f.startswith(REPO + '/') for f in _frames(e)) or any(
      REPO + '/' in str(a) for a in getattr(e, 'args', ()) if isinstance(a, str))


def _from_tf(e):
  # Errors out of TensorFlow/Keras while running a model the library built.
  return any('/site-packages/' in f for f in _frames(e))


# --------------------------------------------------------------------- worker
def worker(prop, tier, shard, nshards, out, only):
  sys.path.insert(0, VERIF)
  sys.path.insert(0, os.path.join(VERIF, 'lib'))
  sys.path.insert(0, REPO)
  sys.dont_write_bytecode = True
  res = {}
  ctx = Ctx(prop, tier, shard, nshards, only, out + '.progress')
  try:
    mod = importlib.import_module('checks.' + prop)
    mod.run(ctx)
    res['ok'] = True
  except Exception as e:
    res['ok'] = False
    res['error'] = traceback.format_exc()
    res['from_repo'] = _from_repo(e) or _from_tf(e)
  res.update(states=len(ctx.state_hashes), state_hashes=sorted(ctx.state_hashes) if len(ctx.state_hashes) < 400000 else [],
             transitions=ctx.transitions,
             traces=ctx.traces, evaluations=ctx.evaluations,
             outcomes=sorted(ctx.outcomes), samples=ctx.samples,
             fails=ctx.fails, counts=dict(ctx.counts), truncated=ctx.truncated,
             wall=time.time() - ctx.start)
  with open(out, 'w') as f:
    json.dump(res, f)


def known_findings(prop):
  """Maps exact signature -> description for the findings of this property."""
  res = {}
  if not os.path.exists(KNOWN):
    return res
  for line in open(KNOWN):
    m = re.match(r'finding: property=(\S+) sig=\[\[(.*?)\]\] (.*)$', line.rstrip('\n'))
    if m and m.group(1) == prop:
      res[m.group(2)] = m.group(3)
  return res


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--worker', default=None)
  ap.add_argument('--out', default=None)
  ap.add_argument('--only', default=None)
  ap.add_argument('--replay', default=None)
  ap.add_argument('--jobs', type=int, default=0)
  a = ap.parse_args()
  if a.worker:
    s, n = map(int, a.worker.split('/'))
    worker(a.prop, a.tier, s, n, a.out, a.only)
    return 0
  t0 = time.time()
  njobs = a.jobs or int(os.environ.get('VERIF_JOBS', 0)) or max(2, min(8, os.cpu_count() or 2))
  nshards, shards, only = njobs, list(range(njobs)), None
  if a.replay:
    r = json.load(open(a.replay))
    a.tier, nshards, shards, only = r['tier'], r['nshards'], [r['shard']], r['sig']
  tmp = tempfile.mkdtemp(prefix='mc_%s_' % a.prop)
  procs = []
  hard = float(os.environ.get('VERIF_HARD', 820 if a.tier == 'quick' else 3400))
  try:
    for s in shards:
      out = os.path.join(tmp, '%d.json' % s)
      cmd = [sys.executable, '-u', os.path.abspath(__file__), a.prop, '--tier', a.tier,
             '--worker', '%d/%d' % (s, nshards), '--out', out]
      if only:
        cmd += ['--only', only]
      log = open(os.path.join(tmp, '%d.log' % s), 'w')
      env = dict(os.environ, MC_TMP=tmp)
      procs.append((s, out, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True), log))
    results, errors = {}, []
    for s, out, p, log in procs:
      try:
        p.wait(timeout=max(1, hard - (time.time() - t0)))
      except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        sig = open(out + '.progress').read() if os.path.exists(out + '.progress') else '?'
        errors.append((s, 'shard %d was still running in case %s' % (s, sig), False))
        continue
      finally:
        log.close()
      if os.path.exists(out):
        results[s] = json.load(open(out))
        if not results[s]['ok']:
          errors.append((s, results[s]['error'], results[s]['from_repo']))
      else:
        tail = open(os.path.join(tmp, '%d.log' % s)).read()[-3000:]
        sig = open(out + '.progress').read() if os.path.exists(out + '.progress') else '?'
        errors.append((s, 'shard %d died (rc %s) in case %s\n%s' % (s, p.returncode, sig, tail), p.returncode in (-6, -11, -8)))
  finally:
    for _, _, p, _ in procs:
      if p.poll() is None:
        try:
          os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
          pass
  known = known_findings(a.prop)
  sys.path.insert(0, VERIF)
  fails, seen_known = [], {}
  for s in sorted(results):
    for f in results[s]['fails']:
      if f['sig'] in known:
        seen_known[f['sig']] = known[f['sig']]
      else:
        fails.append((s, f))
  repo_errors = [e for e in errors if e[2]]
  for s, msg, _ in repo_errors:
    last = [l for l in msg.strip().splitlines() if l.strip()][-1][:200]
    fails.append((s, {'sig': 'exploration aborted by the code under test => ' + last, 'msg': msg, 'case': None}))
  # ---- evidence
  hashes, outcomes, samples, counts = set(), set(), [], collections.Counter()
  for s in results:
    hashes.update(results[s]['state_hashes'])
    outcomes.update(results[s]['outcomes'])
    samples += results[s]['samples']
    counts.update(results[s]['counts'])
  tot = lambda k: sum(r[k] for r in results.values())
  meta = _meta(a.prop)
  cov = {}
  if meta['LEVEL'] == 'model_checking':
    cov.update(states=max(len(hashes), max([r['states'] for r in results.values()] or [0])), transitions=tot('transitions'),
               traces_validated_against_impl=tot('traces'))
    if tot('evaluations'):
      cov['evaluations'] = tot('evaluations')
  else:
    cov.update(evaluations=tot('evaluations'), rule=meta['RULE'])
    if tot('transitions'):
      cov.update(states=len(hashes), transitions=tot('transitions'))
  cov['distinct_nontrivial'] = len(outcomes)
  cov['cells'] = counts.get('cells', 0)
  cov['samples'] = samples[:5]
  truncated = any(r['truncated'] for r in results.values()) or bool(errors)
  cov['exhaustive'] = not truncated
  cov['bound'] = meta['BOUND'].get(a.tier, '')
  cov['distinct_rule'] = meta['RULE']
  ev = {'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': meta['LEVEL'], 'coverage': cov, 'assumptions': meta['ASSUME'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fails),
        'known_findings_seen': len(seen_known)}
  if not a.replay:
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  for what in sorted(set(seen_known.values())):
    n = sum(1 for v in seen_known.values() if v == what)
    print('KNOWN-FINDING: property=%s %s (%d listed case(s))' % (a.prop, what, n))
  print('%s %s: %s' % (a.prop, a.tier, json.dumps({k: v for k, v in cov.items() if k not in ('samples', 'rule', 'distinct_rule', 'bound')})),
        'wall=%.1fs' % (time.time() - t0))
  for s in sorted(results):
    if os.environ.get('VERIF_VERBOSE'):
      print('  shard', s, 'wall', round(results[s]['wall'], 1), results[s]['counts'])
  rc = 0
  if fails:
    d = os.path.join(VERIF, 'replays', a.prop)
    os.makedirs(d, exist_ok=True)
    fails.sort(key=lambda x: len(x[1]['sig']))
    for s, f in fails[:MAX]:
      path = os.path.join(d, _h(f['sig']) + '.json')
      if not a.replay:
        with open(path, 'w') as fh:
          json.dump({'property': a.prop, 'tier': a.tier, 'shard': s, 'nshards': nshards, **f,
                     'how': 'bash /verif/run.sh %s --replay %s' % (a.prop, path)}, fh, indent=1)
      print('  case: %s\n    %s' % (f['sig'], f['msg'].strip().replace('\n', '\n    ')[-700:]))
      print('VIOLATION property=%s replay=%s' % (a.prop, path))
    if len(fails) > MAX:
      print('  ... and %d more failing cases' % (len(fails) - MAX))
    rc = 1
  elif errors:
    for s, msg, _ in errors:
      print('ERROR shard %d: %s' % (s, msg[-3000:]))
    rc = 2
  if os.environ.get('VERIF_KEEP'):
    print('logs in', tmp)
  else:
    subprocess.run(['rm', '-rf', tmp])
  return rc


def _meta(prop):
  """Reads LEVEL/RULE/ASSUME/BOUND from the check's source without importing TF."""
  import ast
  src = open(os.path.join(VERIF, 'checks', prop + '.py')).read()
  d = {'LEVEL': 'exploration', 'RULE': '', 'ASSUME': [], 'BOUND': {}}
  for node in ast.parse(src).body:
    if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in d:
      d[node.targets[0].id] = ast.literal_eval(node.value)
  return d


if __name__ == '__main__':
  sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
  import mc  # the same module object the checks import
  sys.exit(mc.main())
