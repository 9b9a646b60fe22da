"""Seeded search over schedules and fault sequences; minimising; replaying.

  runner.py PROPERTY [--tier quick|thorough] [--seeds N] [--workers N]
  runner.py --replay FILE
  runner.py PROPERTY --determinism N     (same seed twice, compare)
"""

import argparse
import collections
import gc
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
  sys.path.insert(0, VERIF)

OUT = os.environ.get('DST_OUT', VERIF)  # where evidence and replays go

from dst import core  # pylint: disable=g-import-not-at-top

_clock = time.time
_mono = time.monotonic


def scratch_root():
  for d in ('/dev/shm', None):
    try:
      return tempfile.mkdtemp(prefix='dst-', dir=d)
    except OSError:
      continue


class Run:
  """One simulated run: its choices, scratch directory and measurements."""

  def __init__(self, ch, root):
    self.ch = ch
    self.root = root
    self.scratch = os.path.join(root, 'w')
    self.sims = []
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.notes = {}
    self.hash = hashlib.sha1()
    self.trace = []
    self.steps = 0
    self.switches = 0
    self.sim_seconds = 0.0
    self.sched = 0
    self.known = []

  def sim(self, **kw):
    s = core.Sim(self.ch, self.scratch, **kw)
    self.sims.append(s)
    return s

  def probe(self, name, n=1):
    self.probes[name] += n

  def note(self, **kw):
    self.notes.update(kw)

  def event(self, text):
    self.hash.update(text.encode() + b'\n')
    self.trace.append(text)

  def fail(self, kind, message):
    raise core.Violation(kind, message)

  def absorb(self, s):
    """Takes over the measurements of a finished simulation."""
    if getattr(s, '_absorbed', False):
      return
    s._absorbed = True
    self.faults.update(s.faults)
    self.hash.update(s.hash.digest())
    self.trace.extend(s.trace)
    self.steps += s.steps
    self.switches += s.switches
    self.sim_seconds += s.now - s.start
    self.sched = (self.sched * 31 + s.sched_hash) & ((1 << 61) - 1)

  def go(self, s, deadlock='deadlock'):
    """Runs a simulation to its end; raises the violation it found, if any."""
    try:
      s.run()
    finally:
      self.absorb(s)
    if s.violation is not None:
      raise s.violation
    for t in s.tasks:
      if t.exc is None or isinstance(t.exc, (core.SimKilled, core.SimStop)):
        continue
      if isinstance(t.exc, core.Violation):
        raise t.exc
      if getattr(t, 'expected', False):
        continue
      self.unexpected(t.exc, t.tb, f'task {t.host.name}/{t.name}')
    if s.deadlock and deadlock:
      raise core.Violation(deadlock, s.deadlock)

  def unexpected(self, exc, tb, where):
    """An exception nothing should have raised: t5x's fault, or the harness's."""
    from dst import boot
    if isinstance(exc, (core.HarnessError, core.Violation)):
      raise exc
    frames = traceback.extract_tb(exc.__traceback__)
    if any(f.filename.startswith(boot.REPO + '/') for f in frames):
      at = [f for f in frames if f.filename.startswith(boot.REPO + '/')][-1]
      raise core.Violation(
          'unexpected-exception',
          f'{where}: {type(exc).__name__}: {str(exc)[:300]} at '
          f'{os.path.basename(at.filename)} in {at.name}')
    raise core.HarnessError(f'{where}: {tb}')


_GC = gc.disable, gc.enable  # a world may replace them
# Objects of crashed hosts complain when they are collected after a run.
sys.unraisablehook = lambda *a: None


def execute(prop, ch, root):
  """One run of the property's world. Returns a result dict."""
  _GC[0]()  # what __del__ does must not depend on when garbage is found
  try:
    return _execute(prop, ch, root)
  finally:
    _GC[1]()


def _execute(prop, ch, root):
  run = Run(ch, root)
  if 'props.common' in sys.modules:
    sys.modules['props.common'].use_prefix('checkpoint')
  w = run.scratch
  if os.path.exists(w):
    shutil.rmtree(w)
  os.makedirs(w)
  res = {'violation': None, 'harness': None}
  try:
    prop.world(run)
  except core.Violation as v:
    res['violation'] = {'kind': v.kind, 'message': v.message}
  except core.SimStop:
    vs = [s.violation for s in run.sims if s.violation]
    if vs:
      res['violation'] = {'kind': vs[0].kind, 'message': vs[0].message}
    else:
      res['harness'] = traceback.format_exc()
  except core.HarnessError:
    res['harness'] = traceback.format_exc()
  except Exception as e:  # pylint: disable=broad-exception-caught
    try:
      run.unexpected(e, traceback.format_exc(), 'scenario')
    except core.Violation as v:
      res['violation'] = {'kind': v.kind, 'message': v.message}
    except BaseException:  # pylint: disable=broad-exception-caught
      res['harness'] = traceback.format_exc()
  for s in run.sims:
    run.absorb(s)
  if res['violation']:
    res['violation']['message'] = res['violation']['message'].replace(
        w, '<scratch>')
    run.event('VIOLATION ' + json.dumps(res['violation'], sort_keys=True))
  shutil.rmtree(w, ignore_errors=True)
  res.update(
      hash=run.hash.hexdigest(), choices=list(ch.log), trace=[
          x.replace(w, '<scratch>') for x in run.trace],
      faults=dict(run.faults), probes=dict(run.probes), steps=run.steps,
      switches=run.switches, sim_seconds=run.sim_seconds, sched=run.sched,
      notes=run.notes, known=run.known)
  return res


def load(prop_id):
  return importlib.import_module(f'props.{prop_id.lower()}')


def known_findings():
  p = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return json.load(f)['findings']


def is_known(prop_id, v, kf):
  for f in kf:
    if (f.get('status') == 'open' and f['property'] == prop_id
        and f['kind'] == v['kind'] and f['match'] in v['message']):
      return f
  return None


# ---------------------------------------------------------------- workers


def _send(fd, obj):
  data = pickle.dumps(obj)
  os.write(fd, struct.pack('<I', len(data)))
  view = memoryview(data)
  while view:
    n = os.write(fd, view)
    view = view[n:]


class Worker:

  def __init__(self, fn):
    global WORKER_NO
    WORKER_NO += 1
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
      os.close(r)
      code = 0
      try:
        fn(lambda o: _send(w, o))
      except BaseException:  # pylint: disable=broad-exception-caught
        try:
          _send(w, {'crash': traceback.format_exc()})
        except BaseException:  # pylint: disable=broad-exception-caught
          pass
        code = 3
      os._exit(code)
    os.close(w)
    self.pid = pid
    self.fd = r
    self.buf = b''
    self.eof = False

  def poll(self):
    data = os.read(self.fd, 1 << 20)
    if not data:
      self.eof = True
      os.close(self.fd)
      os.waitpid(self.pid, 0)
      return []
    self.buf += data
    out = []
    while len(self.buf) >= 4:
      n = struct.unpack('<I', self.buf[:4])[0]
      if len(self.buf) < 4 + n:
        break
      out.append(pickle.loads(self.buf[4:4 + n]))
      self.buf = self.buf[4 + n:]
    return out

  def kill(self):
    if not self.eof:
      try:
        os.kill(self.pid, signal.SIGKILL)
      except ProcessLookupError:
        pass
      os.waitpid(self.pid, 0)
      os.close(self.fd)
      self.eof = True


def drain(workers, on_msg, deadline=None):
  while True:
    live = [w for w in workers if not w.eof]
    if not live:
      return True
    left = 5.0 if deadline is None else max(0.0, deadline - _mono())
    r, _, _ = select.select([w.fd for w in live], [], [], min(left, 5.0))
    for w in live:
      if w.fd in r:
        for m in w.poll():
          if on_msg(m):
            for x in workers:
              x.kill()
            return True
    if deadline is not None and _mono() > deadline:
      for x in workers:
        x.kill()
      return False


def seed_of(prop_id, base, i):
  return int.from_bytes(hashlib.sha256(
      f'{prop_id}/{base}/{i}'.encode()).digest()[:8], 'big')


def warm(prop, root):
  """The same first runs in every process, so caches are in the same state."""
  for k in range(getattr(prop, 'WARMUPS', 2)):
    execute(prop, core.Choices(seed=1000 + k), root)
  gc.collect()
  gc.freeze()  # what start-up made is not scanned again


def pin():
  """One CPU per worker: only one task runs at a time anyway."""
  try:
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[WORKER_NO % len(cpus)]})
  except OSError:
    pass


WORKER_NO = 0


def worker_body(prop, prop_id, base, seeds, root, kf, det_every):
  def body(send):
    pin()
    d = os.path.join(root, f'{os.getpid():08d}')
    os.makedirs(d)
    warm(prop, d)
    for n, i in enumerate(seeds):
      t0 = _mono()
      res = execute(prop, core.Choices(seed=seed_of(prop_id, base, i)), d)
      res['i'] = i
      res['wall'] = _mono() - t0
      res['nchoices'] = len(res['choices'])
      if res['violation'] is None and det_every and n % det_every == 0:
        again = execute(prop, core.Choices(prefix=res['choices']), d)
        res['replayed'] = 1
        res['replay_same'] = int(again['hash'] == res['hash'])
        if not res['replay_same']:
          res['diverged'] = next(
              (f'{a!r} / {b!r}' for a, b in zip(res['trace'], again['trace'])
               if a != b), 'after the trace')
      if res['violation'] is None and i >= 3:
        res.pop('trace')
        res.pop('choices')
      send(res)
      gc.collect()
    shutil.rmtree(d, ignore_errors=True)
  return body


# ---------------------------------------------------------------- minimising


def minimise(prop, choices, kind, root, budget_s):
  """Shrinks a choice list that shows `kind`. Returns (choices, result, tries)."""
  end = _mono() + budget_s
  tries = [0]
  best = [list(choices), None]

  def attempt(c):
    if _mono() > end:
      return False
    tries[0] += 1
    r = execute(prop, core.Choices(prefix=c), root)
    if r['violation'] and r['violation']['kind'] == kind and not r['harness']:
      used = r['choices']
      while used and used[-1] == 0:
        used.pop()
      if len(used) <= len(c) or best[1] is None:
        best[0] = used
        best[1] = r
        return True
    return False

  if not attempt(choices):
    return None, None, tries[0]
  # 1. shortest failing prefix
  lo, hi = 0, len(best[0])
  while lo < hi and _mono() < end:
    mid = (lo + hi) // 2
    if attempt(best[0][:mid]):
      hi = min(mid, len(best[0]))
    else:
      lo = mid + 1
  # 2. zero blocks, halving the block size
  size = max(1, len(best[0]) // 2)
  while size >= 1 and _mono() < end:
    i = 0
    while i < len(best[0]) and _mono() < end:
      c = best[0]
      if any(c[i:i + size]):
        attempt(c[:i] + [0] * len(c[i:i + size]) + c[i + size:])
      i += size
    size //= 2
  # 3. delete blocks
  size = max(1, len(best[0]) // 4)
  while size >= 1 and _mono() < end:
    i = 0
    while i < len(best[0]) and _mono() < end:
      if not attempt(best[0][:i] + best[0][i + size:]):
        i += size
    size //= 2
  # 4. lower single values
  for i in range(len(best[0])):
    if _mono() > end:
      break
    if i < len(best[0]) and best[0][i] > 1:
      for v in (1, best[0][i] // 2):
        if i < len(best[0]) and attempt(best[0][:i] + [v] + best[0][i + 1:]):
          break
  # The exact outcome of the final list, which the replay must reproduce.
  r = execute(prop, core.Choices(prefix=best[0]), root)
  return best[0], r, tries[0]


def in_child(fn):
  out = []
  w = Worker(lambda send: send(fn()))
  drain([w], lambda m: out.append(m))
  return out[0] if out else {'crash': 'no result'}


# ---------------------------------------------------------------- commands


def do_replay(path):
  with open(path) as f:
    rp = json.load(f)
  prop_id = rp['property']
  boot_for(prop_id)
  prop = load(prop_id)
  root = scratch_root()
  try:
    def go():
      d = os.path.join(root, f'{os.getpid():08d}')
      os.makedirs(d)
      warm(prop, d)
      return execute(prop, core.Choices(prefix=rp['choices']), d)
    res = in_child(go)
  finally:
    shutil.rmtree(root, ignore_errors=True)
  if res.get('crash') or res.get('harness'):
    print(res.get('crash') or res.get('harness'), file=sys.stderr)
    return 2
  for line in res['trace']:
    print('  ' + line)
  if res['violation'] is None:
    print(f'replay: no violation (property={prop_id})')
    return 0
  same = res['hash'] == rp['hash'] and res['violation'] == rp['violation']
  print(f"replay: {res['violation']['kind']}: {res['violation']['message']}")
  print('replay: identical to the recorded run' if same else
        'replay: DIFFERS from the recorded run')
  print(f'VIOLATION property={prop_id} replay={path}')
  return 1


def boot_for(prop_id):
  from dst import boot
  boot.install(MODULES)


MODULES = ('t5x.train', 't5x.infer', 't5x.eval', 't5x.interactive_model')


def do_check(args):
  prop_id = args.property
  t0 = _mono()
  tier = args.tier
  base = args.seed
  out_dir = os.path.join(OUT, 'evidence')
  os.makedirs(out_dir, exist_ok=True)
  try:
    boot_for(prop_id)
    prop = load(prop_id)
  except Exception:  # the tree does not even import
    traceback.print_exc()
    return 2
  n = args.seeds or (prop.QUICK if tier == 'quick' else prop.THOROUGH)
  workers = args.workers or min(8, os.cpu_count() or 1)
  cap = args.cap or (600 if tier == 'quick' else 4 * 3600)
  root = scratch_root()
  kf = known_findings()
  results = []
  state = {'bad': None, 'crash': None, 'known': {}}
  boot_s = _mono() - t0

  def on_msg(m):
    if m.get('crash') or m.get('harness'):
      state['crash'] = m.get('crash') or m.get('harness')
      state['crash_i'] = m.get('i')
      return True
    results.append(m)
    for k in m.get('known', []):
      state['known'].setdefault(k, m['i'])
    if m['violation']:
      f = is_known(prop_id, m['violation'], kf)
      if f:
        state['known'].setdefault(f['what'], m['i'])
      elif not args.keep_going:
        state['bad'] = m
        return True
      elif state['bad'] is None or m['i'] < state['bad']['i']:
        state['bad'] = m
    if args.verbose:
      print(m['i'], m['hash'][:8], m['nchoices'], m['steps'], f"{m['wall']:.2f}",
            m['notes'], m['faults'], m['probes'], m['violation'], flush=True)
    return False

  def search(todo):
    """Runs the seeds in `todo`; True if all of them ran."""
    lists = [todo[k::workers] for k in range(workers)]
    ws = [Worker(worker_body(prop, prop_id, base, l, root, kf,
                             args.det_every)) for l in lists if l]
    return drain(ws, on_msg, deadline)

  def shrink(bad):
    d = os.path.join(root, f'{os.getpid():08d}')
    os.makedirs(d)
    warm(prop, d)
    c, r, tries = minimise(prop, bad['choices'], bad['violation']['kind'], d,
                           args.minimise_s)
    return {'choices': c, 'result': r, 'tries': tries}

  try:
    code = 0
    violations = 0
    unreproduced = []
    deadline = _mono() + cap
    todo = list(range(args.first, args.first + n))
    while True:
      complete = search(todo)
      search_s = _mono() - t0 - boot_s
      if state['crash']:
        print(f"harness error (seed {state.get('crash_i')}): "
              f"{state['crash']}", file=sys.stderr)
        code = 2
        break
      if not state['bad']:
        break
      bad = state['bad']
      v = bad['violation']
      print(f"seed {bad['i']}: {v['kind']}: {v['message']}")
      m = in_child(lambda: shrink(bad))
      if m.get('crash') or m['choices'] is None:
        # Not reproducible: a defect of the harness, never reported as one of
        # t5x. The other seeds still decide.
        print(f"did not reproduce: {m.get('crash')}", file=sys.stderr)
        unreproduced.append(bad['i'])
        state['bad'] = None
        done = {r['i'] for r in results}
        todo = [i for i in todo if i not in done]
        if len(unreproduced) >= 5 or not todo:
          break
        continue
      r = m['result']
      os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
      replay_path = os.path.join(
          OUT, 'replays', f'{prop_id}-{tier}-{base}-{bad["i"]}.json')
      with open(replay_path, 'w') as f:
        json.dump({
            'property': prop_id, 'seed': base, 'run': bad['i'],
            'violation': r['violation'], 'hash': r['hash'],
            'notes': r['notes'], 'choices': m['choices'],
            'original_choices': len(bad['choices']),
            'minimise_runs': m['tries'], 'faults': r['faults'],
            'trace': r['trace']}, f, indent=1, default=str)
      print('minimised: %d -> %d choices in %d runs' % (
          len(bad['choices']), len(m['choices']), m['tries']))
      for line in r['trace'][-40:]:
        print('  ' + line)
      print(f'VIOLATION property={prop_id} replay={replay_path}')
      code = 1
      violations = 1
      break
    if code == 0 and unreproduced:
      print(f'harness error: seeds {unreproduced} did not reproduce',
            file=sys.stderr)
      code = 2
    if code == 0 and not complete and len(results) < max(1, n // 4):
      print(f'harness error: only {len(results)} of {n} runs in {cap} s',
            file=sys.stderr)
      code = 2
    for what, i in sorted(state['known'].items()):
      print(f'KNOWN-FINDING: property={prop_id} {what} (run {i})')
    if args.det_report:
      reps = sum(r.get('replayed', 0) for r in results)
      same = sum(r.get('replay_same', 0) for r in results)
      print(f'determinism: {same}/{reps} replays identical')
      for r in results:
        if 'diverged' in r:
          print('  diverged', r['i'], r['notes'], r['diverged'])
    write_evidence(prop, prop_id, tier, base, results, violations,
                   _mono() - t0, search_s, complete, out_dir)
    dh = hashlib.sha1(json.dumps(
        sorted((r['i'], r['hash']) for r in results)).encode()).hexdigest()
    print(f'{prop_id}: {len(results)} runs, {sum(r["steps"] for r in results)} '
          f'steps, {_mono() - t0:.1f} s, digest {dh[:12]}, exit {code}')
    return code
  finally:
    shutil.rmtree(root, ignore_errors=True)


def write_evidence(prop, prop_id, tier, base, results, violations, wall,
                   search_s, complete, out_dir):
  faults = collections.Counter()
  probes = collections.Counter()
  for r in results:
    faults.update(r['faults'])
    probes.update(r['probes'])
  want = set(getattr(prop, 'NONTRIVIAL', ()))
  nontriv = {r['hash'] for r in results
             if (r['faults'] or r['switches'] > 2)
             and (not want or want & set(r['probes']))}
  cover = {
      'evaluations': len(results),
      'distinct_nontrivial': len(nontriv),
      'rule': ('one evaluation is one seeded simulated run of the real t5x '
               'code; non-trivial: at least one fault was injected or the '
               'scheduler switched tasks more than twice, and one of the '
               f'probes {sorted(want)} was reached; distinct: the '
               'SHA-1 of the full event log (faults, disk operations, '
               'collectives, outcomes) differs. ' + prop.RULE),
      'samples': [
          {'seed': r['i'], 'notes': r['notes'], 'faults': r['faults'],
           'trace_head': r.get('trace', [])[:25]}
          for r in sorted(results, key=lambda r: r['i'])[:3]],
      'simulated_runs': len(results),
      'runs_per_hour': round(len(results) / max(search_s, 1e-6) * 3600),
      'simulated_seconds': round(sum(r['sim_seconds'] for r in results), 3),
      'scheduler_steps': sum(r['steps'] for r in results),
      'task_switches': sum(r['switches'] for r in results),
      'choices_drawn': sum(r['nchoices'] for r in results),
      'distinct_interleavings': len({r['sched'] for r in results}),
      'distinct_event_logs': len({r['hash'] for r in results}),
      'faults_injected': dict(sorted(faults.items())),
      'probes': dict(sorted(probes.items())),
      'replays_compared': sum(r.get('replayed', 0) for r in results),
      'replays_identical': sum(r.get('replay_same', 0) for r in results),
      'completed_all_seeds': bool(complete),
      'real_components': prop.REAL,
      'stubbed_components': prop.STUBS,
  }
  ev = {'property': prop_id, 'tier': tier, 'seed': base,
        'level': getattr(prop, 'LEVEL', 'exploration'), 'coverage': cover,
        'assumptions': prop.ASSUMES, 'wall_s': round(wall, 2),
        'violations': violations}
  tmp = os.path.join(out_dir, f'.{prop_id}.tmp')
  with open(tmp, 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  os.replace(tmp, os.path.join(out_dir, f'{prop_id}.json'))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property', nargs='?')
  ap.add_argument('tier_pos', nargs='?')
  ap.add_argument('--tier')
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--seeds', type=int)
  ap.add_argument('--first', type=int, default=0)
  ap.add_argument('--workers', type=int)
  ap.add_argument('--cap', type=float)
  ap.add_argument('--replay')
  ap.add_argument('--verbose', action='store_true')
  ap.add_argument('--keep-going', action='store_true')
  ap.add_argument('--det-every', type=int, default=10)
  ap.add_argument('--det-report', action='store_true')
  ap.add_argument('--minimise-s', type=float, default=30)
  args = ap.parse_args()
  args.tier = args.tier or args.tier_pos or os.environ.get(
      'VERIF_TIER', 'quick')
  if args.replay:
    return do_replay(args.replay)
  return do_check(args)


if __name__ == '__main__':
  # `-m dst.runner` style double import is avoided: run as a script.
  code = main()
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(code)
