"""Deterministic simulator core: choices, cooperative tasks, simulated time.

Every nondeterministic decision of a run is one `Choices.draw`. A run is a pure
function of its choice list: 0 is always the benign choice (no fault, keep
running the same task), so shrinking a choice list towards zeros and towards a
shorter list yields a simpler schedule and fault trace.

Tasks are real OS threads of which exactly one runs at a time; a task gives up
the baton only at a simulated yield point (lock, queue, timer, barrier, disk
operation, traced source line). Nothing in here sleeps or waits for real time.
"""

import _thread
import hashlib
import heapq
import os
import random
import re
import sys
import threading
import traceback

get_ident = _thread.get_ident
_real_lock = _thread.allocate_lock

_TASKS = {}  # thread ident -> Task
_ACTIVE = None  # the running Sim, if any


_OCDBT = re.compile(r'/d/[0-9a-f]{32}')


class SimKilled(BaseException):
  """Unwinds a task of a crashed simulated process. Never caught by t5x."""


class SimStop(BaseException):
  """Unwinds every task at the end of a run."""


class Violation(Exception):
  """An oracle of a property failed."""

  def __init__(self, kind, message):
    super().__init__(f'{kind}: {message}')
    self.kind = kind
    self.message = message


class HarnessError(Exception):
  """The harness itself misbehaved (never reported as a violation)."""


class Choices:
  """The one source of randomness of a run."""

  def __init__(self, seed=None, prefix=None):
    self.rng = random.Random(seed) if prefix is None else None
    self.prefix = prefix
    self.log = []  # values actually used
    self.pos = 0

  def draw(self, n, label=''):
    """An integer in [0, n)."""
    if n <= 1:
      return 0
    if self.prefix is not None:
      v = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
      v = min(v, n - 1)
    else:
      v = self.rng.randrange(n)
    self.pos += 1
    self.log.append(v)
    return v

  def chance(self, permille, label=''):
    """True with probability permille/1000; choice value 0 means False."""
    if permille <= 0:
      return False
    return self.draw(1000, label) >= 1000 - permille

  def pick(self, seq, label=''):
    return seq[self.draw(len(seq), label)]

  def weighted(self, pairs, label=''):
    """pairs: [(value, weight)]; the first is the benign one."""
    total = sum(w for _, w in pairs)
    x = self.draw(total, label)
    for v, w in pairs:
      if x < w:
        return v
      x -= w
    return pairs[-1][0]

  def subset(self, seq, permille=500, label=''):
    return [x for x in seq if self.chance(permille, label)]

  def shuffle(self, seq, label=''):
    seq = list(seq)
    out = []
    while seq:
      out.append(seq.pop(self.draw(len(seq), label)))
    return out


class Host:
  """A simulated process."""

  def __init__(self, sim, index, name=None, skew=0.0):
    self.sim = sim
    self.index = index
    self.name = name or f'h{index}'
    self.alive = True
    self.skew = skew
    self.count = 1  # process_count seen by this host
    self.group = None  # barrier group
    self.pending = {}  # id -> callable: tears a not yet durable write on crash
    self.env = {}


class Task:

  def __init__(self, sim, host, fn, name):
    self.sim = sim
    self.host = host
    self.fn = fn
    self.name = name
    self.id = len(sim.tasks)
    self.sem = _real_lock()
    self.sem.acquire()
    self.state = 'runnable'  # runnable | blocked | done
    self.key = None
    self.wake = None
    self.timed_out = False
    self.exc = None
    self.tb = None
    self.result = None
    self.done = False
    self.nopreempt = 0
    self.unwinding = False
    self.daemon = False
    self.started = False
    self.thread = None  # python Thread object, if any


def current():
  """The sim task of the calling thread, or None."""
  return _TASKS.get(get_ident())


def sim():
  t = _TASKS.get(get_ident())
  return t.sim if t is not None else None


class Sim:
  """One simulated execution."""

  def __init__(self, choices, scratch, max_steps=100000, start_time=1.7e9):
    self.ch = choices
    self.scratch = os.path.realpath(scratch)
    self.tasks = []
    self.hosts = []
    self.now = start_time
    self.steps = 0
    self.switches = 0
    self.max_steps = max_steps
    self.preempt = 0  # permille of voluntary yields that may switch task
    self.ctrl = _real_lock()
    self.ctrl.acquire()
    self.running = None
    self.ending = False
    self.trace = []  # human readable fault/schedule events
    self.hash = hashlib.sha1()
    self.faults = {}
    self.violation = None
    self.harness_error = None
    self.deadlock = None
    self.sched_hash = 0
    self.start = start_time
    self.fs = None  # FaultPlan
    self.on_stuck = None  # callback when nothing can run; True if it helped
    self.monitors = []
    self.trace_lines = None  # path prefixes with line-level preemption
    self.line_permille = 0

  # ---- bookkeeping
  def event(self, text, trace=True):
    text = text.replace(self.scratch, '<scratch>')
    if '/d/' in text:  # TensorStore names OCDBT data files at random
      text = _OCDBT.sub('/d/<random>', text)
    self.hash.update(text.encode())
    self.hash.update(b'\n')
    if trace and len(self.trace) < 4000:
      self.trace.append(f'[{self.steps} t={self.now - self.start:.3f}] {text}')

  def fault(self, kind, text=''):
    self.faults[kind] = self.faults.get(kind, 0) + 1
    self.event(f'FAULT {kind} {text}')

  def fail(self, kind, message):
    """Records the violation and stops the run (raises in the caller)."""
    if self.violation is None:
      self.violation = Violation(kind, message)
      self.event(f'VIOLATION {kind}: {message}')
    raise SimStop()

  def add_host(self, index, name=None, count=1, group=None, skew=0.0):
    h = Host(self, index, name, skew)
    h.count = count
    h.group = group
    self.hosts.append(h)
    return h

  # ---- tasks
  def spawn(self, host, fn, name, daemon=False, thread=None):
    t = Task(self, host, fn, name)
    t.daemon = daemon
    t.thread = thread
    self.tasks.append(t)
    ready = _real_lock()
    ready.acquire()

    def main():
      _TASKS[get_ident()] = t
      if thread is not None:
        thread._ident = get_ident()
        threading._active[get_ident()] = thread
      ready.release()
      t.sem.acquire()
      try:
        t.started = True
        if self.ending:
          raise SimStop()
        if not host.alive:
          raise SimKilled()
        if self.line_permille:
          sys.settrace(self._tracer)
        t.result = fn()
      except (SimKilled, SimStop) as e:
        t.exc = e
      except BaseException as e:  # pylint: disable=broad-exception-caught
        if isinstance(e, HarnessError):
          self.harness_error = self.harness_error or traceback.format_exc()
        if t.unwinding and not isinstance(e, (HarnessError, Violation)):
          # Clean-up code on the way out of a kill; a dead process runs none.
          e = SimStop() if self.ending else SimKilled()
        t.exc = e
        t.tb = traceback.format_exc()
      finally:
        sys.settrace(None)
        t.done = True
        t.state = 'done'
        if thread is not None:
          thread._is_stopped = True
          threading._active.pop(get_ident(), None)
        else:
          threading._active.pop(get_ident(), None)
        _TASKS.pop(get_ident(), None)
        self.notify(('join', t.id))
        self._handoff(t)

    _thread.start_new_thread(main, ())
    ready.acquire()
    return t

  def _tracer(self, frame, event, arg):
    fn = frame.f_code.co_filename
    if fn.startswith(self.trace_lines):
      return self._line_tracer
    return None

  def _line_tracer(self, frame, event, arg):
    if event == 'line':
      t = _TASKS.get(get_ident())
      if t is not None and not t.nopreempt and not t.unwinding:
        if len(self._runnable()) > 1 and self.ch.chance(self.line_permille):
          self.yield_point('line', force=True)
    return self._line_tracer

  def _runnable(self):
    return [t for t in self.tasks if t.state == 'runnable']

  def _fire_timers(self):
    for t in self.tasks:
      if t.state == 'blocked' and t.wake is not None and t.wake <= self.now:
        t.state = 'runnable'
        t.timed_out = True
        t.key = t.wake = None

  def _next(self, cur, voluntary):
    """Chooses the next task to run, or None when the run is over or stuck."""
    while True:
      if self.ending:
        live = [t for t in self.tasks if not t.done]
        return live[0] if live else None
      self._fire_timers()
      run = self._runnable()
      if run:
        if voluntary and cur in run:
          others = [t for t in run if t is not cur]
          if not others or not self.ch.chance(self.preempt, 'preempt'):
            return cur
          return others[self.ch.draw(len(others), 'sched')]
        return run[self.ch.draw(len(run), 'sched')]
      timers = [t.wake for t in self.tasks
                if t.state == 'blocked' and t.wake is not None]
      if timers:
        self.now = max(self.now, min(timers))
        continue
      if self.on_stuck is not None:
        try:
          helped = self.on_stuck()
        except SimStop:
          self.ending = True
          continue
        if helped:
          continue
      return None

  def _handoff(self, cur, voluntary=False):
    nxt = self._next(cur, voluntary)
    if nxt is cur and not cur.done:
      return
    self.switches += 1
    self.sched_hash = (self.sched_hash * 1000003 + (nxt.id if nxt else -1)) & (
        (1 << 61) - 1)
    self.running = nxt
    if nxt is None:
      self.ctrl.release()
    else:
      nxt.sem.release()
    if not cur.done:
      cur.sem.acquire()

  def _check(self, t):
    if self.ending:
      t.unwinding = True
      raise SimStop()
    if not t.host.alive:
      t.unwinding = True
      raise SimKilled()

  def yield_point(self, what='', force=False):
    """A point at which another task may run."""
    t = _TASKS.get(get_ident())
    if t is None:
      return
    self._check(t)
    if t.nopreempt:
      return
    self.steps += 1
    self.now += 0.001
    if self.steps > self.max_steps:
      self.deadlock = self.deadlock or self._no_progress()
      self.ending = True
      raise SimStop()
    if force:
      run = self._runnable()
      others = [x for x in run if x is not t]
      if others:
        nxt = others[self.ch.draw(len(others), 'sched')]
        self.switches += 1
        self.sched_hash = (self.sched_hash * 1000003 + nxt.id) & ((1 << 61) - 1)
        self.running = nxt
        nxt.sem.release()
        t.sem.acquire()
    else:
      self._handoff(t, voluntary=True)
    self._check(t)

  def _no_progress(self):
    if os.environ.get('DST_STACKS'):
      import asyncio
      print(self._stacks())
      for a in asyncio.all_tasks.__globals__['_scheduled_tasks']:
        a.print_stack()
    return f'no progress in {self.steps} steps; blocked: ' + ', '.join(
        f'{t.host.name}/{t.name} on {t.key[0] if t.key else None}' for t in self.tasks
        if t.state == 'blocked')

  def block(self, key, timeout=None):
    """Blocks the current task until notify(key). Returns False on timeout."""
    t = _TASKS[get_ident()]
    self._check(t)
    self.steps += 1
    if self.steps > self.max_steps:
      self.deadlock = self.deadlock or self._no_progress()
      self.ending = True
      raise SimStop()
    t.state = 'blocked'
    t.key = key
    t.wake = None if timeout is None else self.now + max(0.0, timeout)
    t.timed_out = False
    self._handoff(t)
    self._check(t)
    return not t.timed_out

  def notify(self, key, n=None):
    for t in self.tasks:
      if t.state == 'blocked' and t.key == key:
        t.state = 'runnable'
        t.key = t.wake = None
        if n is not None:
          n -= 1
          if n <= 0:
            break

  def sleep(self, seconds):
    self.block(('sleep', get_ident()), timeout=seconds)

  def join(self, task, timeout=None):
    end = None if timeout is None else self.now + timeout
    while not task.done:
      left = None if end is None else end - self.now
      if left is not None and left <= 0:
        return False
      self.block(('join', task.id), left)
    return True

  # ---- crashes
  def crash_host(self, host, text=''):
    """Kills a simulated process; only durable state survives."""
    if not host.alive:
      return
    host.alive = False
    self.event(f'CRASH {host.name} {text}')
    for key in sorted(host.pending, key=str):
      host.pending[key]()
    host.pending.clear()
    for t in self.tasks:
      if t.host is host and not t.done and t.state == 'blocked':
        t.state = 'runnable'
        t.key = t.wake = None

  # ---- running
  def run(self):
    """Runs until every task is done or nothing can run; then unwinds."""
    global _ACTIVE
    if _ACTIVE is not None:
      raise HarnessError('nested simulation')
    _ACTIVE = self
    try:
      nxt = self._next(None, False)
      if nxt is not None:
        self.running = nxt
        nxt.sem.release()
        if not self._ctrl_wait():
          raise HarnessError('real-time watchdog: ' + self._stacks())
      stuck = [t for t in self.tasks if not t.done]
      if stuck and not self.ending:
        live = [t for t in stuck if not t.daemon]
        if live:
          self.deadlock = 'blocked forever: ' + ', '.join(
              f'{t.host.name}/{t.name} on {t.key[0] if t.key else None}' for t in live)
      # Unwind what is left.
      self.ending = True
      guard = 0
      while any(not t.done for t in self.tasks):
        guard += 1
        if guard > 10000:
          raise HarnessError('tasks do not unwind: ' + self._stacks())
        t = next(t for t in self.tasks if not t.done)
        t.state = 'runnable'
        self.running = t
        t.sem.release()
        if not self._ctrl_wait():
          raise HarnessError('real-time watchdog (unwind): ' + self._stacks())
    finally:
      _ACTIVE = None
    if self.harness_error:
      raise HarnessError(self.harness_error)

  def _ctrl_wait(self):
    # A guard against a hang of the harness itself; no verdict depends on it.
    return self.ctrl.acquire(timeout=float(os.environ.get('DST_HANG', '240')))

  def _stacks(self):
    frames = sys._current_frames()
    out = []
    for ident, t in list(_TASKS.items()):
      if ident in frames:
        out.append(f'{t.name} {t.state} {t.key}\n' + ''.join(
            traceback.format_stack(frames[ident])[-8:]))
    return '\n'.join(out)
