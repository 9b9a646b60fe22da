"""Puts Python's threads, locks, queues, timers and clocks behind the simulator.

Install before anything else is imported. Outside a simulated task everything
behaves as usual: a lock is a thin wrapper over the real one.
"""

import _thread
import asyncio
import queue
import sys
import threading
import time
import weakref
import _queue

from dst import core

get_ident = _thread.get_ident
_real_allocate = _thread.allocate_lock
_TASKS = core._TASKS

_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_real_time_ns = time.time_ns
_real_monotonic_ns = time.monotonic_ns


_QUIET = ('/tensorflow/', '/jax/', '/seqio/', '/keras/', '/numpy/')


def _library_lock():
  """Made by a library whose caches would make the schedule depend on history."""
  f = sys._getframe(2)
  while f is not None and f.f_code.co_filename in (__file__,
                                                   threading.__file__):
    f = f.f_back
  return f is not None and any(q in f.f_code.co_filename for q in _QUIET)


class HybridLock:
  """threading.Lock that cooperates with the simulator inside a task."""

  __slots__ = ('_l', '_sim', '__weakref__')

  def __init__(self):
    self._l = _real_allocate()
    t = _TASKS.get(get_ident())
    self._sim = t is not None and not _library_lock()

  def acquire(self, blocking=True, timeout=-1):
    t = _TASKS.get(get_ident())
    if t is None:
      return self._l.acquire(blocking, timeout)
    s = t.sim
    if self._sim:
      s.yield_point('lock')
    if self._l.acquire(False):
      return True
    if not blocking:
      return False
    end = None if timeout is None or timeout < 0 else s.now + timeout
    while True:
      left = None if end is None else end - s.now
      if left is not None and left <= 0:
        return False
      s.block(('lock', id(self)), left)
      if self._l.acquire(False):
        return True

  def release(self):
    self._l.release()
    t = _TASKS.get(get_ident())
    if t is not None:
      t.sim.notify(('lock', id(self)))

  def locked(self):
    return self._l.locked()

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self._l = _real_allocate()

  acquire_lock = acquire
  release_lock = release
  locked_lock = locked


class HybridRLock:
  """threading.RLock that cooperates with the simulator inside a task."""

  def __init__(self):
    self._b = HybridLock()
    self._owner = None
    self._count = 0

  def acquire(self, blocking=True, timeout=-1):
    me = get_ident()
    if self._owner == me:
      self._count += 1
      return True
    rc = self._b.acquire(blocking, timeout)
    if rc:
      self._owner = me
      self._count = 1
    return rc

  def release(self):
    if self._owner != get_ident():
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if not self._count:
      self._owner = None
      self._b.release()

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def _acquire_restore(self, state):
    self._b.acquire()
    self._count, self._owner = state

  def _release_save(self):
    if self._count == 0:
      raise RuntimeError('cannot release un-acquired lock')
    count, self._count = self._count, 0
    owner, self._owner = self._owner, None
    self._b.release()
    return (count, owner)

  def _recursion_count(self):
    return self._count if self._owner == get_ident() else 0

  def _is_owned(self):
    return self._owner == get_ident()

  def _at_fork_reinit(self):
    self._b._at_fork_reinit()
    self._owner = None
    self._count = 0


_orig_start = threading.Thread.start
_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive


def _thread_start(self):
  t = _TASKS.get(get_ident())
  if t is None:
    return _orig_start(self)
  s = t.sim
  s.yield_point('thread-start')
  thread = self

  def run():
    try:
      thread.run()
    except (core.SimKilled, core.SimStop):
      raise
    except SystemExit:
      pass
    except BaseException:  # like threading.excepthook, but quiet
      s.event(f'thread {thread._dst_seq} died: {sys.exc_info()[1]!r}')
      core.current().thread_died = sys.exc_info()[1]

  task = s.spawn(t.host, run, 'thr', daemon=self.daemon, thread=self)
  self._sim_task = task
  self._started._flag = True
  s.yield_point('thread-started')


def _thread_join(self, timeout=None):
  task = getattr(self, '_sim_task', None)
  if task is None or _TASKS.get(get_ident()) is None:
    if task is not None:
      return None
    return _orig_join(self, timeout)
  task.sim.join(task, timeout)


def _thread_is_alive(self):
  task = getattr(self, '_sim_task', None)
  if task is None:
    return _orig_is_alive(self)
  return not task.done


class _HybridSimpleQueue:
  """queue.SimpleQueue over hybrid locks (stdlib's own pure Python version)."""

  def __new__(cls):
    return queue._PySimpleQueue()


def _sim_now():
  t = _TASKS.get(get_ident())
  if t is None:
    return None
  return t.sim.now + t.host.skew


def sim_time():
  n = _sim_now()
  return _real_time() if n is None else n


def sim_time_ns():
  n = _sim_now()
  return _real_time_ns() if n is None else int(n * 1e9)


def sim_monotonic():
  t = _TASKS.get(get_ident())
  return _real_monotonic() if t is None else t.sim.now


def sim_monotonic_ns():
  t = _TASKS.get(get_ident())
  return _real_monotonic_ns() if t is None else int(t.sim.now * 1e9)


def sim_perf():
  t = _TASKS.get(get_ident())
  return _real_perf() if t is None else t.sim.now


def sim_sleep(seconds):
  t = _TASKS.get(get_ident())
  if t is None:
    return _real_sleep(seconds)
  t.sim.sleep(seconds)


class _SimSelector:
  """Stands in for the selector of an asyncio loop inside a task."""

  def __init__(self, inner):
    self._inner = inner
    self.woken = False

  def select(self, timeout=None):
    t = _TASKS.get(get_ident())
    if t is None:
      return self._inner.select(timeout)
    s = t.sim
    if self.woken:
      self.woken = False
      return []
    if timeout is not None and timeout <= 0:
      s.yield_point('loop')
      self.woken = False
      return []
    s.block(('loop', id(self)), timeout)
    self.woken = False
    return []

  def __getattr__(self, name):
    return getattr(self._inner, name)


def _patch_loop():
  base = asyncio.SelectorEventLoop

  class SimLoop(base):

    def __init__(self, *a, **k):
      super().__init__(*a, **k)
      if _TASKS.get(get_ident()) is not None:
        self._selector = _SimSelector(self._selector)

    def _write_to_self(self):
      sel = self._selector
      t = _TASKS.get(get_ident())
      if isinstance(sel, _SimSelector) and t is not None:
        sel.woken = True
        t.sim.notify(('loop', id(sel)))
      else:
        super()._write_to_self()

    def time(self):
      return sim_monotonic()

    def call_soon(self, callback, *args, context=None):
      h = super().call_soon(callback, *args, context=context)
      return h

  # asyncio.run cancels what is left in the order of a set of addresses.
  real_all = asyncio.tasks.all_tasks

  def all_tasks(loop=None):
    tasks = real_all(loop)
    if _TASKS.get(get_ident()) is None:
      return tasks
    return dict.fromkeys(sorted(
        tasks, key=lambda t: (len(t.get_name()), t.get_name()))).keys()

  asyncio.tasks.all_tasks = all_tasks

  class Policy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = SimLoop

  asyncio.SelectorEventLoop = SimLoop
  asyncio.set_event_loop_policy(Policy())


_POOLS = weakref.WeakSet()  # pools made outside any simulation, e.g. at import


def _unraisable(u, hook=sys.unraisablehook):
  if not isinstance(u.exc_value, (core.SimKilled, core.SimStop)):
    hook(u)


def install():
  sys.unraisablehook = _unraisable
  threading.Lock = HybridLock
  threading._allocate_lock = HybridLock
  threading.RLock = HybridRLock
  threading._CRLock = HybridRLock
  threading.Thread.start = _thread_start
  threading.Thread.join = _thread_join
  threading.Thread.is_alive = _thread_is_alive
  queue.SimpleQueue = _HybridSimpleQueue
  time.time = sim_time
  time.time_ns = sim_time_ns
  time.monotonic = sim_monotonic
  time.monotonic_ns = sim_monotonic_ns
  time.perf_counter = sim_perf
  time.sleep = sim_sleep
  threading._time = sim_monotonic
  queue.time = sim_monotonic
  import concurrent.futures.thread as cft
  import concurrent.futures._base as cfb
  orig_pool_init = cft.ThreadPoolExecutor.__init__

  def pool_init(self, *a, **k):
    orig_pool_init(self, *a, **k)
    if _TASKS.get(get_ident()) is None:
      _POOLS.add(self)

  cft.ThreadPoolExecutor.__init__ = pool_init

  # A pool made at import time exists once per simulated process.
  orig_submit = cft.ThreadPoolExecutor.submit

  def submit(self, fn, /, *args, **kwargs):
    t = _TASKS.get(get_ident())
    if t is not None and self in _POOLS:
      mine = t.host.env.setdefault('pools', {})
      if id(self) not in mine:
        mine[id(self)] = cft.ThreadPoolExecutor(self._max_workers)
      self = mine[id(self)]
    return orig_submit(self, fn, *args, **kwargs)

  cft.ThreadPoolExecutor.submit = submit
  cft._global_shutdown_lock = HybridLock()

  # Sets of futures are ordered by hash; make that independent of addresses.
  orig_init = cfb.Future.__init__

  def init(self):
    t = _TASKS.get(get_ident())
    if t is not None:
      t.sim.future_seq = getattr(t.sim, 'future_seq', 0) + 1
      self._dst_seq = t.sim.future_seq
    else:
      self._dst_seq = id(self) >> 4
    orig_init(self)

  orig_tinit = threading.Thread.__init__

  def tinit(self, *a, **k):
    t = _TASKS.get(get_ident())
    if t is not None:
      t.sim.thread_seq = getattr(t.sim, 'thread_seq', 0) + 1
      self._dst_seq = t.sim.thread_seq
    else:
      self._dst_seq = id(self) >> 4
    orig_tinit(self, *a, **k)

  threading.Thread.__init__ = tinit
  threading.Thread.__hash__ = (
      lambda self: getattr(self, '_dst_seq', None) or id(self) >> 4)
  cfb.Future.__init__ = init
  cfb.Future.__hash__ = lambda self: self._dst_seq

  def acquire_init(self, futures):  # locked in the order of their ids
    self.futures = sorted(futures, key=hash)

  cfb._AcquireFutures.__init__ = acquire_init
  _patch_loop()
