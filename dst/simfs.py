"""Disk seam: Python file operations, tf gfile, TensorStore, tf.train.Checkpoint.

Files live in a real scratch directory; every mutating operation on a path
below the simulator's scratch root passes `mutate`, where the fault plan may
crash the simulated process (before, in the middle of or after the operation)
or make it fail. Compound operations (rmtree, write-then-close) are decomposed
into the primitive steps a crash can fall between.
"""

import builtins
import errno
import io
import os
import re
import shutil
import zlib

from dst import core

_real = {}
_TASKS = core._TASKS
get_ident = core.get_ident


def _ctx(path):
  """The running sim if this thread is a task and path is below its scratch."""
  t = _TASKS.get(get_ident())
  if t is None:
    return None
  try:
    p = os.fspath(path)
  except TypeError:
    return None
  if isinstance(p, bytes):
    p = p.decode()
  if not isinstance(p, str):
    return None
  if not p.startswith(t.sim.scratch):
    return None
  return t.sim


def in_sim():
  return _TASKS.get(get_ident())


class FaultPlan:
  """Decides, per mutating disk operation, what happens to it.

  crash_at: {host index: ordinal of the mutating op at which it crashes}.
  error_at: {host index: [(first ordinal, count, kind)]}; the ops fail.
  stall_at: {ordinal: seconds}: the op takes long.
  """

  def __init__(self, ch):
    self.ch = ch
    self.crash_at = {}
    self.error_at = {}
    self.stall = 0
    self.filter = None
    self.list_order = ch.draw(4, 'list-order')  # 0: by name
    self.only = None  # optional predicate(kind, path) of ops that count

  def decide(self, sim, host, kind, path):
    if self.only is not None and not self.only(kind, path):
      return None
    host.env['ops'] = host.env.get('ops', 0) + 1
    n = host.env['ops']
    if self.crash_at.get(host.index) == n:
      mode = self.ch.pick(['before', 'torn', 'after'], 'crash-mode')
      sim.fault(f'crash-{mode}', f'{host.name} op {n} {kind} {sim.rel(path)}')
      return ('crash', mode)
    for first, count, ekind in self.error_at.get(host.index, ()):
      if first <= n < first + count:
        sim.fault(f'io-{ekind}', f'{host.name} op {n} {kind} {sim.rel(path)}')
        return ('error', ekind)
    if self.stall and self.ch.chance(self.stall, 'stall'):
      d = 1 + self.ch.draw(600, 'stall-s')
      sim.fault('stall', f'{host.name} op {n} {kind} {d}s')
      return ('stall', d)
    return None


def _rel(self, path):
  p = os.fspath(path)
  return p[len(self.scratch):] if p.startswith(self.scratch) else p


core.Sim.rel = _rel


def _raise(ekind, path, tf_style):
  if tf_style:
    import tensorflow as tf
    cls = {
        'enospc': tf.errors.ResourceExhaustedError,
        'eio': tf.errors.InternalError,
        'eunavailable': tf.errors.UnavailableError,
    }[ekind]
    raise cls(None, None, f'injected {ekind}: {path}')
  no = {'enospc': errno.ENOSPC, 'eio': errno.EIO,
        'eunavailable': errno.EAGAIN}[ekind]
  raise OSError(no, f'injected {ekind}', path)


def mutate(kind, path, do, torn=None, tf_style=False):
  """Runs one mutating primitive under the fault plan."""
  t = _TASKS[get_ident()]
  s = t.sim
  s._check(t)
  s.yield_point('fs')
  plan = s.fs
  act = plan.decide(s, t.host, kind, path) if plan is not None else None
  if act is not None:
    what, arg = act
    if what == 'stall':
      s.sleep(arg)
    elif what == 'error':
      if torn is not None and s.ch.chance(500, 'short-write'):
        torn()
      _raise(arg, path, tf_style)
    elif what == 'crash':
      if arg == 'torn' and torn is not None:
        torn()
      elif arg == 'after' or (arg == 'torn' and torn is None
                              and s.ch.chance(500)):
        do()
        s.event(f'{t.host.name} {kind} {s.rel(path)}', trace=s.trace_fs)
        for m in s.monitors:
          m(t.host, kind, path)
      s.crash_host(t.host, f'at {kind} {s.rel(path)}')
      t.unwinding = True
      raise core.SimKilled()
  r = do()
  s.event(f'{t.host.name} {kind} {s.rel(path)}', trace=s.trace_fs)
  for m in s.monitors:
    m(t.host, kind, path)
  return r


core.Sim.trace_fs = True


def observe(kind, path):
  """A read: only a scheduling point."""
  t = _TASKS[get_ident()]
  t.sim.yield_point('fs-read')
  rf = getattr(t.sim, 'read_fault', None)
  if rf is not None:
    rf(t.host, kind, path)


# ---------------------------------------------------------------- files


class SimFile:
  """A file opened for writing below the scratch root."""

  def __init__(self, path, mode, tf_style, encoding=None, newline=None):
    self._path = os.fspath(path)
    self.name = self._path
    self.mode = mode
    self._binary = 'b' in mode
    self._tf = tf_style
    self._buf = []
    self.closed = False
    self._created = False
    self._key = None
    self._append = 'a' in mode
    if not tf_style:
      self._create()

  def _create(self):
    if self._created:
      return
    path = self._path
    flag = 'ab' if self._append else 'wb'

    def do():
      try:
        _real['open'](path, flag).close()
      except FileNotFoundError as e:
        if self._tf:
          import tensorflow as tf
          raise tf.errors.NotFoundError(None, None, str(e)) from e
        raise

    mutate('create', path, do, tf_style=self._tf)
    self._created = True
    t = _TASKS[get_ident()]
    self._key = ('file', getattr(t.sim, 'file_seq', 0))
    t.sim.file_seq = self._key[1] + 1
    self._host = t.host
    t.host.pending[self._key] = self._tear

  def _tear(self):
    """A crash: some prefix of the unflushed data may have reached the disk."""
    s = self._host.sim
    data = b''.join(self._buf)
    if data:
      n = s.ch.draw(len(data) + 1, 'torn-bytes')
      if n:
        s.fault('torn-write', f'{s.rel(self._path)} {n}/{len(data)}')
        try:
          with _real['open'](self._path, 'ab') as f:
            f.write(data[:n])
        except FileNotFoundError:
          pass

  def write(self, data):
    if isinstance(data, str):
      raw = data.encode()
    else:
      raw = bytes(data)
    self._create()
    self._buf.append(raw)
    return len(data)

  def writelines(self, lines):
    for l in lines:
      self.write(l)

  def flush(self):
    data = b''.join(self._buf)
    if not data:
      return
    path = self._path

    def do():
      with _real['open'](path, 'ab') as f:
        f.write(data)

    def torn():
      s = core.sim()
      n = s.ch.draw(len(data) + 1, 'torn-bytes')
      s.fault('torn-write', f'{s.rel(path)} {n}/{len(data)}')
      with _real['open'](path, 'ab') as f:
        f.write(data[:n])

    self._buf = []
    mutate('write', path, do, torn, tf_style=self._tf)

  def close(self):
    if self.closed:
      return
    self.closed = True
    try:
      self.flush()
    finally:
      if self._key is not None and self._host.alive:
        self._host.pending.pop(self._key, None)

  def tell(self):
    base = os.path.getsize(self._path) if os.path.exists(self._path) else 0
    return base + sum(map(len, self._buf))

  def fileno(self):
    raise io.UnsupportedOperation('fileno')

  def readable(self):
    return False

  def writable(self):
    return True

  def seekable(self):
    return False

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def __del__(self):
    pass


def _sim_open(file, mode='r', *a, **k):
  if isinstance(file, int) or not any(c in mode for c in 'wax+'):
    if not isinstance(file, int) and _ctx(file) is not None:
      observe('open', file)
    return _real['open'](file, mode, *a, **k)
  if _ctx(file) is None:
    return _real['open'](file, mode, *a, **k)
  if 'x' in mode and os.path.exists(file):
    raise FileExistsError(file)
  if '+' in mode:
    return _real['open'](file, mode, *a, **k)
  return SimFile(file, mode, False)


def _wrap_os(name, kind, two=False):
  orig = getattr(os, name)
  _real[name] = orig

  def fn(path, *a, **k):
    if k.get('dir_fd') is not None or k.get('src_dir_fd') is not None:
      return orig(path, *a, **k)
    if _ctx(path) is None:
      return orig(path, *a, **k)
    if two:
      dst = os.fspath(a[0] if a else k['dst'])
      return mutate(kind, _arrow(path, dst),
                    lambda: _renaming(orig, path, dst, a, k))
    return mutate(kind, os.fspath(path), lambda: orig(path, *a, **k))

  fn.__name__ = name
  setattr(os, name, fn)


def _arrow(src, dst):
  return os.fspath(src) + ' -> ' + os.path.basename(dst.rstrip('/'))


def _renaming(orig, src, dst, a, k):
  r = orig(src, *a, **k)
  core.sim().moves.append((os.fspath(src), dst))
  return r


def _moves(self):
  m = self.__dict__.get('_mv')
  if m is None:
    m = self.__dict__['_mv'] = []
  return m


core.Sim.moves = property(_moves)


def resolve(s, path):
  """Where a file written under `path` is now, given the renames since."""
  for src, dst in s.moves:
    if path == src or path.startswith(src.rstrip('/') + '/'):
      path = dst.rstrip('/') + path[len(src.rstrip('/')):]
  return path


def rmtree(path, tf_style=False):
  """Depth-first removal in a scheduler-chosen order, one unlink at a time."""
  s = core.sim()
  path = os.fspath(path)

  def err(e):
    if tf_style:
      import tensorflow as tf
      raise tf.errors.NotFoundError(None, None, str(e))
    raise e

  def walk(d):
    names = sorted(_real['listdir'](d))
    for n in s.ch.shuffle(names, 'rmtree-order') if len(names) <= 16 else names:
      p = os.path.join(d, n)
      if os.path.isdir(p) and not os.path.islink(p):
        walk(p)
      else:
        mutate('unlink', p, lambda p=p: _real['unlink'](p), tf_style=tf_style)
    mutate('rmdir', d, lambda: _real['rmdir'](d), tf_style=tf_style)

  if not os.path.exists(path):
    err(FileNotFoundError(errno.ENOENT, 'no such directory', path))
  if not os.path.isdir(path):
    mutate('unlink', path, lambda: _real['unlink'](path), tf_style=tf_style)
    return
  walk(path)


def install_os():
  _real['open'] = builtins.open
  _real['listdir'] = os.listdir
  builtins.open = _sim_open
  io_open = io.open
  _real['io.open'] = io_open
  io.open = _sim_open  # pathlib's Path.open
  for n in ('rename', 'replace'):
    _wrap_os(n, 'rename', two=True)
  for n in ('remove', 'unlink'):
    _wrap_os(n, 'unlink')
  _wrap_os('rmdir', 'rmdir')
  _wrap_os('mkdir', 'mkdir')
  orig_rmtree = shutil.rmtree
  _real['rmtree'] = orig_rmtree

  def sh_rmtree(path, ignore_errors=False, *a, **k):
    if _ctx(path) is None:
      return orig_rmtree(path, ignore_errors, *a, **k)
    try:
      rmtree(path)
    except OSError:
      if not ignore_errors:
        raise

  shutil.rmtree = sh_rmtree

  def listdir(path='.'):
    if isinstance(path, int) or _ctx(path) is None:
      return _real['listdir'](path)
    observe('listdir', path)
    return sorted(_real['listdir'](path),
                  key=lambda n: _listed(os.path.join(path, n)))

  os.listdir = listdir
  orig_scandir = os.scandir

  class Scan:
    """What os.scandir returns."""

    def __init__(self, path):
      with orig_scandir(path) as it:
        self._it = iter(sorted(it, key=lambda e: _listed(e.path)))

    def __iter__(self):
      return self

    def __next__(self):
      return next(self._it)

    def __enter__(self):
      return self

    def __exit__(self, *a):
      pass

    def close(self):
      pass

  def scandir(path='.'):
    if isinstance(path, int) or _ctx(path) is None:
      return orig_scandir(path)
    observe('scandir', path)
    return Scan(path)

  os.scandir = scandir


# ---------------------------------------------------------------- gfile


def install_gfile():
  import tensorflow as tf
  g = tf.io.gfile
  orig = {n: getattr(g, n) for n in (
      'GFile', 'exists', 'isdir', 'makedirs', 'mkdir', 'glob', 'rename',
      'remove', 'rmtree', 'listdir', 'copy', 'stat', 'walk')}
  _real['gfile'] = orig

  class GFileFactory(orig['GFile']):

    def __new__(cls, name, mode='r'):
      if any(c in mode for c in 'wa') and '+' not in mode and (
          _ctx(name) is not None):
        return SimFile(name, mode, True)
      if _ctx(name) is not None:
        observe('open', name)
      return orig['GFile'](name, mode)

    def __init__(self, name, mode='r'):
      pass

  g.GFile = GFileFactory

  def read_fn(n):
    o = orig[n]

    def fn(path, *a, **k):
      p = path[0] if isinstance(path, (list, tuple)) and path else path
      if _ctx(p) is not None:
        observe(n, p)
      return o(path, *a, **k)

    fn.__name__ = n
    return fn

  for n in ('exists', 'isdir', 'stat', 'walk'):
    setattr(g, n, read_fn(n))

  def listdir(path):
    if _ctx(path) is None:
      return orig['listdir'](path)
    observe('listdir', path)
    return sorted(orig['listdir'](path),
                  key=lambda n: _listed(os.path.join(path, n.rstrip('/'))))

  g.listdir = listdir

  def glob(pattern):
    p = pattern[0] if isinstance(pattern, (list, tuple)) else pattern
    if _ctx(p) is not None:
      observe('glob', p)
      return sorted(orig['glob'](pattern), key=_listed)
    return orig['glob'](pattern)

  g.glob = glob

  def makedirs(path):
    s = _ctx(path)
    if s is None:
      return orig['makedirs'](path)
    path = os.fspath(path).rstrip('/')
    todo = []
    p = path
    while not os.path.isdir(p):
      if os.path.exists(p):
        raise tf.errors.FailedPreconditionError(None, None, p)
      todo.append(p)
      p = os.path.dirname(p)
    observe('makedirs', path)
    for p in reversed(todo):
      def do(p=p):
        try:
          _real['mkdir'](p)
        except FileExistsError:
          pass
      mutate('mkdir', p, do, tf_style=True)

  g.makedirs = makedirs

  def mkdir(path):
    if _ctx(path) is None:
      return orig['mkdir'](path)
    return mutate('mkdir', os.fspath(path), lambda: orig['mkdir'](path),
                  tf_style=True)

  g.mkdir = mkdir

  def rename(src, dst, overwrite=False):
    if _ctx(src) is None:
      return orig['rename'](src, dst, overwrite)

    def do():
      orig['rename'](src, dst, overwrite)
      core.sim().moves.append((os.fspath(src), os.fspath(dst)))

    return mutate('rename', _arrow(src, os.fspath(dst)), do, tf_style=True)

  g.rename = rename

  def remove(path):
    if _ctx(path) is None:
      return orig['remove'](path)
    return mutate('unlink', os.fspath(path), lambda: orig['remove'](path),
                  tf_style=True)

  g.remove = remove

  def g_rmtree(path):
    if _ctx(path) is None:
      return orig['rmtree'](path)
    return rmtree(path, tf_style=True)

  g.rmtree = g_rmtree

  def copy(src, dst, overwrite=False):
    if _ctx(dst) is None:
      return orig['copy'](src, dst, overwrite)
    if os.path.exists(dst) and not overwrite:
      raise tf.errors.AlreadyExistsError(None, None, f'{dst} exists')
    with orig['GFile'](src, 'rb') as f:
      data = f.read()
    with SimFile(dst, 'wb', True) as f:
      f.write(data)
      if not data:
        f._create()

  g.copy = copy

  # tf.train.Checkpoint: one unit per write; a crash in it leaves a subset.
  ck = tf.train.Checkpoint

  def wrap_write(name):
    o = getattr(ck, name)

    def fn(self, path, *a, **k):
      if _ctx(path) is None:
        return o(self, path, *a, **k)
      t = _TASKS[get_ident()]

      def torn():
        s = t.sim
        with_nopreempt(t, lambda: o(self, path, *a, **k))
        d = os.path.dirname(path) or '.'
        base = os.path.basename(path)
        files = sorted(f for f in _real['listdir'](d)
                       if f.startswith(base + '.'))
        # TensorFlow renames the data files into place before the index.
        kill = [f for f in files if f.endswith('.index')]
        kill += [f for f in files if not f.endswith('.index')
                 and s.ch.chance(500, 'torn-ckpt')]
        for f in kill:
          _real['unlink'](os.path.join(d, f))

      return mutate('tfckpt-' + name, os.fspath(path),
                    lambda: with_nopreempt(t, lambda: o(self, path, *a, **k)),
                    torn, tf_style=True)

    setattr(ck, name, fn)

  def wrap_read(name):
    o = getattr(ck, name)

    def fn(self, path, *a, **k):
      if path is not None and _ctx(path) is not None:
        observe('tfckpt-' + name, path)
        t = _TASKS[get_ident()]
        return with_nopreempt(t, lambda: o(self, path, *a, **k))
      return o(self, path, *a, **k)

    setattr(ck, name, fn)

  wrap_write('write')
  wrap_read('read')


def with_nopreempt(t, fn):
  t.nopreempt += 1
  try:
    return fn()
  finally:
    t.nopreempt -= 1


# ---------------------------------------------------------------- tensorstore


def _ts_path(js):
  """Local directory a TensorStore spec writes to, or None."""
  while isinstance(js, dict):
    kv = js.get('kvstore')
    if isinstance(kv, dict):
      while isinstance(kv, dict) and 'base' in kv:
        b = kv['base']
        if isinstance(b, str):
          return b[len('file://'):] if b.startswith('file://') else None
        kv = b
      if isinstance(kv, dict) and kv.get('driver') in ('file', 'gfile'):
        return kv.get('path')
      return None
    if isinstance(kv, str):
      return kv[len('file://'):] if kv.startswith('file://') else None
    js = js.get('base')
  return None


_RANDOM_NAME = re.compile(r'[0-9a-f]{32}$')


def _order(path):
  """A sort key that does not depend on the random names of TensorStore."""
  path = os.fspath(path)
  if not _RANDOM_NAME.search(path):
    return (path, 0, 0)
  try:
    st = os.stat(path)
    return (_RANDOM_NAME.sub('', path), st.st_size, st.st_mtime_ns)
  except OSError:
    return (path, 0, 0)


def _listed(path):
  """A sort key for the order in which directories list their entries.

  That order is the file system's: by name, or any other the run has drawn.
  """
  key = _order(path)
  s = core.sim()
  salt = getattr(s.fs, 'list_order', 0) if s is not None and s.fs else 0
  if not salt:
    return (0, *key)
  rel = os.path.relpath(key[0], s.scratch)
  return (zlib.crc32(f'{salt}:{rel}:{key[1]}'.encode()), *key)


def _tree_files(d):
  out = {}
  for base, _, files in os.walk(d):
    for f in files:
      p = os.path.join(base, f)
      try:
        st = os.stat(p)
      except FileNotFoundError:
        continue
      out[p] = (st.st_size, st.st_mtime_ns, st.st_ino)
  return out


class SimTsFuture:
  """A TensorStore future that is done but is observed at a simulated time."""

  def __init__(self, value=None, exc=None, delay=0.0, on_done=None):
    self._value = value
    self._exc = exc
    self._delay = delay
    self._on_done = on_done

  def _fin(self):
    if self._on_done is not None:
      f, self._on_done = self._on_done, None
      f()
    if self._exc is not None:
      raise self._exc
    return self._value

  def __await__(self):
    import asyncio
    if self._delay:
      d, self._delay = self._delay, 0
      yield from asyncio.sleep(d).__await__()
    else:
      yield from asyncio.sleep(0).__await__()
    t = _TASKS.get(get_ident())
    if t is not None:
      t.sim._check(t)
    return self._fin()

  def result(self, timeout=None):
    t = _TASKS.get(get_ident())
    if t is not None:
      t.sim.sleep(self._delay)
      self._delay = 0
    return self._fin()

  def exception(self, timeout=None):
    return self._exc

  def done(self):
    return self._delay == 0

  def add_done_callback(self, cb):
    self._delay = 0
    cb(self)

  def force(self):
    pass


class SimTsWrite(SimTsFuture):

  def __init__(self, value, exc, delay, on_done):
    super().__init__(value, exc, delay, on_done)
    self.commit = SimTsFuture(value, exc, delay, on_done)
    self.copy = SimTsFuture(None, None, 0.0)


def _delay(s):
  """Simulated latency of one TensorStore operation."""
  k = getattr(s, 'ts_latency', 0)
  if not k:
    return 0.0
  return s.ch.draw(k, 'ts-latency') / 100.0


def install_tensorstore():
  import tensorstore as ts
  o_open = ts.open
  o_write = ts.TensorStore.write
  o_read = ts.TensorStore.read
  _real['ts.open'] = o_open

  def sim_ts_open(spec, *a, **k):
    t = _TASKS.get(get_ident())
    if t is None:
      return o_open(spec, *a, **k)
    s = t.sim
    js = spec.to_json() if isinstance(spec, ts.Spec) else spec
    path = _ts_path(js) if isinstance(js, dict) else None
    if path is None or not path.startswith(s.scratch):
      try:
        return SimTsFuture(o_open(spec, *a, **k).result())
      except Exception as e:  # pylint: disable=broad-exception-caught
        return SimTsFuture(None, e)
    box = []
    create = k.get('create', js.get('create', False))
    if k.get('transaction') is not None:
      _txn_paths(s).append((k['transaction'], path.rstrip('/')))
      create = False  # nothing reaches the disk before the commit

    def do():
      box.append(o_open(spec, *a, **k).result())

    try:
      if create:
        mutate('ts-create', path.rstrip('/'), do)
      else:
        observe('ts-open', path)
        do()
    except Exception as e:  # pylint: disable=broad-exception-caught
      return SimTsFuture(None, e, _delay(s))
    return SimTsFuture(box[0], None, _delay(s))

  ts.open = sim_ts_open

  def sim_write(self, source, *a, **k):
    t = _TASKS.get(get_ident())
    if t is None:
      return o_write(self, source, *a, **k)
    s = t.sim
    try:
      path = _ts_path(self.spec().to_json())
    except Exception:  # pylint: disable=broad-exception-caught
      path = None
    if path is None or not path.startswith(s.scratch):
      try:
        o_write(self, source, *a, **k).result()
      except Exception as e:  # pylint: disable=broad-exception-caught
        return SimTsWrite(None, e, 0.0, None)
      return SimTsWrite(None, None, 0.0, None)
    txn = k.get('transaction') or getattr(self, 'transaction', None)
    if txn is not None:  # in memory until the commit
      s.yield_point('ts-txn')
      try:
        o_write(self, source, *a, **k).copy.result()
      except Exception as e:  # pylint: disable=broad-exception-caught
        return SimTsWrite(None, e, 0.0, None)
      return SimTsWrite(None, None, _delay(s), None)
    key = ('ts', getattr(s, 'ts_seq', 0))
    s.ts_seq = key[1] + 1
    host = t.host
    changed = []

    def do():
      before = _tree_files(path)
      o_write(self, source, *a, **k).result()
      after = _tree_files(path)
      changed.extend(p for p in sorted(after, key=_order)
                     if before.get(p) != after[p])

    def damage():
      for p in changed:
        q = resolve(s, p)
        mode = s.ch.draw(3, 'lost-write')
        if not os.path.exists(q) or mode == 0:
          continue
        s.fault('lost-ts-write', s.rel(q))
        if mode == 1:
          _real['unlink'](q)
        else:
          n = os.path.getsize(q)
          os.truncate(q, s.ch.draw(n, 'torn-bytes') if n else 0)

    def torn():
      do()
      damage()

    try:
      mutate('ts-write', path.rstrip('/'), do, torn)
    except Exception as e:  # pylint: disable=broad-exception-caught
      return SimTsWrite(None, e, _delay(s), None)
    host.pending[key] = damage
    obs = getattr(s, 'ts_observer', None)
    nbytes = int(getattr(source, 'nbytes', 0))
    if obs is not None:
      obs(host, 'start', path, nbytes)

    def finished():
      host.pending.pop(key, None)
      if obs is not None:
        obs(host, 'end', path, nbytes)

    return SimTsWrite(None, None, _delay(s), finished)

  ts.TensorStore.write = sim_write

  def sim_read(self, *a, **k):
    t = _TASKS.get(get_ident())
    if t is None:
      return o_read(self, *a, **k)
    s = t.sim
    try:
      observe('ts-read', s.scratch)
      return SimTsFuture(o_read(self, *a, **k).result(), None, _delay(s))
    except Exception as e:  # pylint: disable=broad-exception-caught
      return SimTsFuture(None, e, _delay(s))

  ts.TensorStore.read = sim_read
  install_kvstore()


def _txn_paths(s):
  v = s.__dict__.get('txns')
  if v is None:
    v = s.__dict__['txns'] = []
  return v


def _txn_path(s, txn):
  for other, path in reversed(_txn_paths(s)):
    if other is txn:
      return path
  return None


def install_kvstore():
  """Transactions and the key-value stores Orbax merges its files with."""
  import tensorstore as ts
  kv = ts.KvStore
  o_open, o_with, o_commit = kv.open, kv.with_transaction, (
      ts.Transaction.commit_async)

  def kv_path(js):
    return _ts_path({'kvstore': js})

  def sim_open(spec, *a, **k):
    t = _TASKS.get(get_ident())
    if t is None:
      return o_open(spec, *a, **k)
    s = t.sim
    js = spec.to_json() if isinstance(spec, kv.Spec) else spec
    path = kv_path(js)
    try:
      if path is not None and path.startswith(s.scratch):
        observe('kv-open', path)
      return SimTsFuture(o_open(spec, *a, **k).result(), None, _delay(s))
    except Exception as e:  # pylint: disable=broad-exception-caught
      return SimTsFuture(None, e)

  kv.open = staticmethod(sim_open)

  def with_transaction(self, txn):
    t = _TASKS.get(get_ident())
    if t is not None and txn is not None:
      path = kv_path(self.spec().to_json())
      if path is not None and path.startswith(t.sim.scratch):
        _txn_paths(t.sim).append((txn, path.rstrip('/')))
    return o_with(self, txn)

  kv.with_transaction = with_transaction

  def reading(name):
    o = getattr(kv, name)

    def fn(self, *a, **k):
      t = _TASKS.get(get_ident())
      if t is None:
        return o(self, *a, **k)
      try:
        t.sim.yield_point('kv-' + name)
        return SimTsFuture(o(self, *a, **k).result(), None, _delay(t.sim))
      except Exception as e:  # pylint: disable=broad-exception-caught
        return SimTsFuture(None, e)

    setattr(kv, name, fn)

  for n in ('read', 'list', 'experimental_copy_range_to'):
    reading(n)

  def commit(self):
    t = _TASKS.get(get_ident())
    if t is None:
      return o_commit(self)
    s = t.sim
    path = _txn_path(s, self)
    if path is None:
      try:
        return SimTsFuture(o_commit(self).result())
      except Exception as e:  # pylint: disable=broad-exception-caught
        return SimTsFuture(None, e)

    def do():
      o_commit(self).result()

    def torn():
      # The manifest is replaced last; data files may exist without it.
      before = {}
      for p in _tree_files(path):
        if os.path.basename(p).startswith('manifest'):
          with _real['open'](p, 'rb') as f:
            before[p] = f.read()
      old = _tree_files(path)
      do()
      for p in sorted(_tree_files(path), key=_order):
        if p in before:
          with _real['open'](p, 'wb') as f:
            f.write(before[p])
        elif p not in old and (os.path.basename(p).startswith('manifest') or
                               s.ch.chance(500, 'torn-commit')):
          _real['unlink'](p)
      s.fault('torn-commit', s.rel(path))

    try:
      mutate('ts-commit', path, do, torn)
    except Exception as e:  # pylint: disable=broad-exception-caught
      return SimTsFuture(None, e, _delay(s))
    return SimTsFuture(None, None, _delay(s))

  ts.Transaction.commit_async = commit


def install():
  install_os()


def install_tfdata():
  """tf.data without background threads, which no scheduler here controls.

  Prefetching and parallel mapping change when elements are computed, not which
  ones; TensorFlow's own checkpoints of prefetching iterators lose
  elements on a loaded machine, which is not a matter of the code under test.
  """
  import tensorflow as tf
  ds = tf.data.Dataset
  o_map, o_inter = ds.map, ds.interleave

  def prefetch(self, buffer_size=None, name=None):
    return self

  def map(self, map_func, num_parallel_calls=None, deterministic=None, **k):
    return o_map(self, map_func, **k)

  def interleave(self, map_func, cycle_length=None, block_length=None,
                 num_parallel_calls=None, deterministic=None, **k):
    return o_inter(self, map_func, cycle_length, block_length, **k)

  ds.prefetch = prefetch
  ds.map = map
  ds.interleave = interleave


def quiet_options():
  """Dataset options under which tf.data adds no threads of its own."""
  import tensorflow as tf
  o = tf.data.Options()
  o.autotune.enabled = False
  o.experimental_optimization.apply_default_optimizations = False
  o.experimental_optimization.inject_prefetch = False
  o.deterministic = True
  o.threading.max_intra_op_parallelism = 1
  return o
