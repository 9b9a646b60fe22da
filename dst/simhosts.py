"""Multi-host seam: process identity, barriers, broadcasts, all-gathers."""

import numpy as np

from dst import core

_TASKS = core._TASKS
get_ident = core.get_ident


class Group:
  """The hosts of one SPMD job incarnation and their collectives."""

  def __init__(self, sim, n, name='job'):
    self.sim = sim
    self.n = n
    self.name = name
    self.round = {}  # host index -> number of collectives entered
    self.slots = {}  # round -> {host index: (op, payload)}
    self.history = []
    self.on_collective = None

  def exchange(self, host, op, payload):
    """Blocks until every host of the group enters its same-numbered collective."""
    s = self.sim
    s.yield_point('collective')
    r = self.round.get(host.index, 0)
    self.round[host.index] = r + 1
    slot = self.slots.setdefault(r, {})
    slot[host.index] = (op, payload)
    if self.on_collective:
      self.on_collective(host, op)
    ops = {o for o, _ in slot.values()}
    if len(ops) > 1:
      s.fail('collective-mismatch',
             f'hosts entered different collectives in round {r}: {sorted(ops)}')
    if len(slot) == self.n:
      self.history.append(op)
      s.event(f'{self.name} collective {r} {op}', trace=s.trace_fs)
      s.notify(('coll', id(self), r))
    else:
      while len(slot) < self.n:
        s.block(('coll', id(self), r))
    s.yield_point('collective-done')
    return [slot[i][1] for i in sorted(slot)]


def _host():
  t = _TASKS.get(get_ident())
  return None if t is None else t.host


def install():
  import jax
  from jax.experimental import multihost_utils as mhu
  o_index, o_count = jax.process_index, jax.process_count

  def process_index(backend=None):
    h = _host()
    if h is None or h.group is None:
      return o_index(backend)
    return h.index

  def process_count(backend=None):
    h = _host()
    if h is None or h.group is None:
      return o_count(backend)
    return h.group.n

  jax.process_index = process_index
  jax.process_count = process_count

  o_sync = mhu.sync_global_devices
  o_bcast = mhu.broadcast_one_to_all
  o_gather = mhu.process_allgather
  o_assert = mhu.assert_equal

  def sync_global_devices(name):
    h = _host()
    if h is None or h.group is None:
      return o_sync(name)
    h.group.exchange(h, f'sync:{name}', None)

  def broadcast_one_to_all(in_tree, is_source=None):
    h = _host()
    if h is None or h.group is None:
      return o_bcast(in_tree, is_source)
    if is_source is None:
      is_source = h.index == 0
    leaves, treedef = jax.tree_util.tree_flatten(in_tree)
    vals = [np.asarray(x) for x in leaves]
    sig = ','.join(f'{v.dtype}{list(v.shape)}' for v in vals)
    got = h.group.exchange(
        h, f'broadcast:{sig}', (bool(is_source), vals))
    src = [v for flag, v in got if flag]
    if len(src) != 1:
      h.sim.fail('broadcast', f'{len(src)} sources in a broadcast')
    return jax.tree_util.tree_unflatten(treedef, [np.array(v) for v in src[0]])

  def process_allgather(in_tree, tiled=False):
    h = _host()
    if h is None or h.group is None:
      return o_gather(in_tree, tiled)
    leaves, treedef = jax.tree_util.tree_flatten(in_tree)
    vals = [np.asarray(x) for x in leaves]
    got = h.group.exchange(h, 'allgather', vals)
    out = []
    for i in range(len(vals)):
      xs = [g[i] for g in got]
      out.append(np.concatenate(xs) if tiled else np.stack(xs))
    return jax.tree_util.tree_unflatten(treedef, out)

  def assert_equal(in_tree, fail_message=''):
    h = _host()
    if h is None or h.group is None:
      return o_assert(in_tree, fail_message)
    expected = broadcast_one_to_all(in_tree)
    same = jax.tree_util.tree_all(jax.tree_util.tree_map(
        lambda a, b: bool(np.all(np.equal(a, b))), in_tree, expected))
    if not same:
      raise AssertionError(
          f'{fail_message} Expected: {expected}; got: {in_tree}.')

  o_l2g = mhu.host_local_array_to_global_array
  o_g2l = mhu.global_array_to_host_local_array

  def host_local_array_to_global_array(tree, mesh, pspecs):
    h = _host()
    if h is None or h.group is None:
      return o_l2g(tree, mesh, pspecs)
    return tree  # the simulated partitioner assembles the global batch

  def global_array_to_host_local_array(tree, mesh, pspecs):
    h = _host()
    if h is None or h.group is None:
      return o_g2l(tree, mesh, pspecs)
    return tree

  mhu.host_local_array_to_global_array = host_local_array_to_global_array
  mhu.global_array_to_host_local_array = global_array_to_host_local_array
  mhu.sync_global_devices = sync_global_devices
  mhu.broadcast_one_to_all = broadcast_one_to_all
  mhu.process_allgather = process_allgather
  mhu.assert_equal = assert_equal


class PerHost:
  """A module-level counter of a library, one per simulated process."""

  def __init__(self, name):
    self._name = name
    self._n = 0

  def __iter__(self):
    return self

  def __next__(self):
    h = _host()
    if h is None:
      self._n += 1
      return self._n - 1
    n = h.env.get(self._name, 0)
    h.env[self._name] = n + 1
    return n


class SimClient:
  """The distributed client of one host: named barriers and a key-value store."""

  def __init__(self, group, host):
    self.group = group
    self.host = host
    self.store = group.__dict__.setdefault('kv', {})
    self.barriers = group.__dict__.setdefault('barriers', {})

  def wait_at_barrier(self, key, timeout_in_ms=None, process_ids=None):
    s = self.group.sim
    s.yield_point('barrier')
    members = set(range(self.group.n) if process_ids is None else process_ids)
    # A barrier may be used again once everybody has left it.
    gen = self.host.env.setdefault('barrier-gen', {})
    k = (key, gen.get(key, 0))
    gen[key] = k[1] + 1
    here = self.barriers.setdefault(k, set())
    here.add(self.host.index)
    if here >= members:
      s.event(f'{self.group.name} barrier {key}', trace=s.trace_fs)
      s.notify(('barrier', id(self.group), k))
    else:
      end = None if timeout_in_ms is None else s.now + timeout_in_ms / 1000.0
      while not here >= members:
        left = None if end is None else end - s.now
        if left is not None and left <= 0:
          raise RuntimeError(f'DEADLINE_EXCEEDED: barrier {key}')
        s.block(('barrier', id(self.group), k), left)
    s.yield_point('barrier-done')

  def key_value_set(self, key, value, allow_overwrite=False):
    self.group.sim.yield_point('kv-set')
    self.store[key] = value
    self.group.sim.notify(('kv', id(self.group), key))

  def key_value_try_get(self, key):
    import jax
    self.group.sim.yield_point('kv-get')
    if key not in self.store:
      raise jax.errors.JaxRuntimeError(f'NOT_FOUND: {key}')
    return self.store[key]

  def blocking_key_value_get(self, key, timeout_in_ms):
    import jax
    s = self.group.sim
    s.yield_point('kv-wait')
    end = s.now + timeout_in_ms / 1000.0
    while key not in self.store:
      if s.now >= end:
        raise jax.errors.JaxRuntimeError(f'DEADLINE_EXCEEDED: {key}')
      s.block(('kv', id(self.group), key), end - s.now)
    return self.store[key]


def install_orbax():
  """Orbax's own seams: the distributed client and its process-wide counters."""
  import nest_asyncio

  def apply(loop=None):
    raise core.HarnessError('a nested event loop')  # would patch asyncio

  nest_asyncio.apply = apply
  from orbax.checkpoint._src.futures import synchronization as sync
  from orbax.checkpoint._src.multihost import multihost as mh
  from orbax.checkpoint._src.path import atomicity
  atomicity._module_unique_count = PerHost('orbax-tmp')
  gen = sync.HandlerAwaitableSignalOperationIdGenerator
  gen._operation_id_counter = PerHost('orbax-op')

  # The class attribute holding the last id is process-wide as well.
  def next_operation_id(cls):
    n = next(cls._operation_id_counter)
    h = _host()
    if h is None:
      cls._operation_id = n
    else:
      h.env['orbax-op-id'] = n
    return n

  def get_current_operation_id(cls):
    h = _host()
    return str(cls._operation_id if h is None
               else h.env.get('orbax-op-id', 0))

  gen.next_operation_id = classmethod(next_operation_id)
  gen.get_current_operation_id = classmethod(get_current_operation_id)
  o_client, o_init = (mh.get_jax_distributed_client,
                      mh.is_jax_distributed_client_initialized)

  def client():
    h = _host()
    if h is None or h.group is None:
      return o_client()
    if 'client' not in h.env:
      h.env['client'] = SimClient(h.group, h)
    return h.env['client']

  def initialized():
    h = _host()
    if h is None or h.group is None:
      return o_init()
    return h.group.n > 1

  mh.get_jax_distributed_client = client
  mh.is_jax_distributed_client_initialized = initialized
