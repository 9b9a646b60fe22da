"""Helpers of a demonstration; runs with the repository as current directory."""
import os, sys, tempfile, threading, shutil, atexit
for k, v in {'JAX_PLATFORMS': 'cpu', 'TF_CPP_MIN_LOG_LEVEL': '3', 'NO_GCE_CHECK': 'true',
             'PYTHONDONTWRITEBYTECODE': '1',
             'XLA_FLAGS': '--xla_force_host_platform_device_count=4'}.items():
  os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), os.path.join(HERE, 'stubs')]
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, TMP, True)


def done(ok, msg=''):
  print('OK' if ok else 'BROKEN', msg, flush=True)
  shutil.rmtree(TMP, True)
  os._exit(0 if ok else 1)


class Hosts:
  """Runs a function on n threads that stand for n processes of a job."""

  def __init__(self, n, timeout=60):
    self.n, self.timeout = n, timeout
    self.local = threading.local()
    self.barrier = threading.Barrier(n, timeout=timeout)
    self.slot = {}

  def index(self, *a, **k):
    return getattr(self.local, 'i', 0)

  def count(self, *a, **k):
    return self.n

  def sync(self, *a, **k):
    self.barrier.wait()

  def gather(self, x):
    self.slot[self.index()] = x
    self.barrier.wait()
    out = [self.slot[i] for i in range(self.n)]
    self.barrier.wait()
    return out

  def broadcast(self, x, is_source=None):
    return self.gather(x)[0]

  def install(self):
    import jax
    from jax.experimental import multihost_utils as mu
    import numpy as np
    jax.process_index = self.index
    jax.process_count = self.count
    mu.sync_global_devices = self.sync
    mu.broadcast_one_to_all = self.broadcast
    mu.process_allgather = lambda x, tiled=False: jax.tree_util.tree_map(
        lambda *a: np.stack(a), *self.gather(x))
    mu.assert_equal = lambda x, m='': None
    return self

  def run(self, fn):
    res, err = {}, {}

    def body(i):
      self.local.i = i
      try:
        res[i] = fn(i)
      except BaseException as e:  # pylint: disable=broad-except
        err[i] = e
        self.barrier.abort()

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
    [t.start() for t in ts]
    [t.join(self.timeout) for t in ts]
    return res, err


def make_state(step=1, salt=0.0, leaves=(('w', (4, 3)), ('b', (4,)))):
  import numpy as np, flax
  from t5x import optimizers, train_state as ts

  class Def(optimizers.OptimizerDef):
    def __init__(self):
      super().__init__({})
    def derive_logical_axes(self, optimizer, axes):
      return optimizer

  target = {n: (np.arange(int(np.prod(s)), dtype=np.float32).reshape(s) + salt) for n, s in leaves}
  ps = {n: {'m': np.full(s, salt + 7, np.float32)} for n, s in leaves}
  opt = optimizers.Optimizer(Def(), optimizers.OptimizerState(np.asarray(step, np.int32), ps), {'p': target})
  return ts.FlaxOptimTrainState(opt, flax_mutables=flax.core.FrozenDict({}))


def make_partitioner(layout=(0, 1, True), partitioned=True, on_devices=True):
  import numpy as np, jax, flax
  from jax.sharding import PartitionSpec as P
  from t5x import partitioning
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('data', 'model'))

  class Part(partitioning.BasePartitioner):
    def __init__(self):
      super().__init__(num_partitions=1, params_on_devices=on_devices)
    @property
    def mesh(self):
      return mesh
    @property
    def _local_chunker(self):
      return partitioning.LocalChunker(mesh)
    def get_data_layout(self, batch_size=None, host_index=None):
      return partitioning.DataLayout(batch_size=batch_size, shard_id=layout[0],
                                     num_shards=layout[1], is_first_host_in_replica_set=layout[2])
    def get_mesh_axes(self, state):
      flat = flax.traverse_util.flatten_dict(state.state_dict(), keep_empty_nodes=True)
      e = flax.traverse_util.empty_node
      return state.restore_state(flax.traverse_util.unflatten_dict({
          k: v if v is e else (P(*([None] * np.ndim(v))) if partitioned and np.ndim(v) else None)
          for k, v in flat.items()}))
    def partition(self, fn, i, o, static_argnums=(), donate_argnums=()):
      return fn
    def compile(self, fn, *a):
      return fn

  return Part()


def flat(state):
  import flax, numpy as np
  return {'/'.join(k): np.asarray(v) for k, v in flax.traverse_util.flatten_dict(
      flax.core.unfreeze(state.state_dict())).items()}


def same(a, b):
  import numpy as np
  a, b = flat(a), flat(b)
  return sorted(a) == sorted(b) and all(
      a[k].dtype == b[k].dtype and np.array_equal(a[k], b[k]) for k in a)
